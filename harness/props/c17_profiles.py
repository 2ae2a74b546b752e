"""C17: profile likelihood / product spacing functions, their confidence intervals, and the links they use."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import optimize
import scipy.stats as ss

from core import sub, check, close, same, arr, raises, finite, fail
from gens import fl, seeds, nice, rs
from c16_fit import TR, neg_ll, neg_lps, W


# --------------------------------------------------------------------------------------------------------- links
LINK_PAR = dict(expon=[], weibull_min=[(0.4, 5)], genpareto=[(-0.5, 0.8)], genexpon=[(0.2, 3), (0.2, 3), (0.2, 3)],
                gumbel_r=[], rayleigh=[], truncrayleigh=[(0.05, 4)], genextreme=[(-0.6, 0.6)],
                exponweib=[(0.4, 4), (0.5, 4)], burr=[(0.8, 6), (0.5, 4)])
NOT_IMPL = dict(genpareto=[0], genextreme=[0], genexpon=[2, 3, 4])


@st.composite
def link_cases(draw):
    name = draw(st.sampled_from(sorted(LINK_PAR)))
    sh = [draw(fl(*r)) for r in LINK_PAR[name]]
    if name in ('genpareto', 'genextreme'):
        sh = [draw(st.sampled_from([0.0, sh[0], sh[0], sh[0] / 50, sh[0] / 500]))]
        if abs(sh[0]) < 1e-4:
            sh = [0.0]
    return dict(name=name, par=sh + [draw(nice(-4, 4)), draw(fl(0.2, 5))], q=draw(st.one_of(fl(0.001, 0.97), fl(1e-6, 0.01))),
                i=draw(st.integers(0, len(sh) + 2)))


@sub('C17', link_cases(), quick=800)
def links(c):
    """non-trivial: the link is implemented for that parameter"""
    from wafo.stats.estimation import LINKS
    name, par, i = c['name'], list(c['par']), c['i']
    check(name in LINKS, 'no link for %s' % name)
    d = TR if name == 'truncrayleigh' else getattr(ss, name)
    if name == 'truncrayleigh':
        x = par[1] + par[2] * (np.sqrt(par[0] ** 2 - 2 * np.log(c['q'])) - par[0])
    else:
        x = float(d.isf(c['q'], *par))
    logsf = np.log(c['q'])
    z = (x - par[-2]) / par[-1]
    if i >= len(par):
        raises(lambda: LINKS[name](x, logsf, par, i), 'index of a parameter that does not exist', IndexError)
        return None
    if i in NOT_IMPL.get(name, []):
        raises(lambda: LINKS[name](x, logsf, par, i), 'link that is not implemented', NotImplementedError)
        return None
    if i < len(par) - 2 and abs(np.log(abs(z) + 1e-300)) < 1e-3 or abs(z) < 1e-6:
        return None                              # the parameter does not matter there
    given_ = list(par)
    given_[i] = 1e9 if i < len(par) else 0       # the value of the parameter asked for must not matter
    v = float(LINKS[name](x, logsf, given_, i))
    check(np.isfinite(v), 'link returned %r for %s parameter %d' % (v, name, i), c)
    # condition number of the inversion by differences
    v2 = float(LINKS[name](x, logsf * (1 + 1e-7), given_, i))
    close(v, par[i], 1e-7, 1e-8 + 20 * 1e-6 * abs(v2 - v) / 1e-1, 'link of parameter %d of %s' % (i, name))
    return name + str(i)


# ------------------------------------------------------------------------------------------------------ profiles
PROF = dict(expon=[], rayleigh=[], weibull_min=[(1.2, 3.5)], gumbel_r=[])      # models with a regular likelihood


def std_isf(name, q, sh):
    if name == 'truncrayleigh':
        return np.sqrt(sh[0] ** 2 - 2 * np.log(q)) - sh[0]
    return float(getattr(ss, name).isf(q, *sh))


@st.composite
def prof_cases(draw):
    name = draw(st.sampled_from(sorted(PROF)))
    # (a free location near 0 makes the first simplex of Nelder-Mead, 5% of the start value, degenerate)
    locs = [3.0, -5.0, 8.0] if name == 'gumbel_r' else [0.0, 1.5, -2.0]
    return dict(name=name, shapes=[draw(fl(*r)) for r in PROF[name]], loc=draw(st.sampled_from(locs)),
                scale=draw(fl(0.5, 3)), n=draw(st.integers(30, 80)), seed=draw(seeds()),
                method=draw(st.sampled_from(['ml', 'mps'])), what=draw(st.sampled_from(['par', 'par', 'quantile', 'prob'])),
                which=draw(st.integers(0, 5)), alpha=draw(st.sampled_from([0.05, 0.1, 0.3])),
                q=draw(st.sampled_from([0.3, 0.1, 0.02])), npts=draw(st.sampled_from([60, 100])))


class OwnProfile(object):
    """Maximum over the other free parameters of the objective, computed with its own search."""

    def __init__(self, c, x, par, free):
        self.c, self.x, self.par, self.free = c, np.sort(x), np.array(par, float), list(free)
        self.ref = TR if c['name'] == 'truncrayleigh' else getattr(ss, c['name'])
        self.obj = neg_ll if c['method'] == 'ml' else neg_lps

    def value(self, p):
        if self.c['name'] == 'truncrayleigh' and p[0] < 0 or not p[-1] > 0:
            return np.inf
        return self.obj(self.ref, p, self.x)

    def search(self, make, idx, start):
        """max of -value(make(v)) over v (the parameters idx)"""
        if not idx:
            return -self.value(make(np.zeros(0)))
        f = lambda v: self.value(make(v))
        best = np.inf
        for s in start:
            r = optimize.minimize(f, s, method='Nelder-Mead', options=dict(xatol=1e-7, fatol=1e-9, maxiter=500))
            best = min(best, r.fun)
        return -best

    def parameter(self, i, value):
        idx = [k for k in self.free if k != i]

        def make(v):
            p = self.par.copy()
            p[i] = value
            p[idx] = v
            return p
        return self.search(make, idx, [self.par[idx]])

    def constrained(self, xq, q):
        """maximum subject to sf(xq) = q, the scale being eliminated"""
        idx = [k for k in self.free if k != self.par.size - 1]

        def make(v):
            p = self.par.copy()
            p[idx] = v
            if self.c['name'] == 'truncrayleigh' and p[0] < 0:
                return np.append(p[:-1], -1.0)
            z = std_isf(self.c['name'], q, p[:-2])
            p[-1] = (xq - p[-2]) / z if z != 0 else -1
            return p
        return self.search(make, idx, [self.par[idx], self.par[idx] * 0.8 - 0.05, self.par[idx] * 1.2 + 0.05])


@sub('C17', prof_cases(), quick=120, shards=6)
def profiles(c):
    """non-trivial: the profile encloses the estimate and both bounds were found"""
    name = c['name']
    true = c['shapes'] + [c['loc'], c['scale']]
    u = rs(c['seed']).uniform(0.001, 0.999, c['n'])
    if name == 'truncrayleigh':
        x = c['loc'] + c['scale'] * (np.sqrt(c['shapes'][0] ** 2 - 2 * np.log(u)) - c['shapes'][0])
    else:
        x = getattr(ss, name).ppf(u, *true)
    kw = {} if name == 'gumbel_r' else dict(floc=c['loc'])
    d = getattr(W(), name)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        phat = d.fit2(x, *c['shapes'], loc=c['loc'], scale=c['scale'], method=c['method'], **kw)
        par = np.array(phat.par, float)
        nonloc = list(range(len(par) - 2)) + [len(par) - 1]
        free = list(range(len(par))) if name == 'gumbel_r' else nonloc
        if name == 'truncrayleigh' and not 0.05 < par[0] < 15:
            return None
        own = OwnProfile(c, x, par, free)
        top = own.search(lambda v: np.where(np.isin(np.arange(par.size), free), np.put_along_axis(
            p_ := par.copy(), np.array(free), v, 0) or p_, par), free, [par[free]])
        if top > -own.value(par) + 0.02:
            return None                                # the fit itself is not converged
        allowed = [k for k in free if not (name == 'genpareto' and k == 0 and c['what'] != 'par')]
        i = allowed[c['which'] % len(allowed)]
        if c['what'] == 'par':
            pr = phat.profile(i=i, alpha=c['alpha'], n=c['npts'])
            opt, mine = par[i], lambda v: own.parameter(i, v)
        elif c['what'] == 'quantile':
            opt = float(phat.isf(c['q']))
            pr = phat.profile_quantile(opt, i=i, alpha=c['alpha'], n=c['npts'])
            mine = lambda v: own.constrained(v, c['q'])
        else:
            opt = np.log(c['q'])
            xq = float(phat.isf(c['q']))
            pr = phat.profile_probability(opt, i=i, alpha=c['alpha'], n=c['npts'])
            mine = lambda v: own.constrained(xq, np.exp(v))
        args, data = finite(pr.args, 'arguments'), finite(pr.data, 'profile')
        check(args.shape == data.shape and args.ndim == 1, 'shapes', args.shape, data.shape)
        check(np.all(np.diff(args) > 0), 'arguments are not increasing')
        check(args[0] < opt < args[-1] or name == 'truncrayleigh', 'the profile does not enclose the estimate', args[0], opt, args[-1])
        close(pr.profile_max, top, 0, 0.02, 'maximum of the profile')
        check(np.all(data <= top + 0.005), 'the profile exceeds the maximum', data.max(), top)
        level = pr.profile_max - 0.5 * ss.chi2.isf(c['alpha'], 1)
        close(pr.alpha_cross_level, level, 0, 0.03, 'level of the confidence interval')
        near = np.flatnonzero(data > level - 1)
        for k in rs(c['seed'] + 3).choice(near, min(4, near.size), replace=False):
            m = mine(args[k])
            close(data[k], m, 1e-7, 0.03, 'profile at %g' % args[k])
        if not (data[0] < level and data[-1] < level):
            return None
        lo, hi = [float(v) for v in pr.get_bounds(alpha=c['alpha'])]
        check(lo < opt < hi, 'the interval %r does not contain the estimate %g' % ((lo, hi), opt))
        if c['what'] == 'prob' and hi > -1e-3:
            return None
        j = np.searchsorted(args, [lo, hi])
        for b, jj in zip((lo, hi), j):
            jj = min(max(jj, 1), args.size - 1)
            curve = abs(data[jj] - data[jj - 1])
            close(mine(b), level, 0, 0.03 + 0.15 * curve, 'profile at the confidence bound %g' % b)
        if c['alpha'] < 0.3:
            a, b = [float(v) for v in pr.get_bounds(alpha=0.5)]
            check(lo <= a <= opt <= b <= hi, 'intervals are not nested', (lo, a, opt, b, hi))
    return name + ' ' + c['what'] + ' ' + c['method']


@sub('C17', prof_cases(), quick=30, shards=4)
def intervals(c):
    """non-trivial: finite intervals were returned"""
    if c['name'] in ('gumbel_r', 'expon', 'rayleigh', 'truncrayleigh'):
        c = dict(c, name='weibull_min', shapes=[2.0])
    name = c['name']
    u = rs(c['seed']).uniform(0.001, 0.999, c['n'])
    x = getattr(ss, name).ppf(u, *(c['shapes'] + [c['loc'], c['scale']]))
    d = getattr(W(), name)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        phat = d.fit2(x, *c['shapes'], scale=c['scale'], floc=c['loc'], method=c['method'])
        q = [0.3, 0.05]
        ci = arr(phat.ci_sf(q, alpha=c['alpha'], i=2))
        cq = arr(phat.ci_quantile(phat.isf(q), alpha=c['alpha'], i=2))
        raises(lambda: phat.profile(i=1), 'profile of the fixed parameter', IndexError)
        check(ci.shape == (2, 2) and cq.shape == (2, 2), 'shapes', ci.shape, cq.shape)
        for k in range(2):
            one = phat.profile_probability(np.log(q[k]), i=2)
            close(ci[k], np.exp(one.get_bounds(alpha=c['alpha'])), 1e-9, 1e-12, 'ci_sf')
            two = phat.profile_quantile(phat.isf(q[k]), i=2)
            close(cq[k], two.get_bounds(alpha=c['alpha']), 1e-9, 1e-12, 'ci_quantile')
            if np.all(np.isfinite(ci[k])):
                check(ci[k, 0] < q[k] < ci[k, 1], 'ci_sf does not contain the probability', ci[k], q[k])
            if np.all(np.isfinite(cq[k])):
                check(cq[k, 0] < phat.isf(q[k]) < cq[k, 1], 'ci_quantile does not contain the quantile', cq[k])
    return bool(np.all(np.isfinite(ci)))
