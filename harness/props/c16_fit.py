"""C16: maximum likelihood and maximum product spacing fits (fit2 / FitDistribution / fit1)."""
import numpy as np
from hypothesis import strategies as st
from scipy import optimize
import scipy.stats as ss

from core import sub, check, close, same, arr, raises, unchanged, finite
from gens import fl, seeds, nice, rs


def W():
    import wafo.stats as ws
    return ws


class TR(object):
    """truncated Rayleigh written out (the other references are scipy's own objects)."""
    @staticmethod
    def logpdf(x, c, loc=0, scale=1):
        z = (x - loc) / scale
        with np.errstate(all='ignore'):
            return np.where(z > 0, np.log(z + c) - z * (z + 2 * c) / 2 - np.log(scale), -np.inf)

    @staticmethod
    def pdf(x, *a):
        return np.exp(TR.logpdf(x, *a))

    @staticmethod
    def cdf(x, c, loc=0, scale=1):
        z = np.maximum((x - loc) / scale, 0)
        return -np.expm1(-z * (z + 2 * c) / 2)


# name -> (ranges of the shapes, names of the shapes, may loc be free with ML)
MODELS = dict(norm=([], [], True), gumbel_r=([], [], True), logistic=([], [], True), expon=([], [], False),
              rayleigh=([], [], False), weibull_min=([(1.1, 4)], ['c'], False), genpareto=([(-0.15, 0.3)], ['c'], False),
              genextreme=([(-0.2, 0.2)], ['c'], True), gamma=([(1.2, 6)], ['a'], False),
              lognorm=([(0.2, 1)], ['s'], False), truncrayleigh=([(0.3, 2)], ['c'], False))


def ref_dist(name):
    return TR if name == 'truncrayleigh' else getattr(ss, name)


@st.composite
def fits(draw):
    name = draw(st.sampled_from(sorted(MODELS)))
    ranges, names, loc_free = MODELS[name]
    method = draw(st.sampled_from(['ml', 'mps', 'ML', 'MPS']))
    npar = len(ranges) + 2
    fix = [draw(st.integers(0, 3)) == 0 for _ in range(npar)]
    if not loc_free:
        fix[-2] = True
    if all(fix):
        fix[-1] = False
    return dict(name=name, shapes=[draw(fl(*r)) for r in ranges], loc=draw(nice(-3, 3)), scale=draw(fl(0.4, 4)),
                n=draw(st.integers(20, 90)), seed=draw(seeds()), method=method, fix=fix,
                spell=draw(st.sampled_from(['f0', 'fname', 'fix_name'])),
                digits=draw(st.sampled_from([None, None, None, 1, 2])), alpha=draw(st.sampled_from([0.05, 0.1, 0.3])))


def make(c):
    """data, true parameters and keywords"""
    ref = ref_dist(c['name'])
    true = c['shapes'] + [c['loc'], c['scale']]
    u = rs(c['seed']).uniform(1e-3, 1 - 1e-3, c['n'])
    if c['name'] == 'truncrayleigh':
        cc = c['shapes'][0]
        x = c['loc'] + c['scale'] * (np.sqrt(cc * cc - 2 * np.log1p(-u)) - cc)
    else:
        x = ref.ppf(u, *true)
    if c['digits']:
        x = np.round(x, c['digits'])
        x = x[x > c['loc'] + 0.5 * 10.0 ** -c['digits']] if not MODELS[c['name']][2] else x
    kw = {}
    names = MODELS[c['name']][1]
    for i, f in enumerate(c['fix']):
        if not f:
            continue
        if i < len(names):
            key = {'f0': 'f%d' % i, 'fname': 'f' + names[i], 'fix_name': 'fix_' + names[i]}[c['spell']]
        else:
            key = ['floc', 'fscale'][i - len(names)]
        kw[key] = true[i]
    return x, true, kw


def neg_ll(ref, par, x):
    with np.errstate(all='ignore'):
        v = -np.sum(ref.logpdf(x, *par)) if par[-1] > 0 else np.inf
    return v if np.isfinite(v) else np.inf


def neg_lps(ref, par, x):
    """x sorted.  Tied values take the density instead of the zero spacing (Cheng and Amin)."""
    if par[-1] <= 0:
        return np.inf
    with np.errstate(all='ignore'):
        d = np.diff(np.r_[0.0, ref.cdf(x, *par), 1.0])
        l = np.log(d)
        tie = np.flatnonzero(np.diff(x) == 0)
        l[tie + 1] = ref.logpdf(x[tie], *par)
        v = -np.sum(l)
    return v if np.isfinite(v) else np.inf


@sub('C16', fits(), quick=300, shards=4)
def estimates(c):
    """non-trivial: at least two free parameters or ties"""
    x, true, kw = make(c)
    if x.size < 15 or np.ptp(x) < 0.2 * c['scale']:
        return None
    ref = ref_dist(c['name'])
    d = getattr(W(), c['name'])
    with unchanged('data', x):
        p = d.fit2(x, method=c['method'], alpha=c['alpha'], **kw)
    par = finite(p.par, 'parameters')
    check(par.shape == (len(true),), 'number of parameters', par)
    fix = np.array(c['fix'])
    same(par[fix], np.array(true)[fix], 'fixed parameters')
    if fix.any():
        pf = arr(p.par_fix)
        check(np.array_equal(np.isfinite(pf), fix), 'par_fix', p.par_fix)
        same(pf[fix], np.array(true)[fix], 'par_fix')
        same(p.i_fixed, np.flatnonzero(fix), 'i_fixed')
        same(p.i_notfixed, np.flatnonzero(~fix), 'i_notfixed')
    xs = np.sort(x)
    same(p.data, xs, 'data of the fit')
    mps = c['method'].lower() == 'mps'
    obj = neg_lps if mps else neg_ll
    ll, lps = -neg_ll(ref, par, xs), -neg_lps(ref, par, xs)
    if not (np.isfinite(ll) and np.isfinite(lps)):
        return None
    rnd = 1e-8 + (1e-15 * xs.size * par[0] ** 2 if c['name'] == 'truncrayleigh' else 0)
    close(p.LLmax, ll, 1e-9, rnd, 'LLmax')
    if np.min(np.diff(xs)[np.diff(xs) > 0]) > 1e-6 * c['scale']:
        close(p.LPSmax, lps, 1e-8, 1e3 * rnd, 'LPSmax')
    close(p.fitfun(par), obj(ref, par, xs), 1e-8, rnd * (1 if not mps else 1e3), 'fitfun')
    # optimum
    free = np.flatnonzero(~fix)

    def F(v):
        q = par.copy()
        q[free] = v
        if c['name'] == 'truncrayleigh' and q[0] < 0:
            return np.inf
        return obj(ref, q, xs)
    f0 = obj(ref, par, xs)
    best = optimize.minimize(F, par[free], method='Nelder-Mead',
                             options=dict(xatol=1e-6, fatol=1e-8, maxiter=600)).fun
    best = min(best, obj(ref, np.array(true), xs))
    check(f0 <= best + 0.1, 'the estimate is not the optimum: %.6g > %.6g' % (f0, best), par)
    if c['name'] == 'truncrayleigh' and par[0] > 30:
        return None                   # (x+c)**2 - c**2 loses all its digits
    # permutation of the data and input type
    q = d.fit2(list(x[rs(c['seed'] + 1).permutation(x.size)]), method=c['method'], **kw)
    close(q.par, par, 5e-3, 5e-3, 'parameters from the data in another order')
    # frozen distribution
    close(p.cdf(xs), ref.cdf(xs, *par), 1e-9, 1e-12, 'cdf of the fitted distribution')
    close(p.pdf(xs), ref.pdf(xs, *par), 1e-9, 1e-12, 'pdf of the fitted distribution')
    # Moran's p-value
    n1 = xs.size + 1.0
    k = free.size
    m = n1 * (np.log(n1) + np.euler_gamma) - 0.5 - 1 / (12 * n1)
    s2 = n1 * (np.pi ** 2 / 6 - 1) - 0.5 - 1 / (6 * n1)
    c1, c2 = m - np.sqrt(0.5 * xs.size * s2), np.sqrt(s2 / 2 / xs.size)
    close(p.pvalue, ss.chi2.sf((-lps + k / 2.0 - c1) / c2, xs.size), 1e-3, 1e-3, 'p-value')
    # standard errors
    cov = arr(p.par_cov)
    check(cov.shape == (par.size, par.size), 'shape of par_cov')
    same(cov[fix], np.zeros((fix.sum(), par.size)), 'covariance of fixed parameters')
    same(cov[:, fix], np.zeros((par.size, fix.sum())), 'covariance of fixed parameters')
    h = 1e-3 * np.maximum(np.sqrt(np.maximum(np.diag(cov)[free], 1e-6)), 0.02)
    v0 = par[free]
    H = np.zeros((free.size, free.size))
    for i in range(free.size):
        for j in range(i + 1):
            ei, ej = np.eye(free.size)[i] * h * 4, np.eye(free.size)[j] * h * 4
            H[i, j] = H[j, i] = (F(v0 + ei + ej) - F(v0 + ei - ej) - F(v0 - ei + ej) + F(v0 - ei - ej)) / (
                4 * np.abs(ei).sum() * np.abs(ej).sum())
    ok = np.all(np.isfinite(H)) and np.all(np.linalg.eigvalsh(H / np.sqrt(np.outer(np.diag(H), np.diag(H)))) > 0.02) \
        if np.all(np.diag(H) > 0) else False
    if ok:
        inv = np.linalg.inv(H)
        sd = np.sqrt(np.diag(inv))
        if np.all(sd < 3) and np.all(par[-1] > 4 * h.max()):
            close(cov[np.ix_(free, free)], inv, 0.03, 0.03 * np.outer(sd, sd), 'covariance of the estimates')
            z = ss.norm.isf(c['alpha'] / 2)
            close(p.par_lower[free], v0 - z * np.sqrt(np.diag(cov)[free]), 1e-9, 1e-9, 'lower confidence bounds')
            close(p.par_upper[free], v0 + z * np.sqrt(np.diag(cov)[free]), 1e-9, 1e-9, 'upper confidence bounds')
    return (free.size >= 2 or bool(c['digits'])) and c['name'] + ' ' + c['method'].lower()


@sub('C16', fits(), quick=160, shards=2)
def start_and_fit1(c):
    """non-trivial: some parameter is fixed"""
    x, true, kw = make(c)
    if x.size < 15 or np.ptp(x) < 0.2 * c['scale']:
        return None
    d = getattr(W(), c['name'])
    ref = ref_dist(c['name'])
    mps = c['method'].lower() == 'mps'
    obj = neg_lps if mps else neg_ll
    fix = np.array(c['fix'])
    # search=False returns the given start values, fixed ones replaced
    s = [v * 1.1 + 0.01 for v in true]
    q = d.fit2(x, *s[:-2], loc=s[-2], scale=s[-1], search=False, method=c['method'], **kw)
    same(q.par, np.where(fix, true, s), 'parameters without search')
    # fit1: the parameters only, any order of the data
    with unchanged('data', x):
        v = d.fit1(x, *c['shapes'], loc=c['loc'], scale=c['scale'], method=c['method'], **kw)
    check(isinstance(v, tuple) and len(v) == len(true), 'fit1', v)
    v = arr(v)
    same(v[fix], np.array(true)[fix], 'fixed parameters of fit1')
    xs = np.sort(x)
    p = d.fit2(x, *c['shapes'], loc=c['loc'], scale=c['scale'], method=c['method'], **kw)
    close(v, p.par, 5e-3, 5e-3, 'fit1 and fit2 from the same start')
    check(obj(ref, v, xs) <= obj(ref, true, xs) + 1e-6, 'fit1 is worse than its start')
    # refitting keeps the method
    kw2 = {k: kw[k] for k in kw}
    p.fit(*c['shapes'], loc=c['loc'], scale=c['scale'], **kw2)
    close(p.par, v, 5e-3, 5e-3, 'refitted parameters')
    close(p.LLmax, -neg_ll(ref, p.par, xs), 1e-9, 1e-8, 'LLmax after refitting')
    # copydata=False sorts in place, copydata=True does not
    y = x[rs(c['seed'] + 2).permutation(x.size)].copy()
    r = d.fit2(y, *c['shapes'], loc=c['loc'], scale=c['scale'], method=c['method'], copydata=False, **kw)
    same(y, xs, 'data with copydata=False')
    close(r.par, v, 5e-3, 5e-3, 'parameters with copydata=False')
    # everything fixed, unknown keywords and too many start values are rejected
    full = {'f%d' % i: t for i, t in enumerate(c['shapes'])}
    full.update(floc=c['loc'], fscale=c['scale'])
    raises(lambda: d.fit2(x, **full), 'all parameters fixed', ValueError)
    raises(lambda: d.fit2(x, nosuch=1), 'unknown keyword', TypeError)
    raises(lambda: d.fit1(x, *([1.0] * (len(true) + 1))), 'too many start values', TypeError)
    if MODELS[c['name']][1]:
        nm = MODELS[c['name']][1][0]
        raises(lambda: d.fit2(x, **{'f0': 1.0, 'f' + nm: 1.0}), 'a shape fixed twice', ValueError)
    return bool(fix.any()) and c['method'].lower()


@sub('C16', st.tuples(fits(), nice(-5, 5), fl(0.3, 3)), quick=120, shards=2)
def equivariance(t):
    """non-trivial: two or more free parameters.  Shifting and scaling the data shifts and scales the fit."""
    c, b, a = t
    if any(abs(v) < 0.03 for v in c['shapes']):
        return None
    c = dict(c, digits=None, fix=[False] * len(c['shapes']) + [not MODELS[c['name']][2], False])
    x, true, kw = make(c)
    d = getattr(W(), c['name'])
    away = lambda v: v if abs(v) > 0.1 else 0.1      # the simplex of fmin degenerates for a tiny start value
    p = d.fit2(x, *c['shapes'], loc=away(c['loc']), scale=c['scale'], method=c['method'], **kw)
    kw2 = {k: v for k, v in kw.items()}
    if 'floc' in kw2:
        kw2['floc'] = b + a * kw2['floc']
    q = d.fit2(b + a * x, *c['shapes'], loc=away(b + a * c['loc']), scale=a * c['scale'], method=c['method'], **kw2)
    if c['method'].lower() == 'mps':
        close(q.LPSmax, p.LPSmax, 1e-4, 0.02, 'LPSmax of the scaled data')
    else:
        close(q.LLmax, p.LLmax - x.size * np.log(a), 1e-4, 0.02, 'LLmax of the scaled data')
    sd = np.sqrt(np.maximum(np.diag(p.par_cov), 0))
    if np.all(np.isfinite(sd)) and np.all(sd < 1):
        want = np.array(p.par)
        want[-2:] = [b + a * p.par[-2], a * p.par[-1]]
        tol = 0.05 * sd + 1e-3
        tol[-2:] *= a
        if c['name'] not in ('truncrayleigh',):
            close(q.par, want, 0, tol + 2e-3, 'parameters of the scaled data')
    return len(true) - sum(c['fix']) >= 2 and c['name']
