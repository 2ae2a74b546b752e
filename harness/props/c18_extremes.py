"""C18: empirical distributions, threshold diagnostics, declustering, return periods."""
import warnings

import numpy as np
from hypothesis import strategies as st
import scipy.stats as ss

from core import sub, check, close, same, arr, raises, unchanged, finite, fail
from gens import fl, seeds, nice, rs


def S():
    import wafo.stats as ws
    return ws


def values(min_size=1, max_size=40):
    return st.one_of(st.lists(st.integers(-4, 6).map(float), min_size=min_size, max_size=max_size),
                     st.lists(fl(-10, 10), min_size=min_size, max_size=max_size),
                     st.lists(st.integers(-20, 40).map(lambda v: v / 4), min_size=min_size, max_size=max_size))


@sub('C18', st.fixed_dictionaries(dict(x=values(), method=st.sampled_from([1, 2, 3]), c=st.one_of(st.none(), nice(-11, 11)),
                                       k=st.integers(0, 50), kind=st.sampled_from(['array', 'list']))), quick=400)
def empirical(c):
    """non-trivial: more than one value and the condition keeps some but not all"""
    x = np.array(c['x'])
    given = x if c['kind'] == 'array' else x.tolist()
    m = c['method']

    def want(v):
        v = np.sort(v)
        k = np.arange(1, v.size + 1)
        return v, {1: (k - 0.5) / v.size, 2: k / (v.size + 1.0), 3: k / float(max(v.size, 1))}[m]
    with unchanged('edf', x):
        F = S().edf(given, method=m)
    z, p = want(x)
    same(F.args, z, 'abscissas of edf')
    close(F.data, p, 1e-14, 0, 'edf')
    if m == 2:
        close(S().edf(given).data, p, 1e-14, 0, 'edf, default method')
    cut = c['c']
    if cut is not None and c['k'] % 2:
        cut = float(x[c['k'] % x.size])                    # ties with the data
    with unchanged('edfcnd', x):
        G = S().edfcnd(given, c=cut, method=m)
    keep = x if cut is None else x[x >= cut]
    z, p = want(keep)
    same(G.args, z, 'abscissas of edfcnd')
    close(G.data, p, 1e-14, 0, 'edfcnd')
    return x.size > 1 and 0 < keep.size < x.size


@st.composite
def thresholds(draw):
    n = draw(st.integers(6, 60))
    nmin = draw(st.integers(0, 4))
    return dict(x=draw(values(n, n)), nmin=nmin, nu=draw(st.one_of(st.none(), st.integers(2, 12))),
                umin=draw(st.one_of(st.none(), nice(-12, 6))), umax=draw(st.one_of(st.none(), nice(-6, 12))),
                u=draw(st.one_of(st.none(), st.lists(nice(-12, 12), min_size=1, max_size=8))),
                kind=draw(st.sampled_from(['array', 'list'])), alpha=draw(st.sampled_from([0.05, 0.1, 0.5])),
                tb=draw(st.sampled_from([1, 2, 3.5, 10])), dt=draw(st.sampled_from([None, 0.5, 1.0, 'uneven', 'unsorted'])),
                seed=draw(seeds()))


def own_u(c, x):
    if c['u'] is not None:
        return np.array(c['u'])
    nmin = max(c['nmin'], 1)
    s = np.sort(x)
    hi = s[-nmin] if c['umax'] is None else min(c['umax'], s[-nmin])
    lo = s[0] if c['umin'] is None else max(c['umin'], s[0])
    nu = min(x.size - nmin, 100) if c['nu'] is None else c['nu']
    return np.linspace(lo, hi, nu)


def kws(c):
    kw = dict(nmin=c['nmin'], alpha=c['alpha'])
    for k in ('nu', 'umin', 'umax', 'u'):
        if c[k] is not None:
            kw[k] = c[k]
    if c['u'] is not None and c['kind'] == 'array':
        kw['u'] = np.array(c['u'])
    return kw


@sub('C18', thresholds(), quick=400)
def mean_residual_life(c):
    """non-trivial: at least two thresholds with two or more exceedances"""
    x = np.array(c['x'])
    with warnings.catch_warnings(), unchanged('reslife', x):
        warnings.simplefilter('ignore')
        r = S().reslife(x if c['kind'] == 'array' else x.tolist(), **kws(c))
    u = own_u(c, x)
    close(r.args, u, 1e-14, 1e-13, 'thresholds')
    ci = arr(r.children[0].data, 'confidence limits')
    check(ci.shape == (u.size, 2), 'shape of the confidence limits', ci.shape)
    same(r.children[0].args, r.args, 'abscissas of the limits')
    num = arr(r.workspace['numdata'])
    good = 0
    for k, t in enumerate(np.asarray(r.args)):
        e = x[x > t] - t
        check(num[k] == e.size, 'number of exceedances', num[k], e.size)
        if e.size == 0:
            check(np.isnan(r.data[k]), 'mean excess without exceedances', r.data[k])
            continue
        close(r.data[k], e.mean(), 1e-12, 1e-13, 'mean excess over %g' % t)
        if e.size > 1:
            good += 1
            half = ss.t.isf(c['alpha'] / 2, e.size - 1) * e.std() / np.sqrt(e.size)
            close(ci[k], [e.mean() - half, e.mean() + half], 1e-9, 1e-9 * (1 + half), 'confidence limits at %g' % t)
    return good > 1


@sub('C18', thresholds(), quick=300)
def dispersion(c):
    """non-trivial: some, but not all, thresholds are consistent with a Poisson process"""
    x = np.array(c['x'])
    n = x.size
    r = rs(c['seed'])
    t = {None: None, 'uneven': np.cumsum(r.uniform(0.1, 3, n)), 'unsorted': r.permutation(n) * 0.7 + 3.0}.get(
        c['dt'], np.arange(n) * (c['dt'] if isinstance(c['dt'], float) else 1) + 5.0)
    kw = kws(c)
    with warnings.catch_warnings(), unchanged('dispersion_idx', x):
        warnings.simplefilter('ignore')
        if t is None:
            di, b, ok = S().dispersion_idx(x, tb=c['tb'], **kw)
        else:
            with unchanged('dispersion_idx', t):
                di, b, ok = S().dispersion_idx(x, t, tb=c['tb'], **kw)
    u = own_u(c, x)
    close(di.args, u, 1e-14, 1e-13, 'thresholds')
    tt = np.arange(n) if t is None else t - t.min()
    block = np.floor(tt / c['tb']).astype(int)
    M = block.max() + 1
    want = np.full(u.size, np.nan)
    for k, v in enumerate(np.asarray(di.args)):
        occ = np.bincount(block[x > v], minlength=M)
        if occ.sum():
            want[k] = occ.var() / occ.mean()
    close(di.data, want, 1e-10, 1e-12, 'dispersion index')
    if M < 2:
        return None
    lo, hi = ss.chi2.ppf([c['alpha'] / 2, 1 - c['alpha'] / 2], M - 1) / (M - 1)
    lim = arr(di.children[0].data)
    close(lim, np.tile([lo, hi], (u.size, 1)), 1e-7, 0, 'acceptance limits')
    if np.any(np.abs(want - lo) < 1e-9) or np.any(np.abs(want - hi) < 1e-9):
        return None
    w = np.flatnonzero((want > lo) & (want < hi))
    if w.size == 0:
        check(b is None and ok is None, 'a threshold is accepted although none is consistent', b, ok)
        return None
    same(ok, np.asarray(di.args)[w], 'accepted thresholds')
    check(np.any(np.asarray(ok) == b), 'chosen threshold is not one of the accepted ones', b, ok)
    mean = want[w].mean()
    if np.all(np.abs(want[w] - mean) > 1e-9):
        same(b, np.asarray(ok)[np.flatnonzero(want[w] > mean)[0]], 'chosen threshold')
    return w.size < u.size


@st.composite
def pots(draw):
    if draw(st.booleans()):                     # long records are expanded from a seed
        n = draw(st.integers(20, 120))
        r = rs(draw(seeds()))
        x = [float(v) for v in np.round(r.normal(0, 2, n), draw(st.integers(0, 2)))]
        gaps = [int(v) for v in r.choice([1, 1, 1, 2, 3, draw(st.integers(0, 20))], n)]
    else:
        x = draw(values(1, 45))
        gaps = draw(st.lists(st.integers(0, 6), min_size=len(x), max_size=len(x)))
    return dict(x=x, gaps=gaps,
                t=draw(st.sampled_from(['none', 'sorted', 'sorted', 'unsorted', 'frac'])), seed=draw(seeds()),
                thresh=draw(st.one_of(nice(-5, 5), st.integers(-5, 4))), tmin=draw(st.sampled_from([0, 1, 2, 3.5, 5, 12])),
                kind=draw(st.sampled_from(['array', 'list'])))


@sub('C18', pots(), quick=1200)
def peaks_over_threshold(c):
    """non-trivial: three or more clusters of which at least two have several exceedances"""
    x = np.array(c['x'])
    n = x.size
    t = np.arange(n) if c['t'] == 'none' else np.cumsum(c['gaps']) * (0.25 if c['t'] == 'frac' else 1.0)
    if c['t'] == 'unsorted':
        t = t[rs(c['seed']).permutation(n)]
    lst = c['kind'] == 'list'
    a = (x.tolist() if lst else x,) + (() if c['t'] == 'none' else (t.tolist() if lst else t,))
    with unchanged('findpot', x, t):
        ix = np.asarray(S().findpot(*a, thresh=c['thresh'], tmin=c['tmin']))
        ev, te = S().decluster(*a, thresh=c['thresh'], tmin=c['tmin'])
    check(ix.ndim == 1 and (ix.size == 0 or ix.dtype.kind in 'iu'), 'findpot returned %r' % (ix,))
    same(ev, x[ix], 'extremes')
    same(te, t[ix], 'times of the extremes')
    ex = np.flatnonzero(x > c['thresh'])
    check(np.all(np.isin(ix, ex)) and np.unique(ix).size == ix.size, 'not exceedances', ix, ex)
    check(np.all(np.diff(t[ix]) >= 0), 'peaks are not in order of time', ix)
    gap = np.diff(np.sort(t[ix]))
    check(np.all(gap > c['tmin']) if gap.size else True, 'peaks closer than tmin', ix, t[ix])
    for k in np.setdiff1d(ex, ix):
        near = ix[np.abs(t[ix] - t[k]) <= c['tmin']]
        check(near.size and np.any(x[near] >= x[k]), 'exceedance %d was dropped without a higher peak nearby' % k, ix)
    if ex.size == 0:
        check(ix.size == 0, 'peaks without exceedances')
        return None
    size = np.diff(np.flatnonzero(np.r_[True, np.diff(np.sort(t[ex])) > c['tmin'], True]))
    return size.size >= 3 and np.sum(size > 1) >= 2 and 'clusters'


@sub('C18', st.fixed_dictionaries(dict(
    t=st.one_of(st.lists(st.integers(0, 60), min_size=2, max_size=30, unique=True),
                st.lists(st.integers(0, 9), min_size=2, max_size=9, unique=True),
                st.lists(fl(0, 50), min_size=2, max_size=20)), kind=st.sampled_from(['array', 'list']))), quick=600)
def clustering(c):
    """non-trivial: extremal index strictly between 0 and 1"""
    t = np.array(c['t'])
    given = t if c['kind'] == 'array' else t.tolist()
    with unchanged('interexceedance_times', t):
        ti = S().interexceedance_times(given)
    s = sorted(c['t'])
    same(ti, np.array([b - a for a, b in zip(s[:-1], s[1:])]), 'interexceedance times')
    T = np.diff(np.sort(t)).astype(float)
    if T.max() <= 1:
        ei = 0.0
    else:
        num, den = (T.sum() ** 2, (T ** 2).sum()) if T.max() <= 2 else ((T - 1).sum() ** 2, ((T - 1) * (T - 2)).sum())
        if den <= 1e-9 * (1 + num):
            return None
        ei = min(1.0, 2 * num / (T.size * den))
    close(S().extremal_idx(ti), ei, 1e-9, 1e-12, 'extremal index')
    close(S().extremal_idx(list(ti)), ei, 1e-9, 1e-12, 'extremal index of a list')
    k = t.size * ei
    with unchanged('declustering_time', t):
        tc = S().declustering_time(given)
    if abs(k - round(k)) > 1e-9 or ei in (0.0, 1.0):
        want = np.sort(T)[::-1][min(int(np.floor(k)), T.size - 1)]
        close(tc, want, 1e-12, 0, 'declustering time')
    check(np.size(S().declustering_time([3])) == 0, 'declustering time of one value')
    return 0 < ei < 1


@sub('C18', st.fixed_dictionaries(dict(
    q=st.one_of(st.lists(st.one_of(nice(-0.2, 1.3), st.sampled_from([0.0, 1.0, 1e-9, 0.5])), min_size=1, max_size=6),
                nice(0, 1)),
    period=st.one_of(st.lists(st.integers(-2, 200), min_size=1, max_size=6), st.integers(1, 100), nice(-1, 100)),
    npu=st.one_of(st.integers(-1, 50), nice(0, 20), st.sampled_from([0, 1, 0.01])))), quick=500)
def return_periods(c):
    """non-trivial: a finite return period comes out"""
    q = np.array(c['q'], float)
    npu = c['npu']
    with np.errstate(all='ignore'):
        T = arr(S().sf2returnperiod(c['q'], npu))
        want = np.where((q < 0) | (q >= 1) | (npu < 0), np.nan, 1 / (npu * q))
        close(T, want, 1e-13, 0, 'return period')
        t = np.array(c['period'])
        p = arr(S().returnperiod2sf(c['period'], npu))
        want2 = np.where((npu <= 0) | (t * npu < 1), np.nan, 1.0 / (t * npu))
        close(p, want2, 1e-13, 0, 'exceedance probability')
        if npu > 0 and np.all((q > 1e-12) & (q < 1)):
            close(S().returnperiod2sf(T, npu), q, 1e-12, 0, 'round trip')
        if npu <= 0:
            return None
        col = np.array([[1.0], [2.0], [7.0]])
        close(S().sf2returnperiod(np.ravel(q), col), np.where((np.ravel(q) < 0) | (np.ravel(q) >= 1), np.nan,
                                                               1 / (np.ravel(q) * col)), 1e-13, 0, 'broadcast')
    return bool(np.any(np.isfinite(T)))
