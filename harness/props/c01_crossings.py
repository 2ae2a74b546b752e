"""C01 level crossings and their selection."""
import numpy as np
from hypothesis import strategies as st

import wafo.misc as wm
from core import sub, check, close, same, arr, fail, unchanged, raises
from gens import signals, fl, q20
import refs_load as R

KINDS = [None, 'du', 'all', 'u', 'd', 'dw', 'uw', 'tw', 'cw']


@st.composite
def cases(draw):
    x = draw(signals(1, 60, raw=True))
    v = draw(st.one_of(st.sampled_from([0.0, 0.5, -1.0, 1.0]), st.sampled_from(x), fl(-5, 5)))
    return {'x': x, 'v': v}


@sub('C01', cases(), quick=2500, shards=2)
def findcross_is_definition(case):
    """crossing indices == reference for every kind and implementation; non-trivial: at least 2 crossings"""
    x, v = case['x'], case['v']
    xa = np.array(x)
    want = R.cross(x, v)
    with unchanged('findcross', xa):
        for m in ('clib', 'numba', None):
            for kind in KINDS:
                got = wm.findcross(xa, v, kind, m) if m else wm.findcross(x, v, kind)
                got = arr(got, 'findcross')
                same(got, np.array(R.cross_kind(x, v, kind), dtype=int),
                     'findcross(kind=%r, method=%r)' % (kind, m))
                check(got.dtype.kind in 'iu', 'crossing indices are not integers: %s', got.dtype)
    if any(a == v for a in x) and len(want) > 1:
        return 'touches-level'
    return 'crossings' if len(want) > 1 else None


@sub('C01', cases(), quick=800)
def findcross_symmetry(case):
    """negating signal and level keeps the indices and swaps up and down; a prefix only loses late crossings"""
    x, v = np.array(case['x']), case['v']
    ind = arr(wm.findcross(x, v))
    same(wm.findcross(-x, -v), ind, 'findcross(-x,-v)')
    same(wm.findcross(-x, -v, 'u'), wm.findcross(x, v, 'd'), 'up of -x == down of x')
    same(wm.findcross(-x, -v, 'tw'), wm.findcross(x, v, 'cw'), 'trough waves of -x == crest waves of x')
    same(wm.findcross(-x, -v, 'dw'), wm.findcross(x, v, 'uw'), 'down waves of -x == up waves of x')
    u, d = arr(wm.findcross(x, v, 'u')), arr(wm.findcross(x, v, 'd'))
    same(np.sort(np.r_[u, d]), ind, 'up and down crossings together')
    check(abs(len(u) - len(d)) <= 1, 'up/down crossings do not alternate')
    k = len(x) // 2 + 1
    same(wm.findcross(x[:k], v), ind[ind < k - 1], 'crossings of a prefix')
    return 'many' if len(ind) > 3 else ('some' if len(ind) > 0 else None)


@st.composite
def xcases(draw):
    x = draw(signals(2, 40))
    v = draw(st.one_of(st.sampled_from([0.0, 0.25]), st.sampled_from(x), fl(-3, 3)))
    dt = draw(st.lists(fl(0.01, 5), min_size=len(x), max_size=len(x)))
    return {'x': x, 'v': v, 'dt': dt, 't0': draw(fl(-100, 100))}


@sub('C01', xcases(), quick=1200)
def ecross_is_linear_interpolation(case):
    """exact crossing times lie in their sample interval and the interpolated signal equals the level there"""
    x, v = np.array(case['x']), case['v']
    t = case['t0'] + np.cumsum(case['dt'])
    ind = np.asarray(R.cross(case['x'], v), dtype=int)
    if len(ind) == 0:
        return None
    got = arr(wm.ecross(t, x, ind, v), 'ecross')
    check(got.shape == ind.shape, 'ecross: one time per crossing expected')
    want = np.array([t[i] + (v - x[i]) * (t[i + 1] - t[i]) / (x[i + 1] - x[i]) for i in ind])
    close(got, want, 1e-10, 1e-9, 'crossing time')
    tol = 1e-9 * (1 + np.abs(t[ind]))
    check(np.all(got >= t[ind] - tol) and np.all(got <= t[ind + 1] + tol), 'crossing time outside its interval')
    vv = np.full(len(ind), v)
    close(wm.ecross(t, x, ind, vv), got, 1e-12, 0, 'vector level')
    return 'irregular'


@sub('C01', st.tuples(signals(2, 20), st.sampled_from(['x', 'up', 'D', 'wd', '', 'mw'])).map(list), quick=60)
def unknown_kind_rejected(case):
    """an unknown crossing definition is rejected, not silently treated as another one"""
    x, k = case
    if not R.cross(x, 0.0):
        return None
    raises(lambda: wm.findcross(x, 0.0, k), 'findcross kind=%r' % k, (ValueError,))
    return True
