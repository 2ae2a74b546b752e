"""C03 rainflow counting and filtering."""
import numpy as np
from hypothesis import strategies as st

import wafo.misc as wm
import wafo.objects as wo
from core import sub, check, close, same, arr, fail, unchanged, raises
from gens import signals, fl, q20
import refs_load as R


def alternating(x):
    """strictly alternating turning points from any signal"""
    out = []
    for v in x:
        if out and v == out[-1]:
            continue
        if len(out) >= 2 and (out[-1] - out[-2]) * (v - out[-1]) > 0:
            out[-1] = v
        else:
            out.append(v)
    return out


@st.composite
def tps(draw, min_tp=2, max_size=60):
    kind = draw(st.sampled_from(['sig', 'ranges', 'ranges', 'ints']))
    if kind == 'sig':
        x = alternating(draw(signals(min_tp + 1, max_size)))
    elif kind == 'ints':
        x = alternating([float(v) for v in draw(st.lists(st.integers(-3, 3), min_size=min_tp, max_size=max_size))])
    else:
        r = draw(st.lists(st.integers(1, 9), min_size=min_tp, max_size=max_size))
        s = draw(st.sampled_from([1, -1]))
        x, v = [0.0], 0.0
        for k in r:
            v += s * 0.5 * k
            s = -s
            x.append(v)
    while len(x) < min_tp:
        x = x + [x[-1] + (1.0 if len(x) < 2 or x[-1] < x[-2] else -1.0)]
    return x


def thresholds():
    return st.sampled_from([0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 4.5]) | fl(0, 5).map(q20)


@sub('C03', st.fixed_dictionaries({'tp': tps(), 'h': thresholds()}), quick=3000, shards=2)
def findrfc_is_definition(case):
    """indices kept by findrfc == extremes of Rychlik's rainflow cycles with range >= h, compiled and Python alike"""
    tp, h = case['tp'], case['h']
    a = np.array(tp)
    if len(a) < 2:
        return None
    want = np.array(R.rfc_filter_indices(tp, h), dtype=int) if len(a) - int(a[0] > a[1]) >= 2 else np.zeros(0, int)
    for m in ('clib', 'python', 2):
        with unchanged('findrfc', a):
            got = arr(wm.findrfc(a, h, m), 'findrfc')
        same(got, want, 'findrfc(h=%g, method=%r)' % (h, m))
    check(len(np.unique(want)) == len(want), 'rainflow cycles share a turning point: %s', want.tolist())
    if len(want) and len(want) < len(a):
        return 'removed-some'
    return len(want) > 2 and 'kept'


@sub('C03', st.fixed_dictionaries({'tp': tps(3), 'h': thresholds()}), quick=1500)
def rainflow_filter_objects(case):
    """TurningPoints.rainflow_filter / cycle_pairs(h) keep values and times of exactly the cycles with range >= h"""
    tp, h = case['tp'], case['h']
    a = np.array(tp)
    t = 0.5 + 0.25 * np.arange(len(a))
    if len(a) - int(a[0] > a[1]) < 2:
        return None
    want = R.rfc_filter_indices(tp, h)
    o = wo.TurningPoints(a.copy(), t.copy(), mean=0.0, sigma=1.0)
    for m in ('clib', 'python'):
        f = o.rainflow_filter(h, m)
        same(f.data, a[want], 'filtered values')
        if len(want):
            same(f.args, t[want], 'filtered times')
    same(o.data, a, 'the filter modified its object')
    if len(want) >= 2 and h > 0:
        b = a[want]
        cp = o.cycle_pairs(h=h)
        i0 = int(b[0] > b[1])
        same(cp.args, b[i0:-1:2], 'minima of cycle pairs')
        same(cp.data, b[i0 + 1::2], 'maxima of cycle pairs')
        check(np.all(cp.data - cp.args >= h), 'a min-max pair smaller than h survived the rainflow filter')
        return 'filtered'
    return None


@sub('C03', st.fixed_dictionaries({'tp': signals(2, 60), 'h': thresholds(), 'm': st.sampled_from([0, 1])}),
     quick=2500)
def rfcfilter_is_definition(case):
    """rfcfilter == hysteresis filter with threshold h (0: keeps >= h, 1: keeps > h) for arbitrary signals"""
    x, h, m = case['tp'], case['h'], case['m']
    a = np.array(x)
    idx, ext, direction = R.zigzag(x, h, strict=(m == 1))
    with unchanged('rfcfilter', a):
        got = arr(wm.rfcfilter(a, h, m), 'rfcfilter')
        same(wm.rfcfilter(a, h, method=m), got, 'rfcfilter repeated')
    core = a[idx]
    last = abs(x[ext] - x[idx[-1]])
    if last > h:
        same(got, np.r_[core, x[ext]], 'rfcfilter(h=%g, method=%d)' % (h, m))
    elif last < h:
        same(got, core, 'rfcfilter(h=%g, method=%d)' % (h, m))
    else:       # a final range equal to the threshold may be kept or not
        check(np.array_equal(got, core) or np.array_equal(got, np.r_[core, x[ext]]),
              'rfcfilter: got %s expected %s(+%s)', got.tolist(), core.tolist(), x[ext])
    d = np.abs(np.diff(got[1:-1]))
    check(np.all(d > h) if m == 1 else np.all(d >= h), 'a range below the threshold survived: %s', got.tolist())
    if h > 0:
        same(wm.rfcfilter(-a, h, m), -got, 'mirror image')
    return len(got) > 3 and ('method%d' % m)


@sub('C03', st.fixed_dictionaries({'tp': tps(3), 'h': thresholds(), 'm': st.sampled_from([0, 1])}), quick=800)
def findrfc_method01(case):
    """findrfc with methods 0 and 1 selects the turning points of the hysteresis filtered sequence"""
    tp, h, m = case['tp'], case['h'], case['m']
    a = np.array(tp)
    t0 = int(a[0] > a[1])
    if len(a) - t0 < 3:
        return None
    x = tp[t0:]
    idx, ext, direction = R.zigzag(x, h, strict=(m == 1))
    got = arr(wm.findrfc(a, h, m), 'findrfc')
    last = abs(x[ext] - x[idx[-1]])
    c1 = np.array(idx) + t0
    c2 = np.array(idx + [ext]) + t0
    if last > h:
        same(got, c2, 'findrfc(method=%d)' % m)
    elif last < h:
        same(got, c1, 'findrfc(method=%d)' % m)
    else:
        check(np.array_equal(got, c1) or np.array_equal(got, c2), 'findrfc(method=%d): %s', m, got.tolist())
    return len(got) > 3


def _astm_key(rows):
    return sorted((round(r[0], 9), round(r[1], 9), r[2]) for r in rows)


@sub('C03', tps(2), quick=2000)
def astm_counting(case):
    """findrfc_astm == ASTM E1049 counting; ranges, means, half/full, and total variation is conserved"""
    a = np.array(case)
    if len(a) < 2:
        return None
    with unchanged('findrfc_astm', a):
        got = arr(wm.findrfc_astm(a), 'findrfc_astm')
    want = R.astm(case)
    check(got.ndim == 2 and got.shape[1] == 3, 'shape %s', got.shape)
    w = np.array([(r / 2, m, c) for r, m, c, _, _ in want]).reshape(-1, 3)
    close(got, w, 1e-12, 1e-12, 'ASTM cycles (amplitude, mean, count)')
    # every monotone branch belongs to exactly one (half) cycle: 2*range*count adds up to the total variation
    close(np.sum(2 * got[:, 0] * 2 * got[:, 2]), np.sum(np.abs(np.diff(a))), 1e-12, 1e-12, 'total variation')
    check(np.max(got[:, 0]) == (a.max() - a.min()) / 2, 'the largest cycle is not the range of the signal')
    same(wo.TurningPoints(a.copy(), np.arange(len(a)) + 1.0).cycle_astm(), got, 'TurningPoints.cycle_astm')
    g2 = arr(wm.findrfc_astm(-a))
    close(g2, got * np.array([1, -1, 1]), 1e-12, 1e-12, 'mirror image')
    return 'full' if np.any(got[:, 2] == 1.0) else (len(got) > 1 and 'half')


@sub('C03', st.fixed_dictionaries({'x': signals(4, 60), 'h': thresholds()}), quick=1200)
def rainflow_metamorphic(case):
    """shift, scale and linear refinement of a signal do not change its rainflow filter"""
    x, h = np.array(case['x']), case['h']
    i0 = wm.findtp(x, h)
    if i0 is None:
        return None
    v = x[i0]
    for c, s in ((3.0, 1.0), (-2.5, 4.0), (0.0, 0.5)):
        i1 = wm.findtp(x * s + c, h * s)
        same(i1, i0, 'findtp of shifted and scaled signal')
    mid = np.empty(2 * len(x) - 1)
    mid[::2] = x
    mid[1::2] = 0.5 * (x[:-1] + x[1:])
    i3 = wm.findtp(mid, h)
    same(mid[i3], v, 'turning point values of the linearly refined signal')
    return len(v) > 2 and ('h>0' if h > 0 else 'h=0')
