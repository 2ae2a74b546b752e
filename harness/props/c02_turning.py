"""C02 extrema, turning points, troughs/crests, peaks."""
import numpy as np
from hypothesis import strategies as st

import wafo.misc as wm
import wafo.objects as wo
from core import sub, check, close, same, arr, fail, unchanged, raises
from gens import signals, fl, q20
import refs_load as R


@sub('C02', signals(2, 60, raw=True), quick=1500)
def findextrema_is_definition(case):
    """extrema == slope sign changes, alternating min/max, signal monotone in between; non-trivial: >= 2 extrema"""
    x = np.array(case)
    want = R.extrema(case)
    with unchanged('findextrema', x):
        got = arr(wm.findextrema(x), 'findextrema')
    same(got, np.array(want, dtype=int), 'findextrema')
    same(wm.findextrema(-x), got, 'findextrema(-x)')
    same(wm.findextrema(2 * x), got, 'findextrema(2x)')
    return 'plateau' if np.any(np.diff(x) == 0) and len(want) > 1 else (len(want) > 1)


def ref_findtp(x, h, kind):
    if h < 0:
        return list(range(len(x)))
    ind = R.turning_points(x, kind)
    if ind is None:
        return None
    if h > 0:
        tp = [x[i] for i in ind]
        if kind == 'astm' and tp[0] == tp[1]:
            return 'undefined'      # leading plateau: no sequence of turning points
        ind = [ind[k] for k in R.rfc_filter_indices(tp, h)]
    if kind in ('mw', 'Mw'):
        if len(ind) == 0:
            return ind
        if (x[ind[0]] > x[ind[1]]) != (kind == 'Mw'):
            ind = ind[1:]
        if len(ind) % 2 != 1:
            ind = ind[:-1]
    return ind


@st.composite
def tp_cases(draw):
    x = draw(signals(3, 60))
    h = draw(st.sampled_from([0.0, 0.0, -1.0, 0.5, 1.0, 2.0, 3.0, 5.0]) | fl(0, 4).map(q20))
    return {'x': x, 'h': h, 'kind': draw(st.sampled_from([None, None, 'astm', 'mw', 'Mw']))}


@sub('C02', tp_cases(), quick=3000, shards=2)
def findtp_is_definition(case):
    """turning points (optionally rainflow filtered, optionally cut to whole waves) == definition, both methods"""
    x, h, kind = case['x'], case['h'], case['kind']
    want = ref_findtp(x, h, kind)
    if want == 'undefined':
        return None
    xa = np.array(x)
    for m in ('clib', 'python'):
        with unchanged('findtp', xa):
            got = wm.findtp(xa, h, kind, m)
        if want is None:
            check(got is None or len(got) == 0, 'findtp of a signal with < 2 extrema returned %s', got)
            continue
        check(got is not None, 'findtp returned None, expected %s', want)
        same(got, np.array(want, dtype=int), 'findtp(h=%g, kind=%r, method=%r)' % (h, kind, m))
    if want is None:
        return None
    v = xa[want]
    if h >= 0 and len(v) > 1 and kind != 'astm' and (h > 0 or x[0] != x[1]):    # (leading plateau)
        d = np.sign(np.diff(v))
        check(np.all(d[1:] == -d[:-1]) and np.all(d != 0), 'turning points do not alternate: %s', v.tolist())
    return 'h>0' if h > 0 and len(want) > 2 else (len(want) > 2 and str(kind))


@st.composite
def tc_cases(draw):
    x = draw(signals(4, 60))
    v = draw(st.one_of(st.none(), st.sampled_from([0.0, 0.5]), st.sampled_from(x), fl(-2, 2)))
    return {'x': x, 'v': v, 'kind': draw(st.sampled_from([None, 'dw', 'uw', 'tw', 'cw']))}


@sub('C02', tc_cases(), quick=2000)
def findtc_is_definition(case):
    """each trough/crest is the lowest/highest sample between two consecutive crossings; non-trivial: > 2 crossings"""
    x, v, kind = case['x'], case['v'], case['kind']
    lev = np.mean(x) if v is None else v
    xa = np.array(x)
    with unchanged('findtc', xa):
        tc, vi = wm.findtc(xa, v, kind)
    cr = R.cross_kind(x, lev, kind)
    if len(cr) <= 2:
        check(len(tc) == 0 and len(vi) == 0, 'findtc found waves where there are none')
        return None
    same(vi, np.array(cr, dtype=int), 'findtc crossings')
    want = []
    for a, b in zip(cr[:-1], cr[1:]):
        seg = xa[a + 1:b + 1]
        down = x[a + 1] < lev
        want.append(a + 1 + int(np.argmin(seg) if down else np.argmax(seg)))
    same(tc, np.array(want, dtype=int), 'findtc(v=%s, kind=%r)' % (v, kind))
    val = xa[want]
    s = np.sign(val - lev)
    check(np.all(s[1:] == -s[:-1]), 'troughs and crests do not alternate')
    return '%s-%s' % (kind, 'mean' if v is None else 'v')


@st.composite
def pk_cases(draw):
    x = draw(signals(3, 50))
    h = draw(st.sampled_from([None, 0.0, 0.5, 1.0, 2.0]) | fl(0, 4).map(q20))
    return {'x': x, 'n': draw(st.integers(1, 8)), 'h': h, 'p': draw(st.sampled_from([0.0, 0.0, 0.25, 0.5, 0.9]))}


@sub('C02', pk_cases(), quick=1500)
def findpeaks_is_definition(case):
    """the n highest maxima of the rainflow filtered signal, highest first, larger than min_p*max"""
    x, n, h, p = case['x'], case['n'], case['h'], case['p']
    xa = np.array(x)
    hh = 0.05 * (xa.max() - xa.min()) if h is None else h
    tp = ref_findtp(x, hh, None)
    maxima = tp[1::2] if tp else [int(np.argmax(xa))]
    with unchanged('findpeaks', xa):
        got = wm.findpeaks(xa, n, h, p)
    got = np.asarray(got, dtype=int).ravel()
    vals = sorted((x[i] for i in maxima), reverse=True)[:n]
    if p > 0:
        vals = [y for y in vals if y > p * xa.max()]
    check(set(got.tolist()) <= set(maxima), 'findpeaks returned %s, maxima are %s', got.tolist(), maxima)
    check(len(set(got.tolist())) == len(got), 'duplicate peaks %s', got.tolist())
    same(xa[got], np.array(vals), 'peak values')
    return 'filtered' if hh > 0 and len(vals) > 1 else (len(vals) > 1)


@st.composite
def pk2_cases(draw):
    r, c = draw(st.integers(2, 5)), draw(st.integers(3, 10))
    return {'x': draw(st.lists(st.lists(st.integers(-4, 9), min_size=c, max_size=c), min_size=r, max_size=r)),
            'n': draw(st.integers(1, 8))}


@sub('C02', pk2_cases(), quick=500)
def findpeaks_matrix(case):
    """for a matrix: linear indices of row maxima that also exceed the neighbouring rows, highest first"""
    x = np.array(case['x'], dtype=float)
    got = np.asarray(wm.findpeaks(x, case['n'], 0.0), dtype=int).ravel()
    want = []
    for r in range(x.shape[0]):
        tp = ref_findtp(x[r].tolist(), 0.0, None)
        ms = tp[1::2] if tp else [int(np.argmax(x[r]))]
        for m in ms:
            if (r == 0 or x[r, m] > x[r - 1, m]) and (r == x.shape[0] - 1 or x[r, m] > x[r + 1, m]):
                want.append(r * x.shape[1] + m)
    vals = sorted(x.ravel()[want].tolist(), reverse=True)[:case['n']]
    check(set(got.tolist()) <= set(want), 'findpeaks: %s not among %s', got.tolist(), want)
    check(len(set(got.tolist())) == len(got), 'duplicate peaks %s', got.tolist())
    same(x.ravel()[got], np.array(vals), 'peak values')
    return len(want) > 1


@st.composite
def ts_cases(draw):
    x = draw(signals(4, 50))
    return {'x': x, 'dt': draw(st.sampled_from([0.1, 0.5, 1.0, 2.0])),
            'h': draw(st.sampled_from([0.0, 0.5, 1.0])), 'kind': draw(st.sampled_from([None, 'mw', 'Mw', 'astm'])),
            'v': draw(st.one_of(st.none(), st.sampled_from(x), fl(-1, 1))),
            'tckind': draw(st.sampled_from([None, 'dw', 'uw', 'tw', 'cw']))}


@sub('C02', ts_cases(), quick=800)
def timeseries_views(case):
    """TimeSeries.turning_points / trough_crest carry the value *and the time* of exactly those samples"""
    x = np.array(case['x'])
    t = 3.0 + case['dt'] * np.arange(len(x))
    want = ref_findtp(case['x'], case['h'], case['kind'])
    lab = None
    ts = wo.TimeSeries(x.copy(), t.copy())
    if want not in (None, 'undefined') and len(want):
        tp = ts.turning_points(h=case['h'], wavetype=case['kind'])
        same(np.ravel(arr(tp.data)), x[want], 'turning point values')
        close(np.ravel(arr(tp.args)), t[want], 1e-14, 0, 'turning point times')
        lab = 'tp'
    lev = np.mean(x) if case['v'] is None else case['v']
    cr = R.cross_kind(case['x'], lev, case['tckind'])
    if len(cr) > 2:
        tc = ts.trough_crest(v=case['v'], wavetype=case['tckind'])
        ind = arr(wm.findtc(x, case['v'], case['tckind'])[0])
        same(np.ravel(arr(tc.data)), x[ind], 'trough/crest values')
        close(np.ravel(arr(tc.args)), t[ind], 1e-14, 0, 'trough/crest times')
        lab = 'tc'
    same(np.ravel(ts.data), x, 'the series itself')
    return lab
