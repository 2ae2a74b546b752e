"""C05 wave heights, periods, steepness and speeds of the individual waves of a record."""
import numpy as np
from hypothesis import strategies as st

import wafo.misc as wm
import wafo.objects as wo
from wafo.interpolate import stineman_interp
from core import sub, check, close, same, arr, fail, unchanged, known
from gens import signals, fl, q20
import refs_load as R


@st.composite
def wave_cases(draw):
    x = draw(signals(6, 80, lo=-3, hi=3))
    if draw(st.booleans()):
        x = [v - 0.25 for v in x]
    return {'x': x, 'dt': draw(st.sampled_from([0.1, 0.25, 0.5, 1.0, 2.0])), 't0': draw(st.sampled_from([0.0, 3.0, -7.5])),
            'jit': draw(st.booleans()), 'rate': draw(st.sampled_from([1, 1, 1, 0, 2, 3, 5])),
            'g': draw(st.sampled_from([None, 9.81, 1.5, 20.0])), 'col': draw(st.booleans())}


def times(case, n):
    t = case['t0'] + case['dt'] * np.arange(n)
    if case['jit']:
        t = t + 0.3 * case['dt'] * np.sin(np.arange(n) ** 1.3)
    return t


def build(case):
    x = np.array(case['x'])
    t = times(case, len(x))
    data = x.reshape(-1, 1).copy() if case['col'] else x.copy()
    return wo.TimeSeries(data, t.copy()), x, t


def ref_waves(x, t, dT):
    """dict of wave parameters from the definitions, for zero-level waves of the trough wave definition"""
    z = R.cross_kind(list(x), 0.0, 'tw')
    if len(z) <= 2:
        z = []
    tz = [t[i] + (0.0 - x[i]) * (t[i + 1] - t[i]) / (x[i + 1] - x[i]) for i in z]
    tcv, tct = [], []
    for a, b in zip(z[:-1], z[1:]):
        j = min(range(a + 1, b + 1), key=lambda k: (x[k] if x[a + 1] < 0 else -x[k], k))
        tcv.append(x[j])
        tct.append(t[j])
    out = {k: [] for k in ('Ac', 'At', 'Hu', 'Hd', 'Tu', 'Td', 'Tcf', 'Tcb')}
    out['At'] = [-v for v in tcv[0::2]]
    nw = len(tcv) // 2
    for w in range(nw):
        at0, ac, at1 = -tcv[2 * w], tcv[2 * w + 1], -tcv[2 * w + 2]
        d0, u0, d1, u1 = tz[2 * w:2 * w + 4]
        tc = tct[2 * w + 1]
        out['Ac'].append(ac)
        out['Hd'].append(ac + at0)
        out['Hu'].append(ac + at1)
        out['Td'].append(d1 - d0)
        out['Tu'].append(u1 - u0)
        out['Tcf'].append((tc - u0) if tc != u0 else dT)
        out['Tcb'].append((d1 - tc) if d1 != tc else dT)
    return {k: np.array(v, dtype=float) for k, v in out.items()}


def interpolated(case, x, t):
    if case['rate'] > 1:
        ti = np.linspace(t[0], t[-1], len(x) * case['rate'])
        return np.asarray(stineman_interp(ti, t, x)), ti
    return x, t


@sub('C05', wave_cases(), quick=1500, shards=2)
def wave_parameters_are_definition(case):
    """Ac, At, Hd, Hu, Td, Tu, Tcf, Tcb of every wave == definition (in the interpolated record when rate > 1)"""
    ts, x, t = build(case)
    wp = ts.wave_parameters(rate=case['rate'])
    dT = (t[-1] - t[0]) / (len(t) - 1) / max(case['rate'], 1)
    xi, ti = interpolated(case, x, t)
    ref = ref_waves(xi, ti, dT)
    check(set(wp) == set(ref), 'keys %s', sorted(wp))
    scale = abs(t[-1]) + abs(t[0]) + 1
    for k in ref:
        close(wp[k], ref[k], 1e-9, 1e-11 * scale if k[0] == 'T' else 1e-14, k)
    same(np.ravel(ts.data), x, 'the series itself')
    n = len(ref['Ac'])
    if n == 0:
        return None
    return 'rate%d' % case['rate'] if case['rate'] > 1 else ('one wave' if n == 1 else 'waves')


NAMES = {'maxVcfVcb': 0, 'Vcf': 1, 'Vcb': -1, 'Scf': 2, 'Scb': -2, 'StHd': 3, 'StHu': -3}


@sub('C05', wave_cases(), quick=1200, shards=2)
def height_steepness_are_definition(case):
    """S and H for every documented kind (number or name) == documented formula on the waves of the record"""
    ts, x, t = build(case)
    dT = (t[-1] - t[0]) / (len(t) - 1) / max(case['rate'], 1)
    xi, ti = interpolated(case, x, t)
    w = ref_waves(xi, ti, dT)
    g = case['g'] if case['g'] is not None else wm.gravity()
    front = w['Tcf'] < w['Tcb']
    ref = {1: (w['Ac'] / w['Tcf'], w['Hd']), -1: (w['Ac'] / w['Tcb'], w['Hu']),
           2: (2 * np.pi * w['Ac'] / w['Td'] / w['Tcf'] / g, w['Hd']),
           -2: (2 * np.pi * w['Ac'] / w['Tu'] / w['Tcb'] / g, w['Hu']),
           3: (2 * np.pi * w['Hd'] / w['Td'] ** 2 / g, w['Hd']),
           -3: (2 * np.pi * w['Hu'] / w['Tu'] ** 2 / g, w['Hu']),
           0: (w['Ac'] / np.minimum(w['Tcf'], w['Tcb']), np.where(front, w['Hd'], w['Hu']))}
    # conditioning: periods are differences of times of order |t|; a period of order 1e-12 has no digits
    tmin = min([1.0] + [v for k in ('Tcf', 'Tcb', 'Td', 'Tu') for v in w[k]])
    rt = 1e-9 + 1e-13 * (abs(t[-1]) + abs(t[0]) + 1) / max(tmin, 1e-300)
    amb = np.abs(w['Tcf'] - w['Tcb']) < 1e-9 * (w['Tcf'] + w['Tcb'])
    for name, k in NAMES.items():
        for kind in (name, k):
            S, H = ts.wave_height_steepness(kind=kind, rate=case['rate'], g=case['g'])
            close(S, ref[k][0], rt * 4, 0, 'S kind=%s' % kind)
            if k == 0 and np.any(amb):
                H, want = arr(H)[~amb], ref[k][1][~amb]
            else:
                want = ref[k][1]
            close(H, want, 1e-12, 1e-14, 'H kind=%s' % kind)
    S, H = ts.wave_height_steepness(rate=case['rate'], g=case['g'])
    close(S, ref[1][0], rt * 4, 0, 'default kind')
    n = len(w['Ac'])
    if n == 0:
        return None
    if n > 1 and np.any(front) and np.any(~front):
        return 'mixed'
    return 'waves'


PDEFS = ['d2d', 'u2u', 'd2u', 'u2d', 't2t', 't2c', 'c2t', 'c2c', 'm2m', 'm2M', 'M2m', 'M2M', 'd2t', 't2u', 'u2c', 'c2d']


@st.composite
def period_cases(draw):
    c = draw(wave_cases())
    c['v'] = draw(st.sampled_from([None, 0.0, 0.0, 0.25]))
    c['pdef'] = draw(st.sampled_from(PDEFS[:4] * 3 + PDEFS))
    c['rate'] = draw(st.sampled_from([1, 1, 1, 2]))
    return c


@sub('C05', period_cases(), quick=2500, shards=2)
def wave_periods_are_definition(case):
    """wave_periods: time from each event of the first type to the next event of the second type"""
    ts, x, t = build(case)
    pdef = case['pdef']
    xi, ti = interpolated(case, x, t)
    v = case['v']
    mM = pdef[0] in 'mM'
    lev = (0.0 if mM else xi.mean()) if v is None else v
    xl = list(xi)
    ev = []                     # (time, type, index) in order
    if mM:
        idx = wm.findtp(xi, lev, None)
        if idx is None or len(idx) < 2:
            return None
        idx = [int(i) for i in idx]
        vals = xi[idx]
        if not np.all(np.sign(np.diff(vals))[1:] == -np.sign(np.diff(vals))[:-1]) or np.any(np.diff(vals) == 0):
            return None
        for k, i in enumerate(idx):
            hi = (vals[k] > vals[k + 1]) if k + 1 < len(idx) else (vals[k] > vals[k - 1])
            ev.append((ti[i], 'M' if hi else 'm', i))
    else:
        z = R.cross(xl, lev)
        if len(z) < 2 or (len(z) <= 2 and (pdef[0] in 'tc' or pdef[2] in 'tc')):
            return None
        tz = {i: ti[i] + (lev - xi[i]) * (ti[i + 1] - ti[i]) / (xi[i + 1] - xi[i]) for i in z}
        want = set(pdef) - {'2'}
        ud = bool(want & set('ud'))
        tc = bool(want & set('tc'))
        for k, i in enumerate(z):
            if ud:
                ev.append((tz[i], 'u' if xi[i + 1] > lev else 'd', i))
            if tc and k + 1 < len(z):
                seg = range(i + 1, z[k + 1] + 1)
                low = xi[i + 1] < lev
                j = min(seg, key=lambda q: (xi[q] if low else -xi[q], q))
                ev.append((ti[j], 't' if low else 'c', j))
    a, b = pdef[0], pdef[2]
    ref = []
    for k, e in enumerate(ev):
        if e[1] == a:
            for f in ev[k + 1:]:
                if f[1] == b:
                    ref.append(f[0] - e[0])
                    break
    try:
        T, index = ts.wave_periods(vh=v, pdef=pdef, rate=case['rate'])
    except (IndexError, ValueError) as e:
        fail('wave_periods(%r) raised %r', pdef, e)
    T = arr(T)
    ref = np.array(ref)
    scale = abs(t[-1]) + abs(t[0]) + 1
    ok = T.shape == ref.shape and np.all(np.abs(T - ref) <= 1e-10 * scale)
    if ok:
        return 'ud' if a in 'ud' and b in 'ud' and len(ref) > 1 else (len(ref) > 0)
    # the two listed findings, recognised by their exact shape
    index = np.asarray(index, dtype=int)
    if len(index) != len(ev):
        fail('wave_periods(%r): %d events, expected %d', pdef, len(index), len(ev))
    first_high = xi[index[0]] > xi[index[1]]
    dist = 2 if a == b else 1
    step = 4 if pdef in ('d2t', 't2u', 'u2c', 'c2d') else 2
    if a in 'ud' and b in 'ud' and ev[0][1] == 'd':
        tie = not first_high and (xi[index[0]] == lev or xi[index[1]] == lev)
        if not first_high and not tie:
            fail('wave_periods(%r): %s, expected %s', pdef, T.tolist(), ref.tolist())
        s = {'d2d': 1, 'd2u': 1, 'u2d': 2 - 2 * tie, 'u2u': 2 - 2 * tie}[pdef]
        tt = np.array([e[0] for e in ev])
        bug = tt[s + dist::step][:len(tt[s:len(tt) - dist:step])] - tt[s:len(tt) - dist:step]
        if T.shape == bug.shape and np.all(np.abs(T - bug) <= 1e-10 * scale):
            known('C05-3' if tie else 'C05-1', 'wave_periods(%r) of a record whose first crossing is a down-crossing starts one event late: '
                  '%s instead of %s', pdef, T[:4].tolist(), ref[:4].tolist())
    if a in 'mMtc' or b in 'mMtc':
        vals = []
        for s in range(5):
            i0, i1 = index[s:len(index) - dist:step], index[s + dist::step]
            m = min(len(i0), len(i1))
            i0, i1 = i0[:m], i1[:m]
            t0 = wm.ecross(ti, xi, i0, lev) if a in 'ud' else xi[i0]
            t1 = wm.ecross(ti, xi, i1, lev) if b in 'ud' else xi[i1]
            vals.append(np.asarray(t1) - np.asarray(t0))
        if any(T.shape == q.shape and np.allclose(T, q, rtol=1e-9, atol=1e-10 * scale, equal_nan=True) for q in vals):
            known('C05-2', 'wave_periods(%r) returns differences of surface elevations: %s instead of %s', pdef,
                  T[:4].tolist(), ref[:4].tolist())
    fail('wave_periods(%r): %s, expected %s', pdef, T.tolist(), ref.tolist())


@sub('C05', wave_cases(), quick=400)
def sampling_and_conversion(case):
    """mat2timeseries keeps time and data columns; the sampling period is the mean time step"""
    x = np.array(case['x'])
    t = times(case, len(x))
    m = np.column_stack((t, x, 2 * x))
    with unchanged('mat2timeseries', m):
        ts = wo.mat2timeseries(m)
    same(ts.args, t, 'args')
    same(np.asarray(ts.data), m[:, 1:], 'data')
    close(ts.sampling_period(), (t[-1] - t[0]) / (len(t) - 1), 1e-12, 0, 'sampling period')
    return case['jit'] and 'uneven' or 'even'
