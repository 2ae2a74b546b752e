"""C04 cycle pairs, damage, crossing spectra and cycle matrices."""
import numpy as np
from hypothesis import strategies as st

import wafo.misc as wm
import wafo.objects as wo
from core import sub, check, close, same, arr, fail, unchanged, raises, known
from gens import signals, fl, q20
from c03_rainflow import tps
import refs_load as R


@sub('C04', st.fixed_dictionaries({'tp': tps(3), 'mean': fl(-2, 2), 'sigma': fl(0.1, 3)}), quick=1200)
def cycle_pairs_from_turning_points(case):
    """min2max/max2min pairs are all consecutive pairs in order; total time is last minus first; parity is respected"""
    a = np.array(case['tp'])
    t = 2.0 + 0.5 * np.arange(len(a)) ** 1.5
    o = wo.TurningPoints(a.copy(), t.copy(), mean=case['mean'], sigma=case['sigma'])
    m2M = [(a[i], a[i + 1]) for i in range(len(a) - 1) if a[i] < a[i + 1]]
    M2m = [(a[i + 1], a[i]) for i in range(len(a) - 1) if a[i] > a[i + 1]]
    for kind, want in (('min2max', m2M), ('max2min', M2m)):
        if not want:
            continue
        cp = o.cycle_pairs(kind=kind)
        same(cp.args, np.array([p[0] for p in want]), kind + ' minima')
        same(cp.data, np.array([p[1] for p in want]), kind + ' maxima')
        check(cp.kind == kind, 'kind %r', cp.kind)
        close(cp.time, t[-1] - t[0], 1e-12, 0, 'time')
        check(cp.mean == case['mean'] and cp.sigma == case['sigma'], 'mean/sigma are lost')
        close(cp.amplitudes(), np.array([(p[1] - p[0]) / 2 for p in want]), 1e-14, 0, 'amplitudes')
    return len(a) > 4


@st.composite
def pair_cases(draw, n_min=1):
    n = draw(st.integers(n_min, 25))
    lo = draw(st.sampled_from([-9, -20, 0]))
    pairs = draw(st.lists(st.tuples(st.integers(lo, lo + 12), st.integers(1, 8)), min_size=n, max_size=n))
    # nearly equal levels far from zero are distinct levels (all these numbers are exact)
    scale, off = draw(st.sampled_from([(1.0, 0.0), (0.5, 0.0), (0.25, 0.0), (2.0 ** -12, 1000.0), (2.0 ** -30, 0.0)]))
    return {'m': [off + scale * p[0] for p in pairs], 'M': [off + scale * (p[0] + p[1]) for p in pairs],
            'time': draw(fl(0.5, 100))}


def make(case, swap=False):
    m, M = np.array(case['m']), np.array(case['M'])
    if swap:
        m, M = M, m
    return wo.CyclePairs(M, m, mean=0.1, sigma=1.3, time=case['time'], kind='max2min' if swap else 'min2max')


def ref_counts(m, M, levels):
    """numbers of pairs crossing upwards / having a max / a min at each level"""
    u = np.array([sum(1 for a, b in zip(m, M) if a < z < b) for z in levels], float)
    mx = np.array([sum(1 for b in M if b == z) for z in levels], float)
    mn = np.array([sum(1 for a in m if a == z) for z in levels], float)
    return u, mx, mn


def expect(k, case):
    m, M = case['m'], case['M']
    levels = np.array(sorted(set(m) | set(M)))
    u, mx, mn = ref_counts(m, M, levels)
    # counts at extremes of the pairs: every pair spans (min, max); a pair whose maximum (minimum) is at the level
    # counts only when maxima (minima) are included
    if k == 'u':
        c = u
    elif k == 'uM':
        c = u + mx
    elif k == 'umM':
        c = u + mx + mn
    else:
        c = (u + mn).copy()
        c[-1] = c[-2]
    return levels, c


@sub('C04', pair_cases(), quick=1500)
def level_crossings_counts(case):
    """crossing spectrum from cycle pairs == direct count of pairs spanning each level (numeric kinds)"""
    cp, cps = make(case), make(case, True)
    for num, k in ((1, 'u'), (2, 'uM'), (3, 'umM'), (4, 'um')):
        levels, c = expect(k, case)
        for o in (cp, cps):
            lc = o.level_crossings(kind=num)
            same(lc.args, levels, 'levels')
            close(lc.data, c, 1e-12, 0, 'counts kind=%r' % num)
            lci = o.level_crossings(kind=num, intensity=True)
            close(lci.data, c / case['time'], 1e-12, 0, 'intensity kind=%r' % num)
        check(lc.mean == 0.1 and lc.sigma == 1.3, 'mean/sigma are lost')
    return 'negative' if max(case['M']) < 0 else ('ties' if len(levels) < 2 * len(case['m']) else 'distinct')


@sub('C04', st.tuples(pair_cases(), st.sampled_from(['u', 'uM', 'umM', 'um'])).map(list), quick=300)
def level_crossings_named_kinds(case):
    """the documented kind names select what they say"""
    case, k = case
    levels, c = expect(k, case)
    names = ['u', 'uM', 'umM', 'um']
    try:
        lc = make(case).level_crossings(kind=k)
    except ValueError as e:
        if k == 'u':
            known('C04-1', "level_crossings(kind='u') raises ValueError: %s", e)
        raise
    same(lc.args, levels, 'levels')
    if np.allclose(lc.data, c):
        return k
    prev = expect(names[names.index(k) - 1], case)[1]
    if k != 'u' and np.allclose(lc.data, prev):
        known('C04-1', 'level_crossings(kind=%r) counts kind %r', k, names[names.index(k) - 1])
    close(lc.data, c, 1e-12, 0, 'counts kind=%r' % k)


@sub('C04', signals(6, 60), quick=800)
def crossings_of_pairs_are_crossings_of_signal(case):
    """counts from min2max pairs, rainflow pairs and the signal itself agree at every level between sample values"""
    x = np.array(case)
    tp = wm.findtp(x)
    if tp is None:
        return None
    o = wo.TurningPoints(x[tp], tp.astype(float) + 1, mean=0.0, sigma=1.0)
    cp = o.cycle_pairs()
    rows = R.rfc_pairs(x[tp].tolist())
    rfc = wo.CyclePairs(np.array([x[tp][b] for a, b in rows]), np.array([x[tp][a] for a, b in rows]),
                        mean=0.0, sigma=1.0)
    up = {}
    u = np.unique(x)
    seg = x[tp[0]:]
    for name, c in (('min2max', cp), ('rainflow', rfc)):
        lc = c.level_crossings(kind=2)
        for lev in 0.5 * (u[1:] + u[:-1]):
            k = np.searchsorted(lc.args, lev)
            # the spectrum is piecewise constant between extremes: count at the next level above
            n = lc.data[k] if k < len(lc.args) else 0.0
            want = len(R.cross_kind(seg.tolist(), lev, 'u'))
            check(n == want, '%s: %g upcrossings of level %g, the signal has %d', name, n, lev, want)
    return len(tp) > 3


@sub('C04', st.tuples(pair_cases(), st.lists(fl(0.5, 9), min_size=1, max_size=5), fl(0.01, 10)).map(list), quick=800)
def damage_is_palmgren_miner(case):
    """damage == K*sum(((max-min)/2)**beta); additive over a split of the cycles; independent of order and kind"""
    case, beta, K = case
    m, M = np.array(case['m']), np.array(case['M'])
    want = np.array([K * sum(((b - a) / 2) ** be for a, b in zip(m, M)) for be in beta])
    cp = make(case)
    close(cp.damage(beta, K), want, 1e-11, 0, 'damage')
    close(cp.damage(beta), want / K, 1e-11, 0, 'damage K=1')
    close(make(case, True).damage(beta, K), want, 1e-11, 0, 'damage of max2min')
    k = len(m) // 2
    parts = sum(wo.CyclePairs(M[s], m[s]).damage(beta, K) for s in (slice(0, k), slice(k, None)))
    close(parts, want, 1e-11, 0, 'damage is additive')
    d2 = wo.CyclePairs(3 * M + 1, 3 * m + 1).damage(beta, K)
    close(d2, want * 3.0 ** np.array(beta), 1e-10, 0, 'damage scales with load**beta')
    return len(m) > 2


@sub('C04', st.tuples(pair_cases(), st.sampled_from([-1, 0, 1]), st.integers(3, 40), st.booleans()).map(list), quick=1500)
def cycle_matrix_counts(case):
    """every cycle is counted once, in the class its definition (up/down/nearest projection) asks for"""
    case, ddef, n, swap = case
    m, M = np.array(case['m']), np.array(case['M'])
    a, b = float(m.min() - 0.3), float(M.max() + 0.45)
    cp = make(case, swap)
    F = cp.cycle_matrix((a, b, n), ddef=ddef)
    u = np.linspace(a, b, n)
    close(F.args[0], u, 1e-14, 1e-14, 'levels')
    D = arr(F.data, 'cycle matrix')
    check(D.shape == (n, n) and D.sum() == len(m), 'sum of the cycle matrix is %g for %d cycles', D.sum(), len(m))
    want = np.zeros((n, n))
    d = u[1] - u[0]
    eps = 1e-9
    for lo, hi in zip(m, M):
        zl, zh = (lo - a) / d, (hi - a) / d
        if ddef == 1:
            i, j = np.floor(zl), np.ceil(zh)
            i, j = min(max(i, 0), n - 2), min(max(j, 1), n - 1)
            amb = [abs(zl - round(zl)), abs(zh - round(zh))]
        elif ddef == -1:
            i, j = np.ceil(zl), np.floor(zh)
            i, j = min(max(i, 1), n - 1), min(max(j, 0), n - 2)
            amb = [abs(zl - round(zl)), abs(zh - round(zh))]
        else:
            i, j = np.round(zl), np.round(zh)
            amb = [abs(abs(zl - round(zl)) - 0.5), abs(abs(zh - round(zh)) - 0.5)]
        if min(amb) < eps:
            return None         # a value within rounding of a class boundary: either class is right
        if swap:
            i, j = j, i
        want[int(i), int(j)] += 1
    same(D, want, 'cycle matrix (ddef=%d)' % ddef)
    return 'ddef%d' % ddef
