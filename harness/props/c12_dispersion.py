"""C12 the linear dispersion relation between frequency and wave number."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import optimize

from wafo.wave_theory.dispersion_relation import k2w, w2k
from core import sub, check, close, same, arr, fail, unchanged, raises
from gens import fl, nice, rs, seeds


def ref_k(w, h, g):
    """The root of g*k*tanh(k*h) = w**2 with the sign of w, by bracketing."""
    if w == 0:
        return 0.0
    a = w * w / g
    if np.isinf(h) or h > 1e25:
        return np.sign(w) * a
    # with x = k*h: x*tanh(x) = y
    y = a * h
    lo, hi = min(y, np.sqrt(y)), max(y, np.sqrt(y)) * 1.5 + 1e-300
    x = optimize.brentq(lambda x: x * np.tanh(x) - y, 0.5 * lo, hi, xtol=1e-300, rtol=1e-14, maxiter=500)
    return np.sign(w) * x / h


def snap(v):
    """Numbers below 1e-4 become zero: w2k promises 1e-14 absolute accuracy only."""
    return 0.0 if abs(v) < 1e-4 else v


freqs = st.one_of(nice(-4, 4), st.sampled_from([0.0, 1e-3, -1e-3, 0.01, 12.0, 40.0, -25.0]), fl(1e-3, 30)).map(snap)
depths = st.one_of(nice(0.5, 100), st.sampled_from([np.inf, 0.05, 1.0, 1e3, 1e4, 1e6, 1e30]), fl(0.02, 5))
gravs = st.one_of(st.just(9.81), nice(0.5, 20))


@st.composite
def w2k_case(draw):
    n = draw(st.integers(1, 8))
    shape = draw(st.sampled_from(['scalar', 'vec', 'col_row', 'depthvec', 'mat']))
    return dict(shape=shape, w=draw(st.lists(freqs, min_size=n, max_size=n)),
                theta=draw(st.lists(nice(-7, 7), min_size=4, max_size=4)),
                h=draw(st.lists(depths, min_size=n, max_size=n)), g=draw(gravs), as_list=draw(st.booleans()))


def expand(c):
    w, th, h = np.array(c['w']), np.array(c['theta']), np.array(c['h'])
    k = c['shape']
    if k == 'scalar':
        return float(w[0]), float(th[0]), float(h[0])
    if k == 'vec':
        return w, float(th[0]), float(h[0])
    if k == 'col_row':
        return w, th[:, None], float(h[0])
    if k == 'depthvec':
        return w, float(th[0]), h
    n = w.size
    return w[:, None], th, h[:, None]


@sub('C12', w2k_case(), quick=700)
def wave_number_solves_dispersion_relation(c):
    """counts when some frequency is non-zero and some depth finite (the iterative branch)"""
    w, th, h = expand(c)
    g = c['g']
    args = [w, th, h]
    if c['as_list']:
        args = [a.tolist() if isinstance(a, np.ndarray) else a for a in args]
    with unchanged('w2k', *[a for a in args if isinstance(a, np.ndarray)]):
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            k1, k2 = w2k(args[0], args[1], args[2], g)
    k1, k2 = np.asarray(k1, float), np.asarray(k2, float)
    W, T, H = np.broadcast_arrays(w, th, h)
    check(k1.shape == W.shape and k2.shape == W.shape, 'w2k shapes', k1.shape, k2.shape, W.shape)
    K = np.array([ref_k(a, b, g) for a, b in zip(W.ravel(), H.ravel())]).reshape(W.shape)
    close(k1, K * np.cos(T), 1e-8, 1e-10 * np.abs(K), 'w2k: k1 != k(w)*cos(theta)')
    close(k2, K * np.sin(T), 1e-8, 1e-10 * np.abs(K), 'w2k: k2 != k(w)*sin(theta)')
    # odd in w
    m1, m2 = w2k(-W, T, H, g)
    close(m1, -k1, 1e-9, 1e-12 * np.abs(K), 'w2k(-w) != -w2k(w)')
    # inverse
    wb, tb = k2w(k1, k2, H, g)
    close(wb, np.abs(W), 1e-7, 1e-12, 'k2w(w2k(w)) != |w|')
    if not np.any((W != 0) & (H < 1e25)):
        return None
    kh = np.abs(K * H)[(W != 0) & (H < 1e25)]
    return 'shallow' if kh.max() < 0.3 else ('deep' if kh.min() > 5 else 'mixed')


@sub('C12', st.tuples(st.lists(freqs, min_size=1, max_size=6), nice(-7, 7), nice(1, 20), nice(1, 20),
                      st.sampled_from([np.inf, np.inf, 50.0, 1e26])), quick=300)
def deep_water_with_3d_normalisation(t):
    """counts when the two gravity constants differ and the depth is infinite"""
    w, th, g0, g1, h = t
    w = np.array(w)
    if h < 1e25:
        raises(lambda: w2k(w, th, h, [g0, g1]), 'finite depth with two gravity constants', ValueError)
        return None
    k1, k2 = w2k(w, th, h, [g0, g1])
    k = np.sign(w) * w ** 2
    close(k1, k / g0 * np.cos(th), 1e-12, 1e-12 * np.abs(k), 'k1 with pair g')
    close(k2, k / g1 * np.sin(th), 1e-12, 1e-12 * np.abs(k), 'k2 with pair g')
    return g0 != g1


@st.composite
def k2w_case(draw):
    n = draw(st.integers(1, 8))
    kk = st.one_of(nice(-2, 2), st.sampled_from([0.0, 1e-6, 30.0, -30.0]), fl(-50, 50)).map(lambda v: 0.0 if abs(v) < 1e-7 else v)
    return dict(k1=draw(st.lists(kk, min_size=n, max_size=n)),
                k2=draw(st.one_of(st.none(), st.lists(kk, min_size=n, max_size=n))),
                h=draw(depths), g=draw(gravs), u1=draw(st.one_of(st.just(0.0), nice(-3, 3))),
                u2=draw(st.one_of(st.just(0.0), nice(-3, 3))), outer=draw(st.booleans()))


@sub('C12', k2w_case(), quick=700)
def frequency_from_wave_number(c):
    """counts when some wave number is non-zero"""
    k1 = np.array(c['k1'])
    k2 = 0.0 if c['k2'] is None else np.array(c['k2'])
    if c['outer'] and c['k2'] is not None:
        k2 = k2[:, None]
    h, g, u1, u2 = c['h'], c['g'], c['u1'], c['u2']
    with unchanged('k2w', k1):
        with warnings.catch_warnings(record=True) as rec, np.errstate(all='ignore'):
            warnings.simplefilter('always')
            if u1 == 0 and u2 == 0:
                w, th = k2w(k1, k2, h, g)
            else:
                w, th = k2w(k1, k2, h, g, u1, u2)
    warned = any('opposite directions' in str(r.message) for r in rec)
    K1, K2 = np.broadcast_arrays(k1, k2)
    K = np.hypot(K1, K2)
    with np.errstate(all='ignore'):
        t = np.where(K > 0, np.tanh(K * h), 0.0)
    ref = np.where(K > 0, K1 * u1 + K2 * u2 + np.sqrt(g * K * t), 0.0)
    tol = 1e-11 * (np.abs(K1 * u1) + np.abs(K2 * u2) + np.sqrt(g * K))
    check(np.shape(w) == K.shape and np.shape(th) == K.shape, 'k2w shapes', np.shape(w), np.shape(th))
    close(w, np.maximum(ref, 0), 1e-11, tol, 'k2w frequency')
    check(np.all(np.asarray(w) >= 0), 'k2w returned a negative frequency', w)
    close(th, np.arctan2(K2, K1), 1e-13, 1e-13, 'k2w direction')
    if np.all(np.abs(ref) > tol) or np.all(ref >= tol):
        check(warned == bool(np.any(ref < 0)), 'k2w warning about negative frequencies', warned, ref)
    return bool(np.any(K > 0)) and ('current' if (u1 or u2) else 'still')


@sub('C12', st.tuples(depths.filter(lambda h: h < 1e25), gravs, seeds()), quick=150)
def dispersion_limits_and_monotonicity(t):
    """every case counts: wave number increasing in frequency, decreasing in depth and gravity, shallow and deep limits"""
    h, g, seed = t
    r = rs(seed)
    w = np.unique(np.concatenate([np.linspace(0.01, 6, 60), np.sort(r.rand(30) * 10 + 0.01)]))
    k = np.asarray(w2k(w, 0, h, g)[0])
    check(np.all(np.diff(k) > 0), 'wave number not increasing with frequency', h, g)
    k2 = np.asarray(w2k(w, 0, 1.3 * h, g)[0])
    kd = w ** 2 / g
    check(np.all(k2 <= k * (1 + 1e-9)), 'wave number increases with depth', h, g)
    check(np.all(k >= kd * (1 - 1e-9)), 'wave number below its deep water value', h, g)
    ks = w / np.sqrt(g * h)
    check(np.all(k >= ks * (1 - 1e-9)), 'wave number below its shallow water value', h, g)
    kg = np.asarray(w2k(w, 0, h, 1.2 * g)[0])
    check(np.all(kg < k), 'wave number does not decrease with gravity', h, g)
    # dimensional analysis: k(a*w, h/a**2) = a**2*k(w, h)
    a = 0.5 + r.rand()
    close(np.asarray(w2k(a * w, 0, h / a ** 2, g)[0]), a * a * k, 1e-8, 0, 'Froude scaling of w2k')
    # every element is solved alone
    one = np.array([float(w2k(v, 0, h, g)[0]) for v in w[:5]])
    close(k[:5], one, 1e-9, 0, 'w2k of a vector differs from element by element')
    return True
