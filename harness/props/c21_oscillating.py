"""C21: quadrature of oscillating functions (wafo.integrate_oscillating)."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.special import roots_legendre

from core import sub, check, close, arr, fail
from gens import fl, seeds, nice, rs

NODES = roots_legendre(200)


def O():
    import wafo.integrate_oscillating as o
    return o


def reference(f, g, a, b, om, parts=40):
    x0, w0 = NODES
    e = np.linspace(a, b, parts + 1)
    h = (e[1:] - e[:-1])[:, None] / 2
    x = h * x0 + (e[1:] + e[:-1])[:, None] / 2
    return np.sum(w0 * h * f(x) * np.exp(1j * om * g(x)))


F = {'one': lambda x, p: p + 0 * x, 'quad': lambda x, p: p * x * x - x + 0.5, 'exp': lambda x, p: np.exp(-p * x),
     'lor': lambda x, p: p / (1 + x * x), 'cos': lambda x, p: np.cos(p * x)}
G = {'lin': (lambda x, p: x, lambda x, p: 1 + 0 * x), 'neg': (lambda x, p: 0.5 - 0.7 * x, lambda x, p: -0.7 + 0 * x),
     'quad': (lambda x, p: x + 0.1 * p * x * x, lambda x, p: 1 + 0.2 * p * x), 'stat': (lambda x, p: x * x, lambda x, p: 2 * x),
     'cub': (lambda x, p: x + p * x ** 3 / 6, lambda x, p: 1 + p * x * x / 2)}
omegas = st.one_of(st.sampled_from([0.0, 1.0, 10.0, 100.0, -5.0, 300.0]), fl(-20, 60), fl(0, 300))
case = st.fixed_dictionaries(dict(f=st.sampled_from(sorted(F)), g=st.sampled_from(sorted(G)), p=nice(0.1, 1.0), a=nice(-2, 2), len=nice(0, 3), om=omegas, rev=st.booleans(),
                                  dg=st.booleans(), kw=st.booleans(), basis=st.sampled_from(['chebyshev_basis', 'poly_basis']), endpoints=st.booleans(), full=st.booleans(),
                                  precision=st.sampled_from([6, 8, 10])))


def run(cls, c):
    o = O()
    f = F[c['f']]
    g, dg = G[c['g']]
    a, b = c['a'], c['a'] + c['len']
    if c['rev']:
        a, b = b, a
    if cls == 'AdaptiveLevin':
        c = dict(c, endpoints=True)
    q = getattr(o, cls)(f, g, dg if c['dg'] else None, a=a, b=b, basis=getattr(o, c['basis']), precision=c['precision'], endpoints=c['endpoints'],
                        full_output=c['full'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = q(c['om'], p=c['p']) if c['kw'] else q(c['om'], c['p'])
    err = 0.0
    if c['full']:
        check(isinstance(r, tuple) and len(r) == 2, 'full output', r)
        r, info = r
        err = float(np.ravel(info.error_estimate)[0])
        check(err >= 0 and info.n >= 0, 'error estimate', info)
    v = arr(r, 'integral', complex)
    check(v.size == 1, 'a scalar integral was expected', v)
    want = reference(lambda x: f(x, c['p']), lambda x: g(x, c['p']), a, b, c['om'])
    return v.ravel()[0], want, err


@sub('C21', case, quick=400)
def quad_osc(c):
    """non-trivial: interval of positive length and at least one oscillation"""
    v, want, err = run('QuadOsc', c)
    tol = 10.0 ** (1 - c['precision']) * 5
    close(v, want, 0, tol, 'QuadOsc')
    return c['len'] > 0 and abs(c['om'] * c['len']) > 6


@sub('C21', case, quick=200)
def evans_webster(c):
    """non-trivial: interval of positive length and at least one oscillation"""
    c = dict(c, full=True)
    v, want, err = run('EvansWebster', c)
    close(v, want, 0, 10 * err + 10.0 ** (1 - c['precision']) * 50, 'EvansWebster')
    return c['len'] > 0 and abs(c['om'] * c['len']) > 6


@sub('C21', case.map(lambda c: dict(c, dg=True, kw=False)), quick=40, thorough=1000)
def adaptive_levin(c):
    """non-trivial: interval of positive length and at least one oscillation"""
    c = dict(c, full=True, rev=False, basis='chebyshev_basis')
    if c['len'] * abs(c['om']) < 0.5 or c['g'] == 'stat':
        return None
    v, want, err = run('AdaptiveLevin', c)
    close(v, want, 0, 10 * err + 10.0 ** (1 - c['precision']) * 50, 'AdaptiveLevin')
    return c['len'] > 0 and abs(c['om'] * c['len']) > 6


@sub('C21', st.tuples(st.sampled_from(['a inf', 'inf b', 'inf inf', 'rev']), nice(-1, 2), fl(0.3, 60), fl(0.5, 2), st.sampled_from(['gauss', 'lor']), st.booleans()), quick=100)
def infinite_limits(c):
    """non-trivial: always"""
    kind, a, om, s, which, npy = c
    inf = np.float64(np.inf) if npy else float('inf')
    z = -s + 1j * om
    if kind in ('a inf', 'rev'):
        f, lim, want = lambda x: np.exp(-s * (x - a)), (a, inf), -np.exp(1j * om * a) / z
    elif kind == 'inf b':
        f, lim, want = lambda x: np.exp(s * (x - a)), (-inf, a), np.exp(1j * om * a) / (s + 1j * om)
    elif which == 'gauss':
        f, lim, want = lambda x: np.exp(-x * x * s), (-inf, inf), np.sqrt(np.pi / s) * np.exp(-om * om / 4 / s)
    else:
        f, lim, want = lambda x: 1 / (1 + x * x), (-inf, inf), np.pi * np.exp(-om)
    if kind == 'rev':
        lim, want = lim[::-1], -want
    q = O().QuadOsc(f, lambda x: x, lambda x: 1 + 0 * x, a=lim[0], b=lim[1], precision=9)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        v = np.ravel(q(om))[0]
    close(v, want, 0, 1e-6, 'QuadOsc over %s' % (lim,))
    return kind


@sub('C21', st.tuples(st.integers(2, 40), st.integers(0, 9), st.integers(1, 4), seeds()), quick=100)
def bases_and_nodes(c):
    """non-trivial: derivative of a polynomial that does not vanish"""
    m, k, n, seed = c
    o = O()
    t = rs(seed).uniform(-1, 1, 7)
    close(np.sort(arr(o.chebyshev_extrema(m))), np.sort(np.cos(np.arange(m) * np.pi / (m - 1))), 0, 1e-14, 'extrema')
    close(np.sort(arr(o.chebyshev_roots(m))), np.sort(np.cos((2 * np.arange(m) + 1) * np.pi / (2 * m))), 0, 1e-14, 'roots')
    P = np.polynomial.polynomial.Polynomial([0.0] * k + [1.0])
    T = np.polynomial.chebyshev.Chebyshev([0.0] * k + [1.0])
    close(o.poly_basis(t, k), P(t), 1e-12, 1e-13, 'monomial')
    close(o.chebyshev_basis(t, k), np.cos(k * np.arccos(t)), 1e-11, 1e-12, 'Chebyshev polynomial')
    close(o.poly_basis.derivative(t, k, n) + 0 * t, P.deriv(n)(t), 1e-10, 1e-11, 'derivative of the monomial')
    close(o.chebyshev_basis.derivative(t, k, n) + 0 * t, T.deriv(n)(t), 1e-9, 1e-9, 'derivative of the Chebyshev polynomial')
    return n <= k
