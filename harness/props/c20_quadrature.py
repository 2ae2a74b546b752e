"""C20: Gauss rules, adaptive Gauss quadrature, Clenshaw-Curtis, Romberg, Boole (wafo.integrate)."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import special as sp
from scipy.special import eval_hermite  # noqa: F401

from core import sub, check, close, same, arr, raises, unchanged, finite
from gens import fl, seeds, nice, rs


def I():
    import wafo.integrate as wi
    return wi


# wfun -> (alpha, beta) of the equivalent Jacobi weight (1-x)^alpha (1+x)^beta; 7-9 live on [0, 1]
JAC = {1: (0., 0.), 5: (-.5, -.5), 6: (.5, .5), 7: (-.5, .5), 8: (-.5, 0.), 9: (.5, 0.)}
shapes = st.one_of(st.sampled_from([0.0, 0.5, -0.5, 1.0, 2.0]), nice(-0.9, 3), nice(-0.9, 12))


def reference(n, wfun, alpha, beta):
    """Nodes (increasing) and weights by the eigenvalue method of scipy."""
    if wfun == 2:
        return sp.roots_hermite(n)
    if wfun == 3:
        return sp.roots_genlaguerre(n, alpha)
    a, b = (alpha, beta) if wfun == 4 else JAC[wfun]
    x, w = sp.roots_jacobi(n, a, b) if (a, b) != (0., 0.) else sp.roots_legendre(n)
    if wfun >= 7:
        return (x + 1) / 2, w * 0.5 ** (a + b + 1)
    return x, w


def same_rule(got, want, n, what):
    x, w = arr(got[0], what), arr(got[1], what)
    check(x.shape == (n,) and w.shape == (n,), '%s: shapes %s %s for n=%d', what, x.shape, w.shape, n)
    finite(x, what)
    finite(w, what)
    k = np.argsort(x)
    xr, wr = want
    close(x[k], xr, 1e-8, 1e-9, what + ' nodes')
    close(w[k], wr, 1e-6, 1e-8 * np.sum(wr), what + ' weights')
    close(np.sum(w), np.sum(wr), 1e-8, 0, what + ' total weight')


@sub('C20', st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 40)), st.sampled_from([1, 1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 7, 8, 9]), shapes, shapes,
                      st.sampled_from(['newton', 'newton1', 'eigenvalue'])), quick=500)
def rules(c):
    """non-trivial: two or more nodes"""
    n, wfun, alpha, beta, method = c
    wi = I()
    want = reference(n, wfun, alpha, beta)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        same_rule(wi.qrule(n, wfun, alpha, beta), want, n, 'qrule(%d, %d)' % (n, wfun))
        if wfun == 1:
            same_rule(wi.p_roots(n, method), want, n, 'p_roots')
        elif wfun == 2:
            same_rule(wi.h_roots(n, method), want, n, 'h_roots')
        elif wfun == 3:
            same_rule(wi.la_roots(n, alpha, method), want, n, 'la_roots')
        elif wfun == 4:
            same_rule(wi.j_roots(n, alpha, beta, method), want, n, 'j_roots')
    return n > 1 and 'wfun %d' % wfun


@sub('C20', st.tuples(st.integers(1, 60), st.sampled_from(['newton', 'newton1', 'eigenvalue']), nice(-5, 5), nice(-5, 5),
                      st.lists(st.integers(-3, 3), min_size=1, max_size=9)), quick=200)
def mapped_legendre(c):
    """non-trivial: interval other than [-1, 1], n > 1"""
    n, method, a, b, coef = c
    x, w = I().p_roots(n, method, a=a, b=b)
    check(arr(x).shape == (n,) and arr(w).shape == (n,), 'shapes of nodes and weights')
    h = abs(b - a) / 2
    check(np.all(np.abs(arr(x) - (a + b) / 2) <= h * (1 + 1e-12) + 1e-12), 'nodes outside the interval')
    coef = coef[:2 * n]
    P = np.polynomial.polynomial.Polynomial([float(v) for v in coef])
    Q = P.integ()
    scale = np.polynomial.polynomial.Polynomial(np.abs(P.coef))(max(abs(a), abs(b), 1)) * (2 * h + 1e-3)
    close(np.sum(P(arr(x)) * w), Q(b) - Q(a), 1e-9, 1e-10 * scale, 'polynomial of degree %d by %d points' % (len(coef) - 1, n))
    raises(lambda: I().la_roots(n, -1 - h), 'la_roots with alpha <= -1', ValueError)
    raises(lambda: I().j_roots(n, 0.5, -1 - h), 'j_roots with beta <= -1', ValueError)
    raises(lambda: I().j_roots(n, -1 - h, 0.5), 'j_roots with alpha <= -1', ValueError)
    return n > 1 and (a, b) != (-1, 1)


# ----------------------------------------------------------------------------------------------------- gaussq
@st.composite
def gq(draw):
    m = draw(st.integers(1, 4))
    lim = st.one_of(st.lists(nice(-3, 3), min_size=m, max_size=m), nice(-3, 3))
    close_shapes = draw(st.booleans())
    a0 = draw(shapes)
    alphas = [a0, a0 + draw(st.sampled_from([1e-7, 1e-5, 1e-3]))] if close_shapes else [a0]
    return dict(wfun=draw(st.integers(1, 9)), alphas=alphas, beta=draw(shapes), a=draw(lim), b=draw(lim),
                fun=draw(st.sampled_from(['poly', 'exp', 'cos', 'int', 'par'])),
                coef=draw(st.lists(st.integers(-3, 3), min_size=1, max_size=6)),
                par=draw(st.one_of(st.lists(nice(-1, 1), min_size=m, max_size=m), nice(-1, 1))), kind=draw(st.sampled_from(['array', 'list', 'row'])),
                tol=draw(st.sampled_from([1e-3, 1e-6, 1e-9])))


@sub('C20', gq(), quick=400)
def adaptive_gauss(c):
    """non-trivial: interval of positive length and an integrand that is not constant"""
    wi = I()
    w = c['wfun']
    P = np.polynomial.polynomial.Polynomial([float(v) for v in c['coef']])
    f = {'poly': P, 'exp': lambda x: np.exp(-0.4 * x), 'cos': lambda x: np.cos(0.8 * x + 0.3), 'int': lambda x: np.floor(P(0 * x)).astype(int),
         'par': lambda x, p: np.exp(-0.2 * x) * p + x}[c['fun']]
    a, b = c['a'], c['b']
    if w in (2, 3):
        a, b = (-np.inf if w == 2 else 0.0), np.inf
    elif w in (4, 5, 6, 7, 8, 9):                     # these weights need a < b
        a, b = np.minimum(a, b), np.maximum(a, b) + 0.25
    conv = {'array': np.asarray, 'list': lambda v: np.asarray(v).tolist(), 'row': lambda v: np.atleast_2d(v)}[c['kind']]
    ga, gb = conv(a), conv(b)
    args = ()
    if c['fun'] == 'par':
        args = (conv(c['par']),)
    shape = np.broadcast_shapes(np.shape(np.atleast_1d(ga)), np.shape(np.atleast_1d(gb)), *[np.shape(np.atleast_1d(v)) for v in args])
    A, B = np.broadcast_to(ga, shape), np.broadcast_to(gb, shape)
    ARG = [np.broadcast_to(v, shape) for v in args]
    for alpha in c['alphas']:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            val, err = wi.gaussq(f, ga, gb, releps=c['tol'], abseps=c['tol'], alpha=alpha, beta=c['beta'], wfun=w, args=args)
        check(arr(val).shape == shape and arr(err).shape == shape, 'shape of the result', arr(val).shape, shape)
        check(np.all(arr(err) >= 0), 'negative error estimate', err)
        al, be = (alpha, c['beta']) if w == 4 else JAC.get(w, (0., 0.))
        x, wt = reference(60, w, alpha, c['beta'])
        for i in np.ndindex(*shape):
            p = [v[i] for v in ARG]
            if w in (2, 3):
                want = np.sum(wt * f(x, *p))
                mag = np.sum(wt * np.abs(f(x, *p)))
            else:
                u = x if w < 7 else 2 * x - 1                     # standard interval
                h = (B[i] - A[i]) / 2
                xx = h * (u + 1) + A[i]
                fac = h ** (al + be + 1) if w != 1 else h
                if w >= 7:
                    fac = fac * 2 ** (al + be + 1)
                want = np.sum(wt * f(xx, *p)) * fac
                mag = np.sum(np.abs(wt * f(xx, *p))) * abs(fac)
            close(arr(val)[i], want, 20 * c['tol'] + 1e-8, 20 * c['tol'] + 1e-8 * mag, 'gaussq wfun=%d' % w)
    return c['fun'] not in ('int',) and bool(np.any(A != B)) and 'wfun %d' % w


# ----------------------------------------------------------------------------------------------------- clencurt
@st.composite
def cc(draw):
    m = draw(st.integers(1, 6))
    lim = st.one_of(st.lists(nice(-3, 3), min_size=m, max_size=m), nice(-3, 3))
    return dict(a=draw(lim), b=draw(lim), n=draw(st.integers(1, 12)), seed=draw(seeds()), full=draw(st.booleans()),
                two=draw(st.booleans()), kind=draw(st.sampled_from(['float', 'int', 'bool'])))


@sub('C20', cc(), quick=300)
def clenshaw_curtis(c):
    """non-trivial: polynomial of degree 2n on an interval of positive length"""
    r = rs(c['seed'])
    n = c['n']
    deg = 2 * n if c['full'] else r.randint(0, 2 * n + 1)
    coef = r.randint(-3, 4, size=deg + 1).astype(float)
    P = np.polynomial.polynomial.Polynomial(coef)
    a, b = np.asarray(c['a']), np.asarray(c['b'])
    if c['two'] and a.ndim:
        a = a.reshape(1, -1)
    if c['two'] and b.ndim:
        b = b.reshape(1, -1)
    f = {'float': P, 'int': lambda x: np.rint(0 * x + coef[0]).astype(int), 'bool': lambda x: x > -100}[c['kind']]
    Q = {'float': P.integ(), 'int': lambda x: coef[0] * x, 'bool': lambda x: 1.0 * x}[c['kind']]
    val, err = I().clencurt(f, a, b, n)
    shape = np.broadcast_shapes(np.atleast_1d(a).shape, np.atleast_1d(b).shape)
    A, B = np.broadcast_to(a, shape), np.broadcast_to(b, shape)
    M = np.maximum(np.abs(A), np.abs(B))
    scale = np.polynomial.polynomial.Polynomial(np.abs(coef))(np.maximum(M, 1)) * np.abs(B - A)
    v, e = arr(val), arr(err)
    check(v.size == A.size and e.size == A.size, 'number of values', v.shape, shape)
    if A.size > 1:
        check(v.shape == shape and e.shape == shape, 'shape', v.shape, shape)
    check(np.all(e >= 0), 'negative error estimate', e.tolist())
    close(v.ravel(), (Q(B) - Q(A)).ravel(), 1e-11, 1e-12 * scale.ravel() + 1e-14, 'clencurt of a polynomial of degree %d, n=%d' % (deg, n))
    if n >= 8 and c['kind'] == 'float':       # error estimate of a smooth function
        val, err = I().clencurt(np.exp, a, b, n)
        want = np.exp(B) - np.exp(A)
        tol = 1e-12 * np.exp(M)
        check(np.all(np.abs(arr(val).ravel() - want.ravel()) <= arr(err).ravel() + tol.ravel()), 'error estimate smaller than the error')
    return c['kind'] == 'float' and deg == 2 * n and bool(np.any(A != B))


# ------------------------------------------------------------------------------------------------ quadgr, romberg
FUN = {'exp': (lambda x: np.exp(-0.5 * x), lambda x: -2 * np.exp(-0.5 * x)),
       'cos': (lambda x: np.cos(1.3 * x), lambda x: np.sin(1.3 * x) / 1.3),
       'cubic': (lambda x: x ** 3 - 2 * x, lambda x: x ** 4 / 4 - x ** 2),
       'lor': (lambda x: 1 / (1 + x * x), np.arctan),
       'gauss': (lambda x: np.exp(-x * x), lambda x: sp.erf(x) * np.sqrt(np.pi) / 2),
       'one': (lambda x: np.ones(np.shape(x)), lambda x: 1.0 * x),
       'int': (lambda x: np.full(np.shape(x), 3), lambda x: 3.0 * x),
       'bool': (lambda x: np.isfinite(x), lambda x: 1.0 * x)}


@sub('C20', st.tuples(st.sampled_from(sorted(FUN)), nice(-3, 4), nice(-3, 4), st.sampled_from([1e-3, 1e-5, 1e-8, 1e-10]),
                      st.sampled_from(['finite', 'finite', 'a inf', 'inf b', 'inf inf', 'b a']), st.booleans()), quick=400)
def quadgr_values(c):
    """non-trivial: limits differ"""
    name, a, b, tol, kind, rev = c
    f, F = FUN[name]
    if 'inf' in kind:
        name = 'gauss' if name not in ('lor',) else name
        f, F = FUN[name]
        a = -np.inf if kind.startswith('inf') else a
        b = np.inf if kind in ('a inf', 'inf inf') else b
        if kind == 'a inf':
            a = min(a, 1.0)
        if kind == 'inf b':
            b = max(b, -1.0)
    if rev:
        a, b = b, a
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        val, err = I().quadgr(f, a, b, tol)
    check(np.shape(val) == () and np.shape(err) == (), 'quadgr returned an array')
    check(0 <= err < tol + 1e-13, 'error estimate', err, tol)
    want = F(b) - F(a)
    close(val, want, 1e-12, 5 * tol + 1e-12, 'quadgr %s %s' % (name, kind))
    return a != b and kind


@sub('C20', st.tuples(fl(-0.9, 3), nice(0.05, 4), st.sampled_from([1e-5, 1e-8]), st.booleans(), st.sampled_from(['power', 'complex', 'log'])), quick=150)
def quadgr_singular(c):
    """non-trivial: exponent below zero or complex path"""
    p, b, tol, rev, kind = c
    lim = (0.0, b)
    if kind == 'power':
        p = max(p, -0.75)
        f, want = (lambda x: x ** p), b ** (p + 1) / (p + 1)
    elif kind == 'log':
        f, want = np.log, b * np.log(b) - b
    else:
        lim = (0.0, b * 1j)
        f, want = np.exp, np.exp(b * 1j) - 1
    if rev and kind != 'complex':
        lim, want = lim[::-1], -want
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        val, err = I().quadgr(f, lim[0], lim[1], tol)
    close(val, want, 1e-9, 200 * tol, 'quadgr %s' % kind)
    return p < 0 or kind != 'power'


@sub('C20', st.tuples(st.sampled_from(['exp', 'cos', 'cubic', 'lor', 'one', 'int']), nice(-2, 3), st.one_of(fl(0.01, 5), st.sampled_from([1e-6, 0.25, 1.0, 2.0])), st.sampled_from([1e-3, 1e-6, 1e-9]), st.booleans()), quick=200)
def romberg_values(c):
    """non-trivial: always"""
    name, a, h, tol, rev = c
    f, F = FUN[name]
    b = a + h
    if rev:
        a, b = b, a
    val, err = I().romberg(f, a, b, tol, tol)
    check(np.size(val) == 1 and np.size(err) == 1, 'romberg returned several values')
    want = F(b) - F(a)
    close(np.ravel(val)[0], want, 10 * tol + 1e-12, 10 * tol + 1e-13, 'romberg %s' % name)
    check(np.ravel(err)[0] >= 0, 'negative error estimate')
    return True


@sub('C20', st.tuples(st.integers(1, 12), nice(-3, 3), fl(0.01, 4), st.lists(st.integers(-3, 3), min_size=1, max_size=6), st.booleans()), quick=150)
def boole_rule(c):
    """non-trivial: degree 4 or 5"""
    k, a, h, coef, rev = c
    x = np.linspace(a, a + h, 4 * k + 1)
    if rev:
        x = x[::-1]
    P = np.polynomial.polynomial.Polynomial([float(v) for v in coef])
    Q = P.integ()
    y = P(x)
    with unchanged('boole', x, y):
        v = I().boole(y, x)
    close(v, Q(x[-1]) - Q(x[0]), 1e-10, 1e-10 * (1 + np.max(np.abs(y)) * h), 'boole')
    return len(coef) > 4


@sub('C20', st.tuples(nice(-5, 5), fl(0.01, 4), fl(0.05, 0.9), st.booleans()), quick=100)
def richardson_limit(c):
    """non-trivial: always"""
    q, d, r, neg = c
    seq = np.array([q + d * r ** k for k in range(3)])
    if neg:
        seq = -seq
        q = -q
    want_c = max(1 / r - 1, 0.07)
    close(I().richardson(seq, 2), seq[2] + (seq[2] - seq[1]) / want_c, 1e-10, 1e-10, 'richardson')
    if 1 / r - 1 > 0.07:
        close(I().richardson(seq, 2), q, 1e-9, 1e-9 * d / (1 - r), 'limit of a geometric sequence')
    return True
