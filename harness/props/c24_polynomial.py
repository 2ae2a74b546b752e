"""C24 polynomial tools: power, Chebyshev, orthogonal and rational forms."""
import math
from fractions import Fraction

import mpmath as mp
import numpy as np
import numpy.polynomial.chebyshev as nc
from hypothesis import strategies as st

import wafo.polynomial as wp
from core import sub, check, close, same, arr, fail, unchanged, raises
from gens import fl, nice, rs, seeds

small = st.one_of(st.integers(-9, 9), nice(-4, 4), st.just(0))
poly_ = st.lists(small, min_size=1, max_size=8)
interval = st.one_of(st.just((-1, 1)), st.just((0, 2)), st.just((0.0, 5.0)), st.tuples(nice(-4, 4), nice(0.1, 6)).map(lambda t: (t[0], t[0] + t[1])))


def ev(p, x):
    """exact Horner evaluation of decreasing coefficients"""
    r = Fraction(0)
    for c in p:
        r = r * Fraction(x) + Fraction(c)
    return float(r)


def mag(p, x):
    """sum |c_i| |x|^i: the scale of rounding errors"""
    r = 0.0
    for c in p:
        r = r * abs(x) + abs(c)
    return r


def form(p, how):
    """list, array, poly1d"""
    if how == 'list':
        return list(p)
    if how == 'poly1d':
        return wp.poly1d(p)
    return np.array(p)


HOW = st.sampled_from(['list', 'array', 'poly1d'])


@sub('C24', st.tuples(poly_, st.integers(0, 4), st.one_of(st.none(), small, st.lists(small, min_size=4, max_size=4)), HOW,
                      st.integers(0, 3)), quick=500)
def integrals_and_derivatives(t):
    """non-trivial: order >= 1 and degree >= 1; m-fold antiderivative with given constants, derivative, matrices of columns"""
    p, m, k, how, cols = t
    kk = [0] * m if k is None else ([k] * m if not isinstance(k, list) else k[:m])
    if isinstance(k, list) and m == 0:
        k = kk = None
    arg = k if not isinstance(k, list) else k[:m]
    if m == 0:
        arg, kk = None, []
    P = wp.polyint(form(p, how), m, arg)
    check(isinstance(P, wp.poly1d) == (how == 'poly1d'), 'type of polyint', type(P))
    ref = [Fraction(c) for c in p]
    for j in range(m):
        n = len(ref)
        ref = [c / (n - i) for i, c in enumerate(ref)] + [Fraction(kk[j])]
    got = arr(getattr(P, 'coeffs', P))
    if how == 'poly1d':
        ref = list(wp.poly1d([float(r) for r in ref]).coeffs)
    close(got, [float(r) for r in ref], 1e-12, 1e-14, 'polyint')
    D = wp.polyder(form(p, how), m)
    ref = [Fraction(c) for c in p]
    for _ in range(m):
        n = len(ref) - 1
        ref = [c * (n - i) for i, c in enumerate(ref[:-1])]
    ref = [float(r) for r in ref]
    if how == 'poly1d':
        ref = list(wp.poly1d(ref).coeffs)
    close(getattr(D, 'coeffs', D), ref, 1e-12, 0, 'polyder')
    if cols:
        M = np.array([[(c + 1) * v - c for c in range(cols)] for v in p], dtype=float)
        PM = wp.polyint(M, m, arg)
        DM = wp.polyder(M, m)
        for c in range(cols):
            close(PM[:, c], wp.polyint(M[:, c], m, arg), 1e-13, 1e-14, 'polyint of columns')
            close(DM[:, c], wp.polyder(M[:, c], m), 1e-13, 0, 'polyder of columns')
    raises(lambda: wp.polyint(p, -1), 'negative order of integral', ValueError)
    raises(lambda: wp.polyder(p, -1), 'negative order of derivative', ValueError)
    if m >= 2:
        raises(lambda: wp.polyint(p, m + 1, [1] * m), 'too few integration constants', ValueError)
    return m > 0 and len(p) > 1


@sub('C24', st.tuples(poly_, nice(-3, 3), st.one_of(st.just(0), nice(-3, 3)), st.one_of(nice(0.2, 4), st.integers(1, 3), nice(-3, -0.3)),
                      nice(-3, 3), interval, st.sampled_from(['list', 'array', 'poly1d', 'matrix', 'int']),
                      st.lists(nice(-2, 2), min_size=1, max_size=4)), quick=600)
def moving_scaling_and_mapping(t):
    """non-trivial: degree >= 1; polyreloc, polyrescl, polyshift, polyishift and the interval maps as statements about values"""
    p, dx, dy, sx, sy, (a, b), how, xs = t
    if how == 'int':
        p = [int(round(c)) for c in p]
        q = np.array(p)
    elif how == 'matrix':
        q = np.array([[c, -2.0 * c + 1] for c in p])
    else:
        q = form(p, how)
    cols = [p] if how != 'matrix' else [list(q[:, 0]), list(q[:, 1])]
    inp = [q] if isinstance(q, np.ndarray) else []

    def values(r, x):
        r = arr(getattr(r, 'coeffs', r))
        return [ev(np.atleast_2d(r.T)[j].tolist(), x) for j in range(len(cols))]

    with unchanged('a polynomial transformation', *inp):
        r1 = wp.polyreloc(q, dx, dy)
        r2 = wp.polyrescl(q, sx, sy)
        r3 = wp.polyshift(q, a, b)
        r4 = wp.polyishift(q, a, b)
        r5 = wp.polyreloc(q, dx)
    if how == 'poly1d':
        check(all(isinstance(r, wp.poly1d) for r in (r1, r2, r3, r4)), 'poly1d is kept')
    m, h = 0.5 * (a + b), 0.5 * (b - a)
    for x in xs:
        for j, c in enumerate(cols):
            def ok(name, got, want, scale):
                check(abs(got[j] - want) <= 1e-12 * (1 + scale), name, x, got[j], want)
            v = ev(c, x)
            ok('polyreloc', values(r1, x + dx), ev(c, Fraction(x + dx) - Fraction(dx)) + dy, mag(c, abs(x) + 2 * abs(dx)) * 8)
            ok('polyreloc', values(r5, x + dx), ev(c, Fraction(x + dx) - Fraction(dx)), mag(c, abs(x) + 2 * abs(dx)) * 8)
            ok('polyrescl', values(r2, sx * x), sy * ev(c, Fraction(sx * x) / Fraction(sx)), abs(sy) * mag(c, x) * 8)
            # polyshift: from y on [-1, 1] to x on [a, b]; polyishift: the other way
            ok('polyshift', values(r3, m + h * x), v, mag(c, abs(x) + 2 * abs(m / h) + 2) * 30)
            ok('polyishift', values(r4, x), ev(c, m + h * x), mag(c, abs(h * x) + 2 * abs(m) + 2) * 30)
    x = np.array(xs)
    close(wp.map_to_interval(x, a, b), m + h * x, 1e-13, 1e-13 * (abs(m) + abs(h)), 'map_to_interval')
    close(wp.map_from_interval(m + h * x, a, b), x, 1e-12, 1e-12 * (1 + abs(m) / h), 'map_from_interval')
    close(wp.map_to_interval(np.array([-1., 1.]), a, b), [a, b], 1e-14, 1e-14 * (abs(a) + abs(b)), 'ends')
    return len(p) > 1


@sub('C24', st.tuples(st.lists(small, min_size=1, max_size=8), st.integers(0, 3), st.sampled_from(['x', 's', 'tt']), HOW,
                      st.lists(st.sampled_from([-2, -1, 1, 2, 3, 0.5]), min_size=1, max_size=3)), quick=600)
def polynomials_as_text(t):
    """non-trivial: two or more terms; the strings evaluate to the polynomial (poly2str: coefficients to four digits)"""
    p, lead, var, how, xs = t
    p = [0] * lead + p
    q = form(p, how)
    trimmed = wp.polytrim(q)
    w = list(p)
    while w and w[0] == 0:
        w = w[1:]
    if how != 'poly1d':
        check(arr(trimmed).tolist() == w, 'polytrim', p, trimmed)
        M = np.array([[0, c, 0] for c in p])
        check(np.array_equal(wp.polytrim(M), M[len(p) - len(w):]), 'polytrim of columns', p)
    s, hs = wp.poly2str(q, var), wp.poly2hstr(q, var)
    for x in xs:
        env = {var: float(x)}
        try:
            v, hv = eval(s, {}, env), eval(hs, {}, env)
        except (SyntaxError, NameError) as e:
            fail('not an expression in %s: %r %r (%s)' % (var, s, hs, e))
        r4 = [float('%.4g' % c) for c in p]
        check(abs(v - ev(r4, x)) <= 1e-11 * (1e-30 + mag(r4, float(x))), 'poly2str', s, p, x, v)
        check(abs(hv - ev(p, x)) <= 1e-11 * (1e-30 + mag(p, float(x))), 'poly2hstr', hs, p, x, hv)
    return sum(c != 0 for c in p) > 1


def T(k, x, kind=1):
    """Chebyshev polynomial by its trigonometric definition or recurrence, in extended precision"""
    x = mp.mpf(float(x))
    a, b = mp.mpf(1), kind * x
    for _ in range(k):
        a, b = b, 2 * x * b - a
    return a


def cheb(ck, y, kind=1):
    n = len(ck) - 1
    return float(sum(mp.mpf(float(c)) * T(n - i, y, kind) for i, c in enumerate(ck)))


@sub('C24', st.tuples(st.lists(nice(-3, 3), min_size=1, max_size=10), interval, st.sampled_from([1, 2]),
                      st.one_of(st.none(), st.integers(-2, 2), nice(-2, 2), st.just(float('nan'))),
                      st.lists(nice(-1.5, 1.5), min_size=1, max_size=6), st.sampled_from(['scalar', '1d', '2d'])), quick=500)
def chebyshev_evaluation(t):
    """non-trivial: degree >= 2; chebval of both kinds on [a, b], fill outside"""
    ck, (a, b), kind, fill, ys, shape = t
    m, h = 0.5 * (a + b), 0.5 * (b - a)
    x = m + h * np.array(ys)
    if shape == 'scalar':
        x = x[0]
    elif shape == '2d':
        x = np.vstack([x, x])
    got = arr(wp.chebval(x, ck, a, b, kind=kind, fill=fill))
    check(got.shape == np.atleast_1d(x).shape, 'shape of chebval', got.shape)
    for xi, g in zip(np.ravel(x), got.ravel()):
        y = (xi - m) / h
        if fill is not None and abs(abs(y) - 1) < 1e-12 and abs(y) != 1:
            continue
        if fill is not None and abs(y) > 1:
            check(g == fill or (fill != fill and g != g), 'fill outside the interval', xi, g, fill)
            continue
        yf = (Fraction(float(xi)) - Fraction(float(m))) / Fraction(float(h)) if False else y
        sc = sum(abs(c) for c in ck) * (1 if abs(y) <= 1 else max(1.0, float(abs(T(len(ck), abs(y), 2))))) * (1 + len(ck)) * (1 + abs(m) / h)
        check(abs(g - cheb(ck, yf, kind)) <= 1e-12 * (1 + sc * len(ck)), 'chebval', xi, g, cheb(ck, yf, kind))
    return len(ck) > 2


@sub('C24', st.tuples(st.integers(0, 30), st.sampled_from([1, 2]), st.lists(nice(-1, 1), min_size=1, max_size=5)), quick=150)
def chebyshev_polynomials(t):
    """non-trivial: degree >= 2; coefficients, values, roots and extremes of the Chebyshev polynomials of both kinds"""
    n, kind, xs = t
    ref = [1] if n == 0 else None
    p0, p1 = [1], [kind, 0]
    for _ in range(n):
        q = [2 * c for c in p1] + [0]
        for i, c in enumerate(reversed(p0)):
            q[-1 - i] -= c
        p0, p1 = p1, q
    ref = np.array(p0, float)
    co = arr(wp.chebpoly(n, kind=kind))
    check(co.shape == (n + 1,), 'length of chebpoly', co.shape)
    close(co, ref, 1e-9, 1e-9 * np.max(np.abs(ref)) if n > 15 else 0, 'coefficients of chebpoly')
    vals = arr(wp.chebpoly(n, xs, kind=kind))
    close(vals, [float(T(n, x, kind)) for x in xs], 1e-11, 1e-11 * (1 + n) ** 2, 'values of chebpoly')
    if n > 0:
        r = arr(wp.chebroot(n, kind))
        check(r.shape == (n,) and np.all(np.diff(r) > 0) and np.all(np.abs(r) < 1), 'roots', r)
        i = np.arange(1, n + 1)
        want = np.sort(np.cos((2 * i - 1) * np.pi / (2 * n) if kind == 1 else i * np.pi / (n + 1)))
        close(r, want, 0, 1e-14, 'roots')
        e = arr(wp.chebextr(n))
        close(e, -np.cos(np.arange(n + 1) * np.pi / n), 0, 1e-14, 'extremes')
        close(wp.chebpoly(n, e), (-1.0) ** (n - np.arange(n + 1)), 1e-10, 0, 'values at the extremes')
    raises(lambda: wp.chebroot(4, 3), 'Chebyshev polynomials of kind 3', ValueError)
    return n > 1


@sub('C24', st.tuples(st.lists(nice(-3, 3), min_size=1, max_size=10), interval, st.lists(nice(-1, 1), min_size=1, max_size=4)), quick=400)
def power_and_chebyshev_forms(t):
    """non-trivial: degree >= 2; poly2cheb and cheb2poly keep the polynomial and invert each other"""
    p, (a, b), ys = t
    m, h = 0.5 * (a + b), 0.5 * (b - a)
    f = wp.poly1d(p)
    ck = arr(wp.poly2cheb(p, a, b))
    check(len(ck) == len(f.coeffs), 'length of poly2cheb', len(ck))
    amp = mag(p, max(abs(a), abs(b)))
    for y in ys:
        x = m + h * y
        check(abs(cheb(ck, y) - ev(p, x)) <= 1e-12 * (1 + amp) * 10, 'poly2cheb', y, cheb(ck, y), ev(p, x))
    if len(p) <= 8:
        back = arr(wp.cheb2poly(ck, a, b))
        for y in ys:
            x = m + h * y
            tol = 1e-11 * (1 + amp) * (2 * (1 + (abs(m) + h) / h)) ** max(len(p) - 1, 0)
            if tol < 1e-3 * (1 + amp):
                check(abs(ev(back.tolist(), x) - ev(p, x)) <= tol, 'cheb2poly(poly2cheb(p))', x)
        q = arr(wp.cheb2poly(np.array(p), a, b))
        check(q.size <= len(p), 'length of cheb2poly')
        for y in ys:
            tol = 1e-11 * (1 + sum(map(abs, p))) * (2 * (1 + (abs(m) + h) / h)) ** max(len(p) - 1, 0)
            if tol < 1e-3:
                check(abs(ev(q.tolist(), m + h * y) - cheb(p, y)) <= tol, 'cheb2poly', y)
    return len(p) > 2


@sub('C24', st.tuples(st.integers(1, 14), interval, st.lists(nice(-3, 3), min_size=1, max_size=10), st.sampled_from(['exp', 'sin', 'poly', 'values']),
                      nice(0.2, 1.5)), quick=300)
def chebyshev_interpolation(t):
    """non-trivial: n >= 3; chebfit, chebfit_dct and chebinterpolate give the interpolant at the Chebyshev nodes"""
    n, (a, b), p, kind, w = t
    m, h = 0.5 * (a + b), 0.5 * (b - a)
    f = {'exp': lambda x: np.exp(w * x / (abs(a) + abs(b))), 'sin': lambda x: np.sin(w * x)}.get(kind, lambda x: np.polyval(p, x))
    nodes = -np.cos(np.pi * (np.arange(n) + 0.5) / n)
    fv = f(m + h * nodes)
    ck = arr(wp.chebfit(f, n, a, b) if kind != 'values' else wp.chebfit(fv))
    check(len(ck) == n, 'number of coefficients', len(ck))
    sc = 1 + np.max(np.abs(fv))
    close(nc.chebval(nodes, ck[::-1]), fv, 0, 1e-12 * sc * (1 + n) * (1 + abs(m) / h), 'interpolation at the nodes')
    close(wp.chebval(m + h * nodes, ck, a, b), fv, 0, 1e-12 * sc * (1 + n) ** 2 * (1 + abs(m) / h), 'chebval of chebfit')
    c1 = arr(wp.chebfit_dct(f, n, (a, b)))
    close(c1, ck[::-1], 0, 1e-12 * sc * (1 + n), 'chebfit_dct is chebfit with ascending coefficients')
    close(wp.chebfit_dct(fv), ck[::-1], 0, 1e-12 * sc * (1 + n), 'chebfit_dct of values')
    g = lambda x, u, v: u * f(m + h * x) + v     # noqa
    ci = arr(wp.chebinterpolate(g, n - 1, args=(2.0, 0.5)))
    want = 2.0 * ck[::-1]
    want[0] += 0.5
    close(ci, want, 0, 1e-12 * sc * (1 + n), 'chebinterpolate')
    return n > 2


@sub('C24', st.tuples(st.lists(nice(-3, 3), min_size=1, max_size=10), interval, st.integers(1, 3), st.lists(nice(-1, 1), min_size=1, max_size=4),
                      st.lists(nice(-3, 3), min_size=1, max_size=10), nice(-3, 3)), quick=400)
def chebyshev_calculus_and_objects(t):
    """non-trivial: degree >= 2; chebder, chebint and Cheb1d agree with calculus on the polynomial itself"""
    ck, (a, b), m, ys, c2, s = t
    mid, h = 0.5 * (a + b), 0.5 * (b - a)
    low = np.array(ck[::-1])
    y = np.array(ys)
    x = mid + h * y
    P = nc.cheb2poly(low)                   # ascending power series in y
    dP = np.polynomial.polynomial.polyder(P) / h
    iP = np.polynomial.polynomial.polyint(P, lbnd=-1) * h
    pv = np.polynomial.polynomial.polyval
    amp = 1 + sum(map(abs, ck))
    with unchanged('chebder/chebint', low):
        d, I = wp.chebder(ck, a, b), wp.chebint(ck, a, b)
    shift = 1 + abs(mid) / h
    close(wp.chebval(x, d, a, b), pv(y, dP), 0, 1e-9 * amp * (1 + 1 / h) * shift, 'chebder')
    close(wp.chebval(x, I, a, b), pv(y, iP), 0, 1e-9 * amp * (1 + h) * shift, 'chebint')
    close(wp.chebval(a, I, a, b), [0.0], 0, 1e-10 * amp * (1 + h) * shift, 'chebint is zero at a')
    dd = arr(wp.chebder(I, a, b))
    close(nc.chebval(y, dd[::-1]), pv(y, P), 0, 1e-10 * amp * shift, 'the derivative of the integral')

    f, g = wp.Cheb1d(ck, a, b), wp.Cheb1d(c2, a, b)
    fx, gx = nc.chebval(y, low), nc.chebval(y, np.array(c2[::-1]))
    tol = 1e-10 * (amp + sum(map(abs, c2)) + abs(s)) * shift
    close(f(x), fx, 0, tol, 'Cheb1d value')
    close((f + g)(x), fx + gx, 0, tol, 'sum')
    close((f - g)(x), fx - gx, 0, tol, 'difference')
    close((-f)(x), -fx, 0, tol, 'negative')
    close((f + s)(x), fx + s, 0, tol, 'sum with a number')
    close((s + f)(x), fx + s, 0, tol, 'number plus')
    close((s - f)(x), s - fx, 0, tol, 'number minus')
    close((f - s)(x), fx - s, 0, tol, 'minus number')
    close(wp.chebval(x, arr(f.deriv().coeffs), a, b), pv(y, dP), 0, 1e-9 * amp * (1 + 1 / h) * shift, 'deriv')
    F = f.integ(m)
    G = f
    for _ in range(m):
        G = G.integ()
    close(F(x), G(x), 0, tol * (1 + h) ** m, 'integ(m) is repeated integ')
    for _ in range(m):
        G = G.deriv()
    close(G(x), fx, 0, tol * (1 + h) ** m * (1 + 1 / h) ** m * 10, 'deriv undoes integ')
    close(F.deriv(m)(x), fx, 0, tol * (1 + h) ** m * (1 + 1 / h) ** m * 10, 'deriv(m) undoes integ(m)')
    u = wp.Cheb1d(f)
    check(u == f and not (u != f), 'a copy is equal')
    k = f.order
    check(f.order == len(f.coeffs) - 1, 'order')
    before = np.array(f.coeffs, copy=True)
    if k >= 0:
        u[0] = float(f[0]) + 1.5
        check(np.array_equal(f.coeffs, before), 'changing a copy changed the original')
        check(u != f and not (u == f), 'a changed copy is different')
    check((f == g) == (list(f.coeffs) == list(g.coeffs)), 'equality', ck, c2)
    w = wp.Cheb1d(ck, a, b + 1)
    check(f != w, 'other interval is different')
    zero = wp.Cheb1d([0, 0] + list(ck), a, b)
    close(zero(x), fx, 0, tol, 'leading zeros')
    return len(ck) > 2


@sub('C24', st.tuples(st.lists(st.integers(1, 6), min_size=1, max_size=3), seeds(), st.lists(interval, min_size=3, max_size=3),
                      nice(0.2, 2)), quick=250)
def chebyshev_series_in_several_variables(t):
    """non-trivial: two or more variables; chebfit_dct recovers the series, chebvalnd, chebgridnd and chebvandernd evaluate it"""
    n, seed, dom, arg = t
    r = rs(seed)
    nd = len(n)
    c = np.round(r.uniform(-2, 2, n), 3)
    dom = dom[:nd]

    def f(*x):
        x, extra = x[:nd], x[nd:]
        V = [nc.chebvander((xi - 0.5 * (a + b)) / (0.5 * (b - a)), k - 1) for xi, k, (a, b) in zip(x, n, dom)]
        v = c
        res = np.zeros(np.shape(x[0]))
        for ix in np.ndindex(*n):
            term = c[ix]
            for d in range(nd):
                term = term * V[d][..., ix[d]]
            res = res + term
        return res * (extra[0] if extra else 1.0)

    domain = [v for d in dom for v in d]
    shift = max(1 + abs(a + b) / (b - a) for a, b in dom)
    got = arr(wp.chebfit_dct(f, n, domain))
    close(got, c, 0, 1e-11 * (1 + np.sum(np.abs(c))) * shift, 'chebfit_dct')
    got = arr(wp.chebfit_dct(f, n, domain, args=(arg,)))
    close(got, arg * c, 0, 1e-11 * (1 + np.sum(np.abs(c))) * shift, 'chebfit_dct with args')
    pts = [np.round(r.uniform(-1, 1, 7), 3) for _ in range(nd)]
    V = [nc.chebvander(x, k - 1) for x, k in zip(pts, n)]
    ref = np.zeros(7)
    for ix in np.ndindex(*n):
        ref += c[ix] * np.prod([V[d][:, ix[d]] for d in range(nd)], axis=0)
    tol = 1e-12 * (1 + np.sum(np.abs(c)))
    close(wp.chebvalnd(c, *pts), ref, 0, tol, 'chebvalnd')
    W = arr(wp.chebvandernd([k - 1 for k in n], *pts))
    check(W.shape == (7, c.size), 'shape of chebvandernd', W.shape)
    close(W.dot(c.ravel()), ref, 0, tol, 'chebvandernd')
    gp = [x[:2 + d] for d, x in enumerate(pts)]
    G = arr(wp.chebgridnd(c, *gp))
    check(G.shape == tuple(len(x) for x in gp), 'shape of chebgridnd', G.shape)
    close(G, arr(wp.chebvalnd(c, *[m.ravel() for m in np.meshgrid(*gp, indexing='ij')])).reshape(G.shape), 0, tol, 'chebgridnd')
    raises(lambda: wp.chebvandernd([k - 1 for k in n] + [1], *pts), 'one degree too many', ValueError)
    raises(lambda: wp.chebvandernd([-1] * nd, *pts), 'negative degree', ValueError)
    return nd > 1


@sub('C24', st.tuples(st.lists(st.integers(0, 3), min_size=1, max_size=2), seeds(), st.sampled_from(['none', 'ones', 'random', 'zeros']),
                      st.booleans(), st.booleans()), quick=250)
def weighted_chebyshev_fits(t):
    """non-trivial: unequal weights; chebfitnd minimises the weighted sum of squares (normal equations)"""
    deg, seed, weights, full, exact = t
    r = rs(seed)
    nd = len(deg)
    shape = (25,) if nd == 1 else (6, 7)
    xi = [r.uniform(-1, 1, shape) for _ in range(nd)]
    order = int(np.prod([d + 1 for d in deg]))
    V = np.ones(shape + (1,))
    for x, d in zip(xi, deg):
        V = (V[..., :, None] * nc.chebvander(x, d)[..., None, :]).reshape(shape + (-1,))
    V = V.reshape(-1, order)
    c0 = r.uniform(-2, 2, order)
    f = V.dot(c0) + (0 if exact else r.normal(0, 1, V.shape[0]))
    w = {'none': None, 'ones': np.ones(V.shape[0])}.get(weights, r.uniform(0.1, 2, V.shape[0]))
    if weights == 'zeros':
        w[r.choice(len(w), 5, replace=False)] = 0
        f = np.where(w == 0, f + 100, f)
    got = wp.chebfitnd(tuple(xi), f.reshape(shape), deg, full=full, w=w if w is None else (w if nd == 1 else w.reshape(shape)))
    ww = np.ones(V.shape[0]) if w is None else w
    A = V * ww[:, None]
    ref = np.linalg.lstsq(A, f * ww, rcond=None)[0]
    if np.linalg.cond(A) > 1e6:
        return None
    if full:
        check(len(got) == 2 and len(got[1]) == 4, 'full output')
        got, (res, rank, sv, rc) = got
        check(rank == order, 'rank', rank, order)
        if np.size(res):
            close(np.ravel(res)[0], np.sum((A.dot(ref) - f * ww) ** 2), 1e-6, 1e-8, 'sum of squared residuals')
    close(got, ref.reshape([d + 1 for d in deg]), 1e-7, 1e-8, 'least squares coefficients')
    return weights in ('random', 'zeros')


@sub('C24', st.tuples(st.integers(3, 40), st.integers(0, 8), seeds(), st.sampled_from(['uniform', 'random', 'shifted']), st.booleans()), quick=400)
def orthogonal_polynomial_fits(t):
    """non-trivial: degree >= 2; orthofit is the least squares fit, orthoval and ortho2poly evaluate it"""
    N, n, seed, where_, exact = t
    r = rs(seed)
    n = min(n, N - 1)
    x = np.linspace(0, 10, N) if where_ == 'uniform' else (np.sort(r.uniform(-1, 1, N)) if where_ == 'random' else 100 + np.linspace(0, 2, N))
    if np.min(np.diff(x)) < 1e-3:
        return None
    y = np.polyval(r.uniform(-1, 1, n + 1), (x - x[0]) / (x[-1] - x[0])) + (0 if exact else r.normal(0, 0.3, N))
    p = wp.orthofit(x, y, n)
    ys = arr(wp.orthoval(p, x))
    check(ys.shape == x.shape, 'shape of orthoval')
    u = 2 * (x - x[0]) / (x[-1] - x[0]) - 1
    V = nc.chebvander(u, n)
    cond = np.linalg.cond(V)
    if cond > 1e5:
        return None
    ref = V.dot(np.linalg.lstsq(V, y, rcond=None)[0])
    tol = 1e-9 * (1 + np.max(np.abs(y))) * (1 + cond)
    close(ys, ref, 0, tol, 'the fitted values are the least squares fit')
    x1 = x[0] + (x[-1] - x[0]) * np.array([[0.1, 0.35], [0.5, 0.98]])
    got = arr(wp.orthoval(p, x1))
    cf = np.linalg.lstsq(V, y, rcond=None)[0]
    close(got, nc.chebval(2 * (x1 - x[0]) / (x[-1] - x[0]) - 1, cf), 0, tol * 10, 'between the data')
    if n <= 6 and where_ != 'shifted':
        q = np.atleast_1d(wp.ortho2poly(p))
        close(np.polyval(q, x), ref, 0, 1e-7 * (1 + np.max(np.abs(y))) * (1 + cond), 'ortho2poly')
    return n > 1


@sub('C24', st.tuples(st.integers(15, 60), st.integers(0, 5), seeds(), nice(0.02, 0.5)), quick=150)
def optimal_degree(t):
    """non-trivial: optimum above zero; polydeg minimises the small sample Akaike criterion over the degrees it scans"""
    N, n0, seed, noise = t
    r = rs(seed)
    x = np.linspace(-1, 1, N) + 0.3 / N * r.uniform(-1, 1, N)
    y = np.polyval(r.uniform(-1, 1, n0 + 1) * 2, x) + noise * r.normal(0, 1, N)

    def aic(n):
        V = nc.chebvander(x, n)
        rss = np.sum((V.dot(np.linalg.lstsq(V, y, rcond=None)[0]) - y) ** 2)
        return 2 * (n + 1) * (1 + (n + 2) / (N - n - 2)) + N * (np.log(2 * np.pi * rss / N) + 1)
    best, a0, nit, n = 0, aic(0), 0, 1
    margins = []
    while nit < 8 and n < min(N - 3, 40):
        v = aic(n)
        margins.append(abs(v - a0))
        if v < a0:
            best, a0, nit = n, v, 0
        else:
            nit += 1
        n += 1
    if nit < 8 or min(margins) < 1e-6:
        return None
    got = wp.polydeg(x, y)
    check(got == best, 'polydeg', got, best, N)
    return best > 0


@sub('C24', st.tuples(st.lists(nice(-2, 2), min_size=1, max_size=4), st.lists(nice(-0.9, 0.9), min_size=0, max_size=3), st.integers(0, 3), st.booleans(),
                      st.booleans(), st.sampled_from([(-1, 1), (0, 0.9), (-0.5, 0.7)]), st.sampled_from(['callable', 'vectors', 'long vectors'])), quick=400)
def rational_approximation(t):
    """non-trivial: denominator of degree >= 1; padefit matches the series, padefitlsq recovers rational functions"""
    num, den, m0, default, endp, (a, b), how = t
    den = [0.3 * d for d in den] + [1.0]     # positive on [-1, 1]
    if sum(abs(d) for d in den[:-1]) > 0.85:
        return None
    k, m = len(den) - 1, len(num) - 1
    # Taylor series of num/den, ascending
    L = m + k + 1 + m0
    ser = [Fraction(0)] * L
    nu, de = [Fraction(v) for v in num[::-1]], [Fraction(v) for v in den[::-1]]
    for i in range(L):
        s = nu[i] if i < len(nu) else Fraction(0)
        for j in range(1, min(i, k) + 1):
            s -= de[j] * ser[i - j]
        ser[i] = s / de[0]
    c = np.array([float(s) for s in ser])[::-1]
    order = int((len(c) - 1) * 0.5) if default else min(k, len(c) - 1)
    try:
        p, q = wp.padefit(c) if default else wp.padefit(c, order)
    except np.linalg.LinAlgError:
        p = None                # the approximant of this order does not exist (singular system)
    if p is not None:
        check(p.order <= len(c) - 1 - order and q.order <= order, 'orders of padefit', p.order, q.order)
        C = np.array([[c[::-1][len(c) - 1 - order + i - j] if len(c) - 1 - order + i - j >= 0 else 0.0 for j in range(1, order + 1)]
                      for i in range(1, order + 1)])
        if order == 0 or np.linalg.cond(C) < 1e8:
            # q*c - p vanishes up to the degree of the series
            prod = np.convolve(np.asarray(q.coeffs)[::-1], c[::-1])[:len(c)]
            pp = np.zeros(len(c))
            pp[:len(p.coeffs)] = np.asarray(p.coeffs)[::-1][:len(c)]
            sc = 1 + np.sum(np.abs(q.coeffs)) * np.sum(np.abs(c))
            close(prod, pp, 0, 1e-7 * sc, 'padefit: q*series - p is of higher degree')
            check(abs(q(0) - 1) < 1e-12, 'denominator is one at zero')

    def f(x):
        return np.polyval(num, x) / np.polyval(den, x)
    npt = 8 * (m + k + 1)
    if how == 'callable':
        c1, c2 = wp.padefitlsq(f, m, k, a, b, end_points=endp)
    else:
        x = np.linspace(a, b, npt + (0 if how == 'vectors' else 9))
        c1, c2 = wp.padefitlsq(f(x), m, k, a, b, x=x)
    xs = np.linspace(a, b, 11)
    with np.errstate(all='ignore'):
        got = np.polyval(c1.coeffs, xs) / np.polyval(c2.coeffs, xs)
    if num == [0.0] * len(num):
        return None
    # common factors make the denominator free; otherwise the rational function itself comes back
    close(got, f(xs), 0, 1e-6 * (1 + np.max(np.abs(f(xs)))), 'padefitlsq')
    return k > 0


@sub('C24', st.tuples(st.integers(1, 12), st.integers(0, 3), seeds(), st.one_of(st.none(), st.integers(1, 15))), quick=200)
def cosine_transform_pair(t):
    """non-trivial: more than two values; idct(dct(x)) == x for every length, also along the last axis of matrices"""
    n, rows, seed, pad = t
    r = rs(seed)
    x = r.normal(0, 1, (rows, n) if rows else n)
    close(wp.idct(wp.dct(x)), x, 1e-11, 1e-12, 'idct(dct(x))')
    close(wp.dct(wp.idct(x)), x, 1e-11, 1e-12, 'dct(idct(x))')
    if pad:
        y = np.zeros(x.shape[:-1] + (pad,))
        k = min(pad, n)
        y[..., :k] = x[..., :k]
        close(wp.idct(x, pad), wp.idct(y), 1e-11, 1e-12, 'idct(x, n) pads or truncates')
    return n > 2
