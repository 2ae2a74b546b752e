"""C22: interpolation and cubature at the Padua points (wafo.padua)."""
import numpy as np
from hypothesis import strategies as st

from core import sub, check, close, same, arr, unchanged
from gens import fl, seeds, nice, rs


def W():
    import wafo.padua as wp
    return wp


domains = st.one_of(st.just((-1.0, 1.0, -1.0, 1.0)), st.tuples(nice(-4, 4), fl(0.05, 5), nice(-4, 4), fl(0.05, 5)).map(
    lambda t: (t[0], t[0] + t[1], t[2], t[2] + t[3])))
degrees = st.one_of(st.integers(0, 8), st.integers(0, 30))


def poly(seed, n):
    """A polynomial in local coordinates (u, v) of total degree n; returns callable and its Chebyshev coefficients."""
    r = rs(seed)
    c = np.zeros((n + 1, n + 1))
    for i in range(n + 1):
        for j in range(n + 1 - i):
            c[i, j] = r.randint(-3, 4) / (1.0 + i + j)
    return c


def local(x, y, d):
    a, b, cc, e = d
    return (2 * x - a - b) / (b - a), (2 * y - cc - e) / (e - cc)


@sub('C22', st.tuples(degrees, domains), quick=150)
def points(c):
    """non-trivial: degree 2 or more"""
    n, d = c
    P = arr(W().padua_points(n, d))
    N = (n + 1) * (n + 2) // 2
    check(P.shape == (2, N), 'shape of the points', P.shape)
    if n == 0:
        u, v = local(P[0], P[1], d)
        check(abs(abs(u[0]) - 1) < 1e-12 and abs(abs(v[0]) - 1) < 1e-12, 'the point of degree 0 is a corner', P)
        return False
    a, b, cc, e = d
    want = [((a + b) / 2 + (b - a) / 2 * np.cos(j * np.pi / n), (cc + e) / 2 + (e - cc) / 2 * np.cos(k * np.pi / (n + 1)))
            for j in range(n + 1) for k in range(n + 2) if (j + k) % 2]
    order = lambda q: q[:, np.lexsort((np.round(q[1], 9), np.round(q[0], 9)))]
    scale = max(abs(v) for v in d)
    close(order(P), order(np.array(want).T), 1e-12, 1e-12 * scale, 'Padua points')
    return n > 1


@sub('C22', st.tuples(degrees, domains, seeds(), st.integers(0, 3), st.booleans()), quick=300)
def polynomials(c):
    """non-trivial: polynomial of degree n >= 2 on its own domain"""
    n, d, seed, less, extra = c
    wp = W()
    deg = max(n - less, 0)
    co = poly(seed, deg)
    cheb = np.polynomial.chebyshev

    def f(x, y, s=1.0):
        u, v = local(x, y, d)
        return s * cheb.chebval2d(u, v, co)
    P = wp.padua_points(n, d)
    s = 2.5 if extra else 1.0
    coef, err = wp.padua_fit(P, f, s) if extra else wp.padua_fit(P, f)
    coef = arr(coef)
    check(coef.shape == (n + 1, n + 1), 'shape of the coefficients', coef.shape)
    check(err >= 0, 'error estimate', err)
    # the orthonormal coefficients of a polynomial are its Chebyshev coefficients
    w = np.full(n + 1, 1 / np.sqrt(2.0))
    w[0] = 1.0
    want = np.zeros((n + 1, n + 1))
    want[:deg + 1, :deg + 1] = s * co
    mag = s * np.sum(np.abs(co)) + 1e-3
    close(coef, want * np.outer(w, w), 0, 1e-11 * mag, 'coefficients of a polynomial of degree %d, n=%d' % (deg, n))
    if deg < n - 2:
        check(err <= 1e-10 * mag, 'error estimate of a polynomial of low degree', err)
    r = rs(seed + 1)
    x = r.uniform(d[0], d[1], 7)
    y = r.uniform(d[2], d[3], 7)
    x[0], y[0] = d[0], d[3]
    with unchanged('padua_val', x, y, coef):
        v = wp.padua_val(x, y, coef, d)
    close(v, f(x, y, s), 0, 1e-10 * mag, 'value at scattered points')
    X, Y = x[:6].reshape(2, 3), y[:6].reshape(2, 3)
    close(wp.padua_val(X, Y, coef, d), f(X, Y, s), 0, 1e-10 * mag, 'value at a matrix of points')
    g = wp.padua_val(x, y[:4], coef, d, use_meshgrid=True)
    MX, MY = np.meshgrid(x, y[:4])
    close(g, f(MX, MY, s), 0, 1e-10 * mag, 'values on the mesh')
    close(np.ravel(wp.padua_val(float(x[1]), float(y[1]), coef, d)), [f(x[1], y[1], s)], 0, 1e-10 * mag, 'value at one point')
    t1 = np.array([0.0 if k % 2 else 2.0 / (1 - k * k) for k in range(deg + 1)])
    exact = s * t1.dot(co).dot(t1) * (d[1] - d[0]) * (d[3] - d[2]) / 4
    close(wp.padua_cubature(coef, d), exact, 0, 1e-10 * mag * (d[1] - d[0]) * (d[3] - d[2]), 'integral of the polynomial')
    return n > 1 and deg == n


@sub('C22', st.tuples(st.integers(1, 25), domains, seeds()), quick=150)
def interpolation(c):
    """non-trivial: degree 2 or more"""
    n, d, seed = c
    wp = W()
    P = wp.padua_points(n, d)
    z = rs(seed).uniform(-1, 1, P.shape[1])                # arbitrary values at the points
    coef, err = wp.padua_fit(P, lambda x, y: z)
    close(wp.padua_val(P[0], P[1], coef, d), z, 0, 1e-9 * n, 'interpolant at the Padua points')
    coef = np.asarray(coef)
    i, j = np.indices(coef.shape)
    check(np.all(coef[i + j > n] == 0), 'terms of degree above n')
    k = i + j
    top, three = (2 * np.sum(np.abs(coef[(k <= n) & (k >= m)])) for m in (n, n - 2))
    check(top * (1 - 1e-9) <= err <= three * (1 + 1e-9), 'error estimate %g, coefficients of the highest degrees %g to %g', err, top, three)
    if n >= 8:
        h = max(d[1] - d[0], d[3] - d[2])
        f = lambda x, y: np.exp((x - d[0] + y - d[2]) / h)
        co, e = wp.padua_fit(P, f)
        r = rs(seed + 1)
        x, y = r.uniform(d[0], d[1], 9), r.uniform(d[2], d[3], 9)
        close(wp.padua_val(x, y, co, d), f(x, y), 0, 10 * e + 1e-10, 'smooth function within its error estimate')
        I = h * h * (np.exp((d[1] - d[0]) / h) - 1) * (np.exp((d[3] - d[2]) / h) - 1)
        close(wp.padua_cubature(co, d), I, 0, (10 * e + 1e-10) * (d[1] - d[0]) * (d[3] - d[2]), 'integral of a smooth function')
    return n > 1
