"""C25 interpolation: slopes, Stineman, Hermite and smoothing splines, piecewise polynomials, Savitzky-Golay windows."""
import math

import numpy as np
import scipy.interpolate as si
from hypothesis import strategies as st

import wafo.interpolate as wi
from core import sub, check, close, same, arr, fail, unchanged, raises
from gens import fl, nice, rs, seeds

METHODS = ['Catmull-Rom', 'Cardinal', 'parabola', 'secant', 'akima', 'pchip', 'stineman', 'steffen', 'fritsch-carlson']


@st.composite
def data(draw, nmin=2, nmax=9, mono=None):
    n = draw(st.integers(nmin, nmax))
    dx = draw(st.lists(nice(0.1, 3), min_size=n - 1, max_size=n - 1))
    x0 = draw(st.sampled_from([0.0, -2.0, 5.0]))
    kind = draw(st.sampled_from(['float', 'int', 'steps', 'line', 'mono', 'drop'])) if mono is None else draw(st.sampled_from(['mono', 'drop']))
    if kind == 'float':
        y = draw(st.lists(nice(-5, 5), min_size=n, max_size=n))
    elif kind == 'int':
        y = draw(st.lists(st.integers(-3, 3), min_size=n, max_size=n))
    elif kind == 'steps':
        y = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
    elif kind == 'line':
        a, b = draw(nice(-3, 3)), draw(nice(-3, 3))
        y = [a + b * v for v in np.r_[x0, x0 + np.cumsum(dx)]]
    else:
        s = draw(st.lists(st.one_of(st.just(0.0), nice(0, 4), st.integers(0, 3).map(float), st.just(20.0)), min_size=n - 1, max_size=n - 1))
        y = np.r_[0, np.cumsum(s)] * (1 if kind == 'mono' else -1) + draw(nice(-2, 2))
    x = np.r_[x0, x0 + np.cumsum(dx)]
    return [float(v) for v in x], [float(v) for v in y], kind


def ref_slopes(x, y, method, tension):
    n = len(x)
    h = np.diff(x)
    s = np.diff(y) / h
    d = np.zeros(n)
    m = method[:3].lower()
    if n == 2:
        d[:] = s[0] * ((1 - tension) if m == 'car' else 1)
        return d
    for k in range(1, n - 1):
        a, b, ha, hb = s[k - 1], s[k], h[k - 1], h[k]
        if m in ('cat', 'car'):
            d[k] = (y[k + 1] - y[k - 1]) / (x[k + 1] - x[k - 1])
        elif m == 'sec':
            d[k] = 0.5 * (a + b)
        elif m == 'par':
            d[k] = (a * hb + b * ha) / (ha + hb)
        elif m in ('pch', 'fri'):
            d[k] = 0.0 if a * b <= 0 else 3 * (ha + hb) / ((2 * hb + ha) / a + (hb + 2 * ha) / b)
        elif m == 'ste':
            p = (a * hb + b * ha) / (ha + hb)
            d[k] = (np.sign(a) + np.sign(b)) * min(abs(a), abs(b), 0.5 * abs(p))
        elif m == 'sti':
            # slope of the circle through three points
            wa, wb = ha ** 2 + (a * ha) ** 2, hb ** 2 + (b * hb) ** 2
            d[k] = ((y[k] - y[k - 1]) * wb + (y[k + 1] - y[k]) * wa) / (ha * wb + hb * wa)
    ends = ((0, 1, s[0], s[1], h[0], h[1]), (n - 1, n - 2, s[-1], s[-2], h[-1], h[-2]))
    for i, j, a, b, ha, hb in ends:
        if m in ('cat', 'car', 'sec'):
            d[i] = a
        elif m in ('par', 'fri'):
            d[i] = 2 * a - d[j]
        elif m == 'pch':
            e = ((2 * ha + hb) * a - ha * b) / (ha + hb)
            if np.sign(e) != np.sign(a):
                e = 0.0
            elif np.sign(a) != np.sign(b) and abs(e) > 3 * abs(a):
                e = 3 * a
            d[i] = e
        elif m == 'ste':
            p = a * (1 + ha / (ha + hb)) - b * ha / (ha + hb)
            d[i] = (np.sign(p) + np.sign(a)) * min(abs(a), 0.5 * abs(p))
        elif m == 'sti':
            t = a - d[j]
            d[i] = 2 * a - d[j] if np.sign(a) * t >= 0 else a + abs(a) * t / (abs(a) + abs(t))
    if m == 'car':
        d *= 1 - tension
    if m == 'aki':
        d = None
    return d


@sub('C25', st.tuples(data(), st.sampled_from(METHODS), nice(0, 1), st.booleans()), quick=800)
def slope_estimates(t):
    """non-trivial: three or more points not on a line; slopes follow the formula of each method, ends included"""
    (x, y, kind), method, tension, scale = t
    x, y = np.array(x), np.array(y)
    got = finite_slopes(x, y, method, tension=tension, scale=scale)
    if scale:
        sx, sy = np.ptp(x), np.ptp(y) or 1.0
        x, y = x / sx, y / sy
    ref = ref_slopes(x, y, method, tension)
    if ref is None:
        return kind != 'line' and check_akima(x, y, got if not scale else got * sx / sy)
    if scale:
        ref = ref * sy / sx
    # sign decisions at rounding level may go either way
    s = np.diff(y) / np.diff(x)
    if kind == 'line' and method in ('pchip', 'steffen', 'stineman', 'fritsch-carlson') and np.any(np.abs(s) < 1e-9):
        return None
    close(got, ref, 1e-9, 1e-9 * (1 + np.max(np.abs(ref))), 'slopes(%s)' % method)
    return len(x) > 2 and kind != 'line'


def check_akima(x, y, got):
    if len(x) < 3 or len(x) < 5:
        return False
    s = np.diff(y) / np.diff(x)
    for k in range(2, len(x) - 2):
        w1, w2 = abs(s[k + 1] - s[k]), abs(s[k - 1] - s[k - 2])
        if 1e-12 < w1 + w2 < 1e-6:
            continue
        ref = 0.5 * (s[k - 1] + s[k]) if w1 + w2 <= 1e-12 else (w1 * s[k - 1] + w2 * s[k]) / (w1 + w2)
        if w1 + w2 <= 1e-12:
            ref = None      # the slope is not defined: any mean of the neighbours
            lo, hi = sorted((s[k - 1], s[k]))
            check(lo - 1e-9 <= got[k] <= hi + 1e-9, 'akima slope between the secants', k)
        else:
            check(abs(got[k] - ref) <= 1e-8 * (1 + np.max(np.abs(s))), 'akima slope', k, got[k], ref)
    return True


def finite_slopes(x, y, method, **kw):
    with unchanged('slopes', x, y):
        d = arr(wi.slopes(x, y, method, **kw))
    check(d.shape == y.shape and np.all(np.isfinite(d)), 'slopes are finite', method, d)
    return d


@sub('C25', st.tuples(data(), data(mono=True), st.sampled_from(METHODS)), quick=500)
def monotone_slopes(t):
    """non-trivial: three or more points; monotone=True keeps the Hermite interpolant monotone wherever the data are"""
    (x, y, _), (xm, ym, _k), method = t
    for x, y in ((x, y), (xm, ym)):
        x, y = np.array(x), np.array(y)
        d = finite_slopes(x, y, method, monotone=True)
        f = wi.CubicHermiteSpline(x, y, d)
        for k in range(len(x) - 1):
            u = f(np.linspace(x[k], x[k + 1], 41))
            s = y[k + 1] - y[k]
            tol = 1e-10 * (1 + np.max(np.abs(y)))
            check(np.all(np.diff(u) * np.sign(s) >= -tol) and (s != 0 or np.ptp(u) <= tol), 'monotone between the data', method, k)
    for meth in ('pchip', 'steffen'):
        f = wi.Pchip(xm, ym, method=meth)
        u = f(np.linspace(xm[0], xm[-1], 300))
        s = np.sign(ym[-1] - ym[0])
        check(np.all(np.diff(u) * (s or 1) >= -1e-10 * (1 + np.max(np.abs(ym)))), 'Pchip(%s) is monotone for monotone data' % meth)
    return len(x) > 2


@sub('C25', st.tuples(data(3), seeds(), st.sampled_from(METHODS)), quick=200)
def slopes_of_columns(t):
    """every case counts: slopes of a matrix are the slopes of its columns"""
    (x, y, _), seed, method = t
    Y = np.column_stack([y, rs(seed).normal(0, 1, len(y)), np.arange(len(y)) * 2.0])
    try:
        D = arr(wi.slopes(x, Y, method))
    except (ValueError, IndexError) as e:
        fail('slopes(%s) of columns raised %s' % (method, e))
    for j in range(3):
        # akima has a global threshold for undefined slopes
        if method == 'akima':
            continue
        close(D[:, j], wi.slopes(x, Y[:, j], method), 1e-10, 1e-10 * (1 + np.max(np.abs(D))), 'column %d' % j)
    return True


def stineman(xi, x, y, yp):
    out = []
    for v in xi:
        k = int(np.clip(np.searchsorted(x, v, side='left') - 1, 0, len(x) - 2))
        s = (y[k + 1] - y[k]) / (x[k + 1] - x[k])
        y0 = y[k] + s * (v - x[k])
        d1 = (yp[k] - s) * (v - x[k])
        d2 = (yp[k + 1] - s) * (v - x[k + 1])
        p = d1 * d2
        if p > 0:
            y0 += p / (d1 + d2)
        elif p < 0:
            y0 += p * (2 * v - x[k] - x[k + 1]) / ((d1 - d2) * (x[k + 1] - x[k]))
        out.append(y0)
    return np.array(out)


@sub('C25', st.tuples(data(), st.lists(nice(0, 1), min_size=1, max_size=6), st.sampled_from(['given', 'none'] + METHODS), seeds()), quick=600)
def stineman_interpolation(t):
    """non-trivial: not a line; Stineman's rational interpolant with given or estimated slopes, exact at the data"""
    (x, y, kind), us, how, seed = t
    x, y = np.array(x), np.array(y)
    xi = x[0] + np.array(us) * (x[-1] - x[0])
    if how == 'given':
        yp = rs(seed).normal(0, 2, len(x))
        got = wi.stineman_interp(xi, x, y, yp)
        f = wi.StinemanInterp(x, y, yp)
    elif how == 'none':
        yp = wi.slopes(x, y)
        got = wi.stineman_interp(xi, x, y)
        f = wi.StinemanInterp(x, y)
    else:
        yp = wi.slopes(x, y, how)
        f = wi.StinemanInterp(x, y, method=how)
        got = f(xi)
    ref = stineman(xi, x, y, yp)
    sc = 1 + np.max(np.abs(y)) + np.max(np.abs(yp)) * np.max(np.diff(x))
    close(got, ref, 0, 1e-7 * sc, 'stineman interpolation')
    close(f(xi), got, 0, 1e-12 * sc, 'StinemanInterp is stineman_interp')
    close(f(x), y, 0, 1e-10 * sc, 'the data are interpolated')
    sh = np.tile(xi, (2, 1))
    close(f(sh), np.vstack([got, got]), 0, 1e-12 * sc, 'shape of the abscissas')
    if kind == 'line' and how != 'given' and how != 'Cardinal':
        b = (y[-1] - y[0]) / (x[-1] - x[0])
        close(got, y[0] + b * (xi - x[0]), 0, 1e-7 * sc, 'straight lines are reproduced')
    raises(lambda: wi.stineman_interp(xi, x, np.r_[y, 1.0]), 'x and y of different length', ValueError)
    return kind != 'line'


@sub('C25', st.tuples(data(), st.lists(nice(0, 1), min_size=1, max_size=6), st.sampled_from(['given', 'default'] + METHODS), seeds()), quick=500)
def hermite_splines(t):
    """non-trivial: not a line; CubicHermiteSpline and Pchip take the data and the slopes, cubic in between"""
    (x, y, kind), us, how, seed = t
    x, y = np.array(x), np.array(y)
    xi = x[0] + np.array(us) * (x[-1] - x[0])
    for cls, default in ((wi.CubicHermiteSpline, 'Catmull-Rom'), (wi.Pchip, 'pchip')):
        if how == 'given':
            yp = rs(seed).normal(0, 2, len(x))
            f = cls(x, y, yp)
        elif how == 'default':
            yp, f = wi.slopes(x, y, default), cls(x, y)
        else:
            yp, f = wi.slopes(x, y, how), cls(x, y, method=how)
        ref = si.CubicHermiteSpline(x, y, yp)
        sc = 1 + np.max(np.abs(y)) + np.max(np.abs(yp)) * np.max(np.diff(x))
        close(f(xi), ref(xi), 0, 1e-11 * sc, cls.__name__)
        close(f(x), y, 0, 1e-11 * sc, 'the data are interpolated')
        close(f.derivative()(x), yp, 0, 1e-10 * (sc / np.min(np.diff(x))), 'the slopes are interpolated')
    if how == 'default' and len(x) > 2:
        sc = 1 + np.max(np.abs(y))
        close(wi.Pchip(x, y)(xi), si.PchipInterpolator(x, y)(xi), 0, 1e-9 * sc, 'Pchip is the pchip interpolant')
    return kind != 'line'


@st.composite
def pp(draw):
    n = draw(st.integers(1, 5))
    k = draw(st.integers(1, 5))
    ints = draw(st.booleans())
    el = st.integers(-3, 3) if ints else nice(-3, 3)
    c = draw(st.lists(st.lists(el, min_size=n, max_size=n), min_size=k, max_size=k))
    dx = draw(st.lists(st.integers(1, 3) if draw(st.booleans()) else nice(0.2, 2), min_size=n, max_size=n))
    x0 = draw(st.sampled_from([0, -2, 1.5]))
    br = [x0]
    for d in dx:
        br.append(br[-1] + d)
    return dict(c=c, b=br, fill=draw(st.sampled_from([0.0, -1.5, 7])), u=draw(st.lists(nice(-0.3, 1.3), min_size=1, max_size=6)))


def pp_ref(c, b, x, fill, left=False, inf=False):
    out = []
    for v in x:
        if not inf and (v < b[0] or v > b[-1]):
            out.append(float(fill))
            continue
        k = 0
        while k < len(b) - 2 and v >= b[k + 1]:
            k += 1
        r = 0.0
        for row in c:
            r = r * (v - b[k]) + row[k]
        out.append(r)
    return np.array(out)


@sub('C25', st.tuples(pp(), st.sampled_from(['float', 'int', 'scalar', '2d', 'list'])), quick=600)
def piecewise_polynomials(t):
    """non-trivial: two or more pieces; values (right continuous at the breaks), fill, derivative, integral, linear extrapolation"""
    d, how = t
    c, b, fill = np.array(d['c']), np.array(d['b']), d['fill']
    f = wi.PPform(c, b, fill=fill)
    x = b[0] + np.array(d['u']) * (b[-1] - b[0])
    x = np.r_[x, b]
    if how == 'int':
        x = np.round(x).astype(int)
    ref = pp_ref(d['c'], d['b'], x, fill)
    arg = x if how in ('float', 'int') else (float(x[0]) if how == 'scalar' else (np.vstack([x, x]) if how == '2d' else x.tolist()))
    want = ref if how not in ('scalar', '2d') else (ref[0] if how == 'scalar' else np.vstack([ref, ref]))
    tol = 1e-11 * (1 + np.sum(np.abs(c)) * (1 + np.max(np.diff(b))) ** len(c))
    with unchanged('PPform', c, b):
        close(f(arg), want, 0, tol, 'values')
        g, F = f.derivative(), f.integrate()
        L = f.linear_extrapolate()
    n, k = len(b) - 1, len(c)
    dc = [[(k - 1 - i) * v for v in row] for i, row in enumerate(d['c'][:-1])] or [[0.0] * n]
    close(g(x), pp_ref(dc, d['b'], x, fill), 0, tol * 10, 'derivative')
    # the integral from the first break: continuous, with the derivative f
    ic = [[v / (k - i) for v in row] for i, row in enumerate(d['c'])]
    const = [0.0]
    for j in range(n - 1):
        h = b[j + 1] - b[j]
        const.append(const[-1] + sum(row[j] * h ** (k - i) for i, row in enumerate(ic)))
    close(F(x), pp_ref(ic + [const], d['b'], x, fill), 0, tol * 10 * (1 + b[-1] - b[0]), 'integral')
    if how == 'float':
        # inside the interval the extrapolated one is the same function; outside a line continuing value and slope
        inside = (x >= b[0]) & (x < b[-1])
        close(L(x[inside]), ref[inside], 0, tol * 10, 'linear_extrapolate inside')
        for s, e, j in ((-1, b[0], 0), (1, b[-1], n - 1)):
            h = e - b[j]
            v = sum(row[j] * h ** (k - 1 - i) for i, row in enumerate(d['c']))
            sl = sum(row[j] * (k - 1 - i) * h ** (k - 2 - i) for i, row in enumerate(d['c'][:-1]))
            xo = e + s * np.array([1e-9, 0.5, 1.0, 3.0, 20.0])
            close(L(xo), v + sl * (xo - e), 0, tol * 300, 'linear_extrapolate outside')
            if k > 1:
                close(L.derivative()(xo[1:]), np.full(4, sl), 0, tol * 300, 'derivative outside')
        close(f(x), ref, 0, tol, 'linear_extrapolate changed its object')
    return n > 1


@sub('C25', st.tuples(data(2, 9), st.sampled_from([0.0, 1.0, 0.5, 0.01, 0.9, 0.999]), st.sampled_from(['one', 'scalar', 'vector']), seeds(), st.booleans(),
                      st.booleans()), quick=400)
def smoothing_splines(t):
    """non-trivial: three or more points; SmoothSpline minimises p*sum((y-f)^2/var)+(1-p)*int f''^2, natural ends, any order of the data"""
    (x, y, _), p, v, seed, shuffle, lin = t
    x, y = np.array(x), np.array(y)
    n = len(x)
    r = rs(seed)
    var = np.ones(n) if v == 'one' else (np.full(n, 0.3) if v == 'scalar' else r.uniform(0.2, 3, n))
    kw = dict() if v == 'one' else dict(var=0.3 if v == 'scalar' else var)
    o = r.permutation(n) if shuffle else np.arange(n)
    if v == 'vector':
        kw['var'] = var[o]
    f = wi.SmoothSpline(x[o], y[o], p=p, lin_extrap=lin, **kw)
    if n == 2:
        g = y
        e = lambda u: y[0] + (y[1] - y[0]) / (x[1] - x[0]) * (u - x[0])        # noqa
    else:
        # f'' is linear between the knots: int f''^2 from the second derivatives of the natural splines of unit vectors
        S = [si.CubicSpline(x, np.eye(n)[i], bc_type='natural') for i in range(n)]
        M = np.array([s(x, 2) for s in S])          # second derivatives at the knots
        h = np.diff(x)
        W = np.zeros((n, n))
        for j in range(n - 1):
            W[j, j] += h[j] / 3
            W[j + 1, j + 1] += h[j] / 3
            W[j, j + 1] += h[j] / 6
            W[j + 1, j] += h[j] / 6
        K = M.dot(W).dot(M.T)
        if p == 0:
            A = np.vstack([np.ones(n), x]).T / np.sqrt(var)[:, None]
            cf = np.linalg.lstsq(A, y / np.sqrt(var), rcond=None)[0]
            g = cf[0] + cf[1] * x
        elif p == 1:
            g = y
        else:
            A = p * np.diag(1 / var) + (1 - p) * K
            if np.linalg.cond(A) > 1e10:
                return None
            g = np.linalg.solve(A, p * y / var)
        e = si.CubicSpline(x, g, bc_type='natural')
    xi = np.r_[x[:-1], 0.5 * (x[1:] + x[:-1]), x[0] + 0.77 * (x[-1] - x[0])]
    sc = 1 + np.max(np.abs(y))
    close(f(xi), e(xi), 0, 1e-6 * sc, 'smoothing spline (p=%g)' % p)
    xo = np.array([x[0] - 5.0, x[0] - 0.5, x[-1] + 0.5, x[-1] + 7.0])
    if lin:
        if n == 2:
            want = e(xo)
        else:
            s0, s1 = e(x[0], 1), e(x[-1], 1)
            want = np.r_[g[0] + s0 * (xo[:2] - x[0]), g[-1] + s1 * (xo[2:] - x[-1])]
        close(f(xo), want, 0, 1e-5 * (sc + np.max(np.abs(want))), 'linear extrapolation')
    else:
        close(f(xo), np.zeros(4), 0, 0, 'zero outside without extrapolation')
    raises(lambda: wi.SmoothSpline(np.r_[x, x[0]], np.r_[y, 1.0]), 'equal abscissas', ValueError)
    raises(lambda: wi.SmoothSpline(x, np.r_[y, 1.0]), 'x and y of different length', ValueError)
    return n > 2


@sub('C25', st.tuples(st.integers(0, 5), st.integers(1, 6), st.integers(0, 3), seeds(), st.integers(0, 25), st.booleans()), quick=300)
def savitzky_golay_windows(t):
    """non-trivial: derivative of order >= 1; the interior values are the derivatives of the local least squares polynomial"""
    order, extra, deriv, seed, more, aslist = t
    w = order + 2 + extra
    w += (w + 1) % 2
    deriv = min(deriv, order)
    N = w + more
    y = rs(seed).normal(0, 2, N)
    with unchanged('savitzky_golay', y):
        got = arr(wi.savitzky_golay(y.tolist() if aslist else y, w, order, deriv))
    check(got.shape == (N,), 'length of the filtered signal', got.shape, N)
    h = w // 2
    u = np.arange(-h, h + 1)
    tol = 1e-7 * (1 + np.max(np.abs(y)))
    for k in range(h, N - h):
        q = np.polyfit(u, y[k - h:k + h + 1], order)[::-1]
        check(abs(got[k] - q[deriv] * math.factorial(deriv)) <= tol, 'filtered value', k, got[k], q[deriv] * math.factorial(deriv))
    for bad in (w + 1, order + 1 - order % 2):
        if bad % 2 == 0 or bad < order + 2:
            raises(lambda: wi.savitzky_golay(y, bad, order), 'window %d for order %d' % (bad, order), TypeError)
    # pieces monotone in x are smoothed separately
    z = rs(seed + 1).normal(0, 2, N)
    xx = np.r_[np.arange(N), N - 1 - 0.5 - np.arange(N)]
    s = -1.0 if more % 2 else 1.0
    both = arr(wi.savitzky_golay_piecewise(s * xx, np.r_[y, z], w, order))
    close(both, np.r_[wi.savitzky_golay(y, w, order), wi.savitzky_golay(z, w, order)], 1e-9, 1e-9, 'savitzky_golay_piecewise')
    return deriv > 0


@sub('C25', st.tuples(st.integers(0, 4), st.integers(0, 2), st.sampled_from([None, 'col', 'row', 'both']), seeds(), st.integers(0, 5), st.integers(0, 5)), quick=150)
def savitzky_golay_surfaces(t):
    """non-trivial: a derivative; interior values of sgolay2d come from the local least squares surface"""
    order, extra, der, seed, m1, m2 = t
    w = order + 1 + extra
    w = max(w + (w + 1) % 2, 3)
    if der and order == 0:
        raises(lambda: wi.sgolay2d(np.zeros((w + 2, w + 2)), w + 1, order), 'even window', TypeError)
        return None
    z = rs(seed).normal(0, 2, (w + m1, w + m2))
    with unchanged('sgolay2d', z):
        got = wi.sgolay2d(z, w, order, der)
    h = w // 2
    u = np.arange(-h, h + 1, dtype=float)
    R, C = np.meshgrid(u, u, indexing='ij')
    ex = [(i, j) for i in range(order + 1) for j in range(order + 1 - i)]
    P = np.linalg.pinv(np.column_stack([(R ** i * C ** j).ravel() for i, j in ex]))
    names = {None: [(0, 0)], 'col': [(1, 0)], 'row': [(0, 1)], 'both': [(1, 0), (0, 1)]}[der]
    got = got if der == 'both' else (got,)
    check(len(got) == len(names), 'number of results')
    for g, nm in zip(got, names):
        g = arr(g)
        check(g.shape == z.shape, 'shape', g.shape)
        row = P[ex.index(nm)]
        for a in range(h, z.shape[0] - h):
            for b in range(h, z.shape[1] - h):
                v = row.dot(z[a - h:a + h + 1, b - h:b + h + 1].ravel())
                check(abs(v - g[a, b]) <= 1e-8 * (1 + np.max(np.abs(z))), 'sgolay2d', der, a, b, g[a, b], v)
    return der is not None


@sub('C25', st.tuples(seeds(), st.sampled_from(['cubic', 'linear']), st.integers(4, 6), st.integers(4, 6), st.integers(4, 6)), quick=40)
def three_dimensional_interpolation(t):
    """every case counts: interp3 reproduces products of polynomials of the degree of the method on the grid of new points"""
    seed, method, nx, ny, nz = t
    r = rs(seed)
    x, y, z = [np.cumsum(r.uniform(0.3, 1.5, n)) for n in (nx, ny, nz)]
    deg = 3 if method == 'cubic' else 1
    c = r.uniform(-1, 1, (3, deg + 1))
    f = lambda a, b, d: (np.polyval(c[0], a)[:, None, None] * np.polyval(c[1], b)[None, :, None] * np.polyval(c[2], d)[None, None, :])   # noqa
    xi, yi, zi = [v[0] + (v[-1] - v[0]) * r.uniform(0, 1, k) for v, k in ((x, 3), (y, 2), (z, 4))]
    v = f(x, y, z)
    with unchanged('interp3', v):
        got = arr(wi.interp3(x, y, z, v, xi, yi, zi, method))
    close(got, f(xi, yi, zi), 0, 1e-8 * (1 + np.max(np.abs(v))), 'interp3')
    return True
