"""C14 transformations between a non-Gaussian process and its Gaussian core."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import optimize

from wafo.misc import tranproc, trangood
from wafo.objects import LevelCrossings, TimeSeries
from wafo.transform.core import TrData
import wafo.transform.models as tm
from core import sub, check, close, same, arr, fail, known, unchanged, raises, finite
from gens import fl, nice, rs, seeds


def scales(draw):
    return dict(mean=draw(st.one_of(st.just(0.0), nice(-5, 5))), sigma=draw(st.one_of(st.just(1.0), nice(0.1, 6))),
                ymean=draw(st.one_of(st.just(0.0), nice(-2, 2))), ysigma=draw(st.one_of(st.just(1.0), nice(0.2, 4))))


@st.composite
def hermite_case(draw):
    c = scales(draw)
    c.update(pardef=draw(st.sampled_from([1, 1, 2])), skew=draw(st.one_of(st.just(0.0), nice(-1, 1), nice(-0.3, 0.3))),
             kurt=draw(st.one_of(nice(3, 8), nice(2.2, 3), st.just(3.0), nice(3, 3.3))), var=draw(st.booleans()),
             shape=draw(st.sampled_from(['vec', 'mat', 'scalar'])), seed=draw(seeds()))
    return c


def hermite_ref(skew, kurt, pardef):
    """('soft'|'hard', polynomial coefficients of G (soft) or g (hard)), None when undefined."""
    e = kurt - 3.0
    if kurt <= 3:
        c3, c4 = skew / 6.0, e / 24.0
        if abs(c4) < 1.5e-8:
            c4 = 0.0
        return 'hard', np.array([-c4, -c3, 1 + 3 * c4, c3])
    if pardef == 2:
        c4 = (np.sqrt(1 + 1.5 * e) - 1) / 18
        c3 = skew / 6 / (1 + 6 * c4)
    else:
        c3 = skew / 6 * (1 - 0.015 * abs(skew) + 0.3 * skew ** 2) / (1 + 0.2 * e)
        base = 1 - 1.43 * skew ** 2 / e
        if base < 0:
            return None
        c4 = 0.1 * ((1 + 1.25 * e) ** (1 / 3.0) - 1) * base ** (1 - 0.1 * kurt ** 0.8)
    if abs(c4) < 1.5e-8:
        c4 = 0.0
    K = 1 / np.sqrt(1 + 2 * c3 ** 2 + 6 * c4 ** 2)
    return 'soft', K * np.array([c4, c3, 1 - 3 * c4, -c3])


def stationary(p):
    """Real stationary points of the cubic or quadratic polynomial p."""
    a, b, c = 3 * p[0], 2 * p[1], p[2]
    if a == 0:
        return np.array([-c / b]) if b != 0 else np.zeros(0)
    disc = b * b - 4 * a * c
    return np.zeros(0) if disc < 0 else np.sort((-b + np.array([-1, 1]) * np.sqrt(disc)) / 2 / a)


@sub('C14', hermite_case(), quick=700)
def hermite_model(c):
    """counts when skewness or kurtosis differ from the Gaussian values"""
    kw = {k: c[k] for k in ('mean', 'sigma', 'skew', 'kurt', 'ymean', 'ysigma', 'pardef')}
    if c['var']:
        kw['var'] = kw.pop('sigma') ** 2
    ref = hermite_ref(c['skew'], c['kurt'], c['pardef'])
    if c['kurt'] > 3 and c['kurt'] < 3.0 + 1e-6:
        return None
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        if ref is None:
            with np.errstate(all='ignore'):
                raises(lambda: tm.TrHermite(**kw), 'kurtosis too small for this skewness', ValueError)
            return 'undefined'
        tr = tm.TrHermite(**kw)
    kind, p = ref
    r = stationary(p)
    a, b, c_ = 3 * p[0], 2 * p[1], p[2]
    if a != 0 and abs(b * b - 4 * a * c_) < 1e-9 * b * b + 1e-12:
        return None                       # on the edge between monotone and not
    warned = any('strictly increasing' in str(q.message) for q in rec)
    check(warned == (r.size > 0), 'warning about a polynomial that is not monotone', warned, r)
    sc = lambda u: c['sigma'] * u + c['mean']
    ysc = lambda u: c['ysigma'] * u + c['ymean']
    P = lambda u: np.polyval(p, u)
    rr = rs(c['seed'])
    if r.size == 0:
        u = np.linspace(-5, 5, 41)
    else:
        # the increasing part of the polynomial around zero
        lo = max([v for v in r if v < 0], default=-8.0)
        hi = min([v for v in r if v > 0], default=8.0)
        check(np.polyval(np.polyder(p), 0.0) > 0, 'bad case')
        ends = np.array([lo, hi]) * 0.9
        ends = np.clip(ends, -5, 5)
        u = np.linspace(ends[0], ends[1], 41)
        if kind == 'soft' and p[0] != 0:
            # only where the cubic has three real roots does the inverse exist (between the two limits)
            v = np.sort(P(r))
            u = u[(P(u) > v[0] + 1e-3 * (v[1] - v[0])) & (P(u) < v[1] - 1e-3 * (v[1] - v[0]))]
        if kind == 'hard' and p[0] != 0:
            v = np.sort(P(r))
            u = u[(P(u) > v[0] + 1e-3 * (v[1] - v[0])) & (P(u) < v[1] - 1e-3 * (v[1] - v[0]))]
        if u.size < 3 or u[0] > 0 or u[-1] < 0:
            return None
        # an interval of data with a limit inside cannot be transformed
        lim = sc(r if kind == 'hard' else P(r))
        for l in lim:
            bad = np.array([l - 0.1, l + 0.2, l - 0.3, l])
            raises(lambda: tr.dat2gauss(bad), 'interval with a limit inside', ValueError)
            raises(lambda: tr.dat2gauss(bad[[1, 2]]), 'interval with a limit inside', ValueError)
    # x = G(y) for the softening model, y = g(x) for the hardening one
    x, y = (sc(P(u)), ysc(u)) if kind == 'soft' else (sc(u), ysc(P(u)))
    if r.size and np.any((np.array(sc(P(r) if kind == 'soft' else r)) <= x.max())
                         & (np.array(sc(P(r) if kind == 'soft' else r)) >= x.min())):
        return None
    i = np.arange(x.size)
    if r.size == 0:
        i = rr.permutation(x.size)
    if c['shape'] == 'mat':
        i = i[:x.size // 3 * 3].reshape(3, -1)
    if c['shape'] == 'scalar':
        i = i[x.size // 2]
    xi, yi = x[i], y[i]
    with warnings.catch_warnings(), unchanged('TrHermite', x, y):
        warnings.simplefilter('ignore')
        got = tr.dat2gauss(xi if c['shape'] != 'scalar' else float(xi))
        back = tr.gauss2dat(yi if c['shape'] != 'scalar' else float(yi))
        g2 = tr(xi)
    same(np.asarray(g2).ravel(), np.asarray(got).ravel(), 'calling the transform is dat2gauss')
    check(np.shape(np.squeeze(got)) == np.shape(np.squeeze(xi)), 'shape of dat2gauss', np.shape(got), np.shape(xi))
    dp = np.polyval(np.polyder(p), u)
    slope = dp.min()
    tol = 1e-8 + 1e-9 / max(slope, 1e-6)
    close(np.squeeze(got), yi, 1e-7, tol * c['ysigma'] * 10, 'Hermite dat2gauss')
    close(np.squeeze(back), xi, 1e-7, tol * c['sigma'] * 10, 'Hermite gauss2dat')
    if c['shape'] == 'vec' and r.size == 0:
        s = np.argsort(xi)
        check(np.all(np.diff(np.asarray(got)[s]) > 0), 'Hermite transform is not increasing')
    return (c['skew'] != 0 or c['kurt'] != 3) and kind + ('' if r.size == 0 else ' limited') + str(c['pardef'])


@st.composite
def ochi_case(draw):
    c = scales(draw)
    c.update(skew=draw(st.one_of(nice(-1, 1), nice(-2.8, 2.8), st.just(0.0), st.sampled_from([3.0, -2.9]))),
             seed=draw(seeds()), shape=draw(st.sampled_from(['vec', 'mat', 'scalar', 'list'])), change=draw(st.booleans()))
    return c


@sub('C14', ochi_case(), quick=500)
def ochi_model(c):
    """counts when the skewness is not zero"""
    kw = {k: c[k] for k in ('mean', 'sigma', 'skew', 'ymean', 'ysigma')}
    if abs(c['skew']) > 2.829:
        raises(lambda: tm.TrOchi(**kw), 'too large skewness', ValueError)
        return None
    if 0 < abs(c['skew']) < 1e-6:
        return None
    tr = tm.TrOchi(**kw)
    m1, s1 = c['mean'], c['sigma']
    if c['change']:                      # changing mean and deviation afterwards takes effect
        m1, s1 = m1 + 1.0, s1 * 1.5
        tr.mean, tr.sigma = m1, s1
    sk = c['skew']
    if sk == 0:
        a, S2, M2, M2_listed = 0.0, 1.0, 0.0, 0.0
    else:
        s22 = optimize.brentq(lambda s: np.sqrt(2 * (s - 1)) * (4 - s) - abs(sk), 1, 2, xtol=1e-14)
        a = np.sign(sk) * np.sqrt((s22 - 1) / 2) / s22
        S2 = np.sqrt(s22)
        d = np.sqrt(max(1 - 4 * a * a * s22, 0))
        M2 = (-1 + d) / 2 / a
        # documented equations
        close(a * (s22 + M2 ** 2) + M2, 0, 0, 1e-7, 'reference')
        M2_listed = -a * a * s22 / (1 + d)      # known finding C14-2
        close(s22 - 2 * a * a * s22 ** 2, 1, 1e-9, 0, 'reference')
        close(2 * a * s22 ** 2 * (3 - 8 * a * a * s22), sk, 1e-7, 1e-9, 'reference')

    def g(xn, M2=M2):
        gam = np.where(xn >= 0, 1.28 * a, 3 * a)
        with np.errstate(all='ignore'):
            v = np.where(gam == 0, xn, -np.expm1(-gam * xn) / np.where(gam == 0, 1, gam))
        return (v - M2) / S2
    xn = np.linspace(-3, 3, 31) / max(1.0, 4 * abs(a))
    xn = np.sort(np.r_[xn, 0.0])
    x = s1 * xn + m1
    y = c['ysigma'] * g(xn) + c['ymean']
    i = rs(c['seed']).permutation(x.size)
    if c['shape'] == 'mat':
        i = i.reshape(4, -1)
    if c['shape'] == 'scalar':
        i = i[0]
    xi, yi = x[i], y[i]
    inp = (lambda v: v.tolist()) if c['shape'] in ('list', 'scalar') else (lambda v: v)
    with unchanged('TrOchi', xi if c['shape'] in ('vec', 'mat') else x):
        got, back = tr.dat2gauss(inp(xi)), tr.gauss2dat(inp(yi))
    tol = 1e-9 + (1e-6 if abs(sk) > 2.7 else 0)
    raises(lambda: tr.dat2gauss(x, x), 'derivatives are not supported', ValueError)
    shifted = False
    shift = (M2_listed - M2) / S2 * c['ysigma']
    if sk != 0 and abs(shift) > 1e-6 and abs(np.ravel(got)[0] - np.ravel(yi)[0] + shift) < abs(shift) / 2:
        # the transform is off by the constant of the known finding, and by nothing else
        shifted = True
        y = c['ysigma'] * g(xn, M2_listed) + c['ymean']
        yi = y[i]
        back = tr.gauss2dat(inp(yi))
    close(np.squeeze(got), yi, 1e-7, tol * c['ysigma'] * 10, 'Ochi dat2gauss')
    close(np.squeeze(back), xi, 1e-7, tol * s1 * 100, 'Ochi gauss2dat')
    if shifted:
        known('C14-2', 'mean2 of TrOchi does not solve a*(sigma2**2+mean2**2)+mean2 = 0')
    return sk != 0


@sub('C14', st.tuples(nice(-5, 5), nice(0.1, 6), nice(-2, 2), nice(0.2, 4), seeds(), st.integers(0, 4), st.integers(1, 9)), quick=200)
def linear_model_and_discretisation(t):
    """every case counts: TrLinear with derivatives, inverse, trdata and dist2gauss of the models"""
    mean, sigma, ym, ys, seed, nd, n = t
    r = rs(seed)
    tr = tm.TrLinear(mean=mean, sigma=sigma, ymean=ym, ysigma=ys)
    x = [r.randn(n) for _ in range(nd + 1)]
    y = tr.dat2gauss(*x)
    y = [y] if nd == 0 else y
    check(len(y) == nd + 1, 'number of derivatives')
    close(y[0], (x[0] - mean) / sigma * ys + ym, 1e-10, 1e-10, 'linear transform')
    for k in range(1, nd + 1):
        close(y[k], x[k] / sigma * ys, 1e-10, 1e-10, 'derivative of the linear transform')
    b = tr.gauss2dat(*y)
    b = [b] if nd == 0 else b
    for u, v in zip(b, x):
        close(u, v, 1e-9, 1e-9, 'linear gauss2dat inverts dat2gauss')
    close(tr.dist2gauss(), 0, 0, 1e-18, 'distance of the linear transform from the Gaussian one')
    for g in (tm.TrHermite(mean=mean, sigma=sigma, skew=0.2, kurt=3.3, ymean=ym, ysigma=ys),
              tm.TrOchi(mean=mean, sigma=sigma, skew=0.3, ymean=ym, ysigma=ys), tr):
        m, lo, hi = r.randint(5, 40), -1 - 3 * r.rand(), 0.5 + 3 * r.rand()
        xn = np.linspace(lo, hi, m)
        xs = sigma * xn + mean
        yn = (np.asarray(g.dat2gauss(xs)) - ym) / ys
        e = (xn - yn) ** 2
        d = np.sum((e[1:] + e[:-1]) / 2 * np.diff(xn))
        close(g.dist2gauss(xnmin=lo, xnmax=hi, n=m), d, 1e-8, 1e-12, 'dist2gauss')
        close(g.dist2gauss(x=xs), d, 1e-6, 1e-12, 'dist2gauss(x)')
        for T in (g.trdata(xnmin=lo, xnmax=hi, n=m), g.trdata(x=xs)):
            close(T.args, xs, 1e-10, 1e-10, 'trdata arguments')
            close(T.data, yn, 1e-8, 1e-8, 'trdata values')
            close(T.mean, mean, 0, 0, 'mean of trdata'), close(T.sigma, sigma, 0, 0, 'sigma of trdata')
            close(T.dat2gauss(xs[:-1]), yn[:-1], 1e-6, 1e-6, 'dat2gauss of the discretised transform at its nodes')
    return True


@st.composite
def table_case(draw):
    n = draw(st.integers(3, 30))
    return dict(n=n, seed=draw(seeds()), kind=draw(st.sampled_from(['uniform', 'uniform', 'uneven'])), a=draw(nice(-3, 3)),
                width=draw(st.one_of(nice(0.5, 20))), nd=draw(st.sampled_from([0, 0, 1, 2, 3, 4])),
                beyond=draw(st.sampled_from([0, 0, 0.3, 1.1, 2.5, 7.2])), inner=draw(st.booleans()), shuffle=draw(st.booleans()),
                func=draw(st.sampled_from(['lin', 'poly', 'rand'])), npts=draw(st.integers(1, 12)))


def table(c):
    r = rs(c['seed'])
    n = c['n']
    if c['kind'] == 'uniform':
        x = c['a'] + c['width'] * np.arange(n) / (n - 1)
    else:
        x = c['a'] + c['width'] * np.cumsum(np.r_[0, 0.3 + r.rand(n - 1)]) / n
    z = (x - x.mean()) / c['width']
    f = {'lin': 2 * z + 1, 'poly': z + 0.3 * z ** 2 - 0.2 * z ** 3 + 0.1 * z ** 4, 'rand': np.cumsum(r.rand(n) + 0.1)}[c['func']]
    return x, f, r


def lin_eval(x, f, q):
    """Piecewise linear interpolation with linear extrapolation at both ends."""
    j = np.clip(np.searchsorted(x, q) - 1, 0, x.size - 2)
    return f[j] + (f[j + 1] - f[j]) / (x[j + 1] - x[j]) * (q - x[j])


def uniform_table(x, f, m):
    d = np.diff(x)
    if m == x.size and np.all(np.abs(np.diff(d)) <= 2e-15 * (x[-1] - x[0])):
        return x, f
    X = np.linspace(x[0], x[-1], m)
    return X, np.interp(X, x, f)


def short_table_eval(x, f, n, q):
    """Known finding C14-3: linear interpolation in the uniform table x, f of more than n points, with the index
    computed as if it had n points."""
    u = (n - 1) * (q - x[0]) / (x[-1] - x[0])
    i = np.floor(u + 1e-12 * n).astype(int)
    i = np.where(i == n - 1, i - 1, i)
    i = np.clip(i, 0, x.size - 2)
    return f[i] + (f[i + 1] - f[i]) * (u - i)


def extend(X, F, top):
    """The uniform table X, F extended linearly by whole steps to reach top."""
    h = X[1] - X[0]
    extra = int(np.ceil((top - X[-1]) / h - 1e-9)) if top > X[-1] * (1 + 1e-15) else 0
    if extra <= 0:
        return X, F
    XE = X[-1] + h * np.arange(1, extra + 1)
    return np.r_[X, XE], np.r_[F, lin_eval(X, F, XE)]


@sub('C14', table_case(), quick=900)
def tabulated_transform(c):
    """counts when derivatives or values outside the table are asked for"""
    x, f, r = table(c)
    L = x[-1] - x[0]
    h = L / (c['n'] - 1)
    nd = c['nd']
    beyond = -(nd / 2.0 + 0.01) if c['inner'] else c['beyond']
    q = x[0] + max(L + beyond * h, 0.3 * h) * np.sort(np.r_[r.rand(c['npts']), 0.999 if beyond == 0 else 1.0])
    q = np.maximum(q, x[0])
    if c['shuffle']:
        q = q[r.permutation(q.size)]
    xi = [r.randn(q.size) for _ in range(nd)]
    m = c['n']
    nmax = np.ceil(L * 10 ** (7.0 / max(nd, 1)))
    if m > nmax:
        m = int(max(nmax, 2))
    if m - nd < 2:
        return None
    o = r.permutation(c['n']) if c['shuffle'] else np.arange(c['n'])
    X, F = uniform_table(x, f, m)
    hm = X[1] - X[0]
    XE, FE = extend(X, F, q.max())
    # inputs of the known finding C14-3: the table used has another length than the given one, or derivatives are asked
    # for within nd/2 steps of its upper end
    risky = XE.size != c['n'] or (nd > 0 and q.max() > XE[-1] - nd * hm / 2 - 1e-9 * L)
    try:
        with warnings.catch_warnings(), unchanged('tranproc', x, f, q, *xi):
            warnings.simplefilter('ignore')
            y = tranproc(x[o], f[o], q, *xi)
    except IndexError:
        if risky:
            known('C14-3', 'tranproc where the table is extended or resampled')
        raise
    if nd == 0:
        check(not isinstance(y, (list, tuple)), 'a single array is expected')
        y = [y]
    check(len(y) == nd + 1, 'number of arrays', len(y))
    sc = np.abs(F).max() + np.ptp(F) * (1 + c['beyond'])
    finding = False
    y0 = arr(y[0], 'tranproc value')
    alt = short_table_eval(XE, FE, c['n'], q)
    if XE.size != c['n'] and not np.all(np.abs(y0 - lin_eval(X, F, q)) <= 1e-8 * sc):
        finding = True
        if XE.size > c['n']:
            close(y0, alt, 1e-7, 1e-7 * sc, 'tranproc value')
    else:
        close(y0, lin_eval(X, F, q), 1e-8, 1e-8 * sc, 'tranproc value')
    # the table is extended by whole steps to the right before it is differentiated
    X, F = XE, FE
    D, XD, FD = [], X, F
    for k in range(nd):
        XD, FD = (XD[1:] + XD[:-1]) / 2, np.diff(FD) / hm
        D.append(lin_eval(XD, FD, q) if XD.size > 1 else None)
        # below the first node of the difference table wrong values are a known finding (checked elsewhere)
    ok = q >= X[0] + nd * hm / 2 * (1 + 1e-9)
    if any(d is None for d in D):
        return None
    def chain(D):
        out = []
        if nd > 0:
            out.append(D[0] * xi[0])
        if nd > 1:
            out.append(D[1] * xi[0] ** 2 + D[0] * xi[1])
        if nd > 2:
            out.append(D[2] * xi[0] ** 3 + D[0] * xi[2] + 3 * D[1] * xi[0] * xi[1])
        if nd > 3:
            out.append(D[3] * xi[0] ** 4 + D[0] * xi[3] + 6 * D[2] * xi[0] ** 2 * xi[1]
                       + D[1] * (3 * xi[1] ** 2 + 4 * xi[0] * xi[2]))
        return out
    for k, v in enumerate(chain(D)):
        tol = 1e-7 * sc * max(1, 1 / hm) ** (k + 1) * (1 + np.abs(np.array(xi)).max()) ** (k + 2)
        g = arr(y[k + 1], 'derivative')[ok]
        if risky and not np.all(np.abs(g - v[ok]) <= tol + 1e-7 * np.abs(v[ok])):
            finding = True
        else:
            close(g, v[ok], 1e-7, tol, 'tranproc derivative %d' % (k + 1))
    if finding:
        known('C14-3', 'tranproc for values above the table, or derivatives near its upper end')
    return (nd > 0 or c['beyond'] > 0) and '%d derivatives' % nd


@sub('C14', table_case(), quick=200)
def tabulated_transform_below_its_range(c):
    """counts when values below the table are asked for (linear extrapolation)"""
    x, f, r = table(dict(c, kind='uniform'))
    h = x[1] - x[0]
    if c['n'] > np.ceil((x[-1] - x[0]) * 1e7) or c['n'] < 5:
        return None
    q = np.r_[x[0] - h * (c['beyond'] or 0.5), x[0] + 0.3 * h, x[-1] - 0.1 * h]
    try:
        y = np.asarray(tranproc(x, f, q))
    except IndexError:
        y = np.full(3, np.nan)
    ref = lin_eval(x, f, q)
    ok = np.abs(y - ref) <= 1e-8 * (np.abs(f).max() + np.ptp(f) * 8)
    if c['func'] == 'lin' and ok.all():
        return None
    if not ok.all():
        # recognised by its shape: values of the table inside stay right unless the table was extended with a hole
        whole = (c['beyond'] or 0.5) > 2
        if not whole:
            check(ok[1] and ok[2], 'values inside the table are wrong too', y, ref)
        known('C14-1', 'tranproc/trangood for values below the table')
    return 'below'


@sub('C14', table_case(), quick=400)
def uniform_resampling(c):
    """counts when the table is uneven or a new number of points or range is asked for"""
    x, f, r = table(c)
    L = x[-1] - x[0]
    kw = {}
    if r.rand() < 0.5:
        kw['min_n'] = int(r.randint(2, 60))
    if r.rand() < 0.3:
        kw['max_n'] = int(r.randint(2, 60))
    if c['beyond']:
        kw['max_x'] = x[-1] + c['beyond'] * L / (c['n'] - 1)
    o = r.permutation(c['n']) if c['shuffle'] else np.arange(c['n'])
    with unchanged('trangood', x, f):
        X, F = trangood(x[o], f[o], **kw)
    X, F = arr(X), arr(F)
    check(X.shape == F.shape and X.ndim == 1, 'shapes', X.shape, F.shape)
    d = np.diff(X)
    close(d, np.full(d.shape, d[0]), 1e-6, 1e-9 * L, 'trangood: x is not uniformly spaced')
    close(X[0], x[0], 1e-12, 1e-9 * L, 'first x')
    check(X[-1] >= kw.get('max_x', x[-1]) - 1e-9 * L and X[-1] < kw.get('max_x', x[-1]) + d[0] * (1 + 1e-6), 'range', X[-1])
    minn, maxn = max(kw.get('min_n', c['n']), 2), max(kw.get('max_n', np.inf), 2)
    inside = X <= x[-1] + 1e-9 * L
    n_in = int(inside.sum())
    uni = c['kind'] == 'uniform'
    if uni and minn <= c['n'] <= maxn:
        check(n_in == c['n'], 'a good table was changed', n_in, c['n'])
        close(F[inside], f, 1e-12, 1e-12, 'values of a good table')
    else:
        check(n_in == min(minn, maxn), 'number of points', n_in, minn, maxn)
    close(F[inside], np.interp(X[inside], x, f), 1e-7, 1e-7 * (1 + np.ptp(f)) * (1 + L), 'values of the resampled table')
    if not inside.all():
        s = (F[inside][-1] - F[inside][-2]) / d[0]
        close(F[~inside], F[inside][-1] + s * (X[~inside] - X[inside][-1]), 1e-6, 1e-6 * (1 + np.ptp(f)), 'extrapolated values')
    if c['n'] > 3:
        x2 = x.copy()
        x2[2] = x2[1]
        raises(lambda: trangood(x2, f), 'duplicate x-values', ValueError)
    return bool(kw) or not uni


@sub('C14', st.tuples(seeds(), st.integers(12, 60), nice(-3, 3), nice(0.3, 5), st.booleans()), quick=150)
def data_transform(t):
    """every case counts: TrData moments, inverse and distance"""
    seed, n, a, w, withms = t
    r = rs(seed)
    y = np.linspace(-4, 4, n)
    coef = 0.02 + 0.1 * r.rand()
    x = a + w * (y + coef * y ** 2 * (0.3 + 0.1 * y) / 2)
    if np.any(np.diff(x) <= 0):
        return None
    kw = dict(mean=a + 0.1, sigma=1.1 * w) if withms else {}
    if r.rand() < 0.5:
        kw.update(ymean=0.3, ysigma=0.8)
    g = TrData(y.copy(), x.copy(), **kw)
    ym, ys = kw.get('ymean', 0.0), kw.get('ysigma', 1.0)
    inv = lambda q: lin_eval(y, x, np.atleast_1d(q))
    close(g.mean, kw.get('mean', inv(ym)), 1e-9, 1e-9, 'mean of TrData')
    close(g.sigma, kw.get('sigma', (inv(ym + ys) - inv(ym - ys)) / 2), 1e-9, 1e-9, 'sigma of TrData')
    q = np.sort(r.rand(7)) * 7.9 - 3.95
    close(g.gauss2dat(q), inv(q), 1e-9, 1e-9, 'gauss2dat of a table')
    X, F = uniform_table(x, y, n)
    xs = x[0] + (x[-1] - x[0]) * np.sort(r.rand(9))
    close(g.dat2gauss(xs), lin_eval(X, F, xs), 1e-7, 1e-7, 'dat2gauss of a table')
    back = np.asarray(g.gauss2dat(g.dat2gauss(xs)))
    close(back, xs, 0, 0.6 * np.max(np.diff(x)), 'TrData round trip')
    check(g.trdata() is g, 'trdata of TrData is itself')
    xn = (xs - g.mean) / g.sigma
    yn = (lin_eval(X, F, xs) - ym) / ys
    e = (xn - yn) ** 2
    close(g.dist2gauss(x=xs), np.sum((e[1:] + e[:-1]) / 2 * np.diff(xn)), 1e-6, 1e-9, 'dist2gauss of a table')
    return True


@sub('C14', st.tuples(seeds(), nice(-3, 3), nice(0.3, 5), st.sampled_from(['l', 'linear', 'h', 'hermite', 'o', 'ochi']), st.integers(50, 400)),
     quick=100)
def parametric_transform_from_data(t):
    """every case counts: the estimated model has the sample moments of the series"""
    seed, a, w, method, n = t
    r = rs(seed)
    z = r.randn(n)
    x = a + w * (z + 0.15 * (z ** 2 - 1) * r.rand() * (1 if r.rand() < 0.7 else -1))
    ts = TimeSeries(x.copy(), np.arange(n) * 1.0)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            g = ts.trdata(method=method)
        except ValueError:
            if method[0] == 'h':
                return None
            raise
    g, g_emp = g
    check(type(g) is type(g_emp) and g.mean == g_emp.mean and g.sigma == g_emp.sigma, 'the two transformations differ', g, g_emp)
    same(ts.data, x, 'trdata changed the series')
    m, s = x.mean(), x.std()
    close(g.mean, m, 1e-9, 1e-9, 'mean'), close(g.sigma, s, 1e-9, 1e-9, 'sigma')
    sk = np.mean((x - m) ** 3) / s ** 3
    ku = np.mean((x - m) ** 4) / s ** 4 - 3
    if method[0] != 'l':
        close(g.skew, sk, 1e-8, 1e-9, 'skewness')
    if method[0] == 'h':
        k = min(min(4 * (4 * sk / 3) ** 2, 13), max(ku, 1.5 * sk ** 2)) + 3
        close(g.kurt, k, 1e-8, 1e-9, 'kurtosis')
    cls = dict(l=tm.TrLinear, h=tm.TrHermite, o=tm.TrOchi)[method[0]]
    check(isinstance(g, cls), 'class of the model', type(g))
    return method[0]


@sub('C14', st.tuples(seeds(), nice(-3, 3), nice(0.3, 5), st.sampled_from([60, 120, 301]), st.sampled_from([0, 3, 7]),
                      st.booleans(), st.sampled_from([10000, 40])), quick=60)
def transform_from_level_crossings(t):
    """every case counts: empirical transform by definition, exact for Gaussian crossings, equivariant"""
    seed, a, w, n, ne, intensity, ntr = t
    r = rs(seed)
    u = np.linspace(-4, 4, n)
    sk = 0.1 * r.rand()
    gu = u - sk * (u ** 2 - 1) * np.exp(-np.abs(u) / 3)
    for gauss in (True, False):
        cr = (200 if not intensity else 0.3) * np.exp(-0.5 * (u if gauss else gu) ** 2)
        mk = lambda aa, ww: LevelCrossings(cr.copy(), aa + ww * u, mean=aa, sigma=ww, intensity=intensity)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            lc = mk(a, w)
            g, ge = lc.trdata(ne=ne, ntr=ntr)
            g1, ge1 = mk(0.0, 1.0).trdata(ne=ne, ntr=ntr)
        same(lc.data, cr, 'trdata changed the crossings')
        close(g.args, a + w * np.linspace(-5, 5, 513), 1e-9, 1e-9, 'arguments of the smoothed transform')
        close(g.mean, a, 0, 0, 'mean'), close(g.sigma, w, 0, 0, 'sigma')
        if not (not gauss and not np.all(np.diff(g.data) > 0)):
            check(np.all(np.diff(g.data) > 0), 'smoothed transform is not increasing')
        if ntr >= n:
            cum = np.r_[0, np.cumsum((cr[1:] + cr[:-1]) / 2 * np.diff(a + w * u))]
            k = 0.5 / n if intensity else 0.5
            p = (cum + k) / (cum[-1] + 2 * k)
            from scipy.stats import norm
            close(ge.data, norm.ppf(p), 1e-7, 1e-7, 'empirical transform')
            close(ge.args, a + w * u, 1e-12, 1e-12, 'levels of the empirical transform')
            if gauss and n >= 120 and not intensity:
                v = np.linspace(-1, 1, 21)
                close(g.dat2gauss(a + w * v), v, 0, 0.15, 'transform of Gaussian crossings is linear')
    return 'resampled' if ntr < n else 'full'


def natural_smoothing(x, y, var, p, xq):
    """minimiser of p*sum((y-f)^2/var) + (1-p)*int f''^2, linear outside [dense, Reinsch form]"""
    n = len(x)
    h = np.diff(x)
    R = np.zeros((n - 2, n - 2))
    Q = np.zeros((n, n - 2))
    for j in range(n - 2):
        Q[j, j], Q[j + 1, j], Q[j + 2, j] = 1 / h[j], -1 / h[j] - 1 / h[j + 1], 1 / h[j + 1]
        R[j, j] = (h[j] + h[j + 1]) / 3
        if j + 1 < n - 2:
            R[j, j + 1] = R[j + 1, j] = h[j + 1] / 6
    A = p * R + (1 - p) * Q.T @ (var[:, None] * Q)
    c = np.linalg.solve(A, Q.T @ y)
    f = y - (1 - p) * var * (Q @ c)
    from scipy.interpolate import CubicSpline
    cs = CubicSpline(x, f, bc_type='natural')
    out = cs(np.clip(xq, x[0], x[-1]))
    return out + np.where(xq < x[0], cs(x[0], 1) * (xq - x[0]), 0) + np.where(xq > x[-1], cs(x[-1], 1) * (xq - x[-1]), 0)


@sub('C14', st.tuples(seeds(), nice(-3, 3), nice(0.5, 2), st.integers(40, 120), st.sampled_from([0, 3, 7]),
                      st.sampled_from([0.01, 0.05, 0.3]), st.sampled_from([1.0, 0.5, (3.5, 0.5, 3.5)]), st.booleans(),
                      st.sampled_from(['m', 'mnonlinear'])), quick=60)
def transform_from_marginal_distribution(t):
    """non-trivial: the series has ties; empirical transform by definition and its smoothing spline"""
    seed, a, w, n, ne, gsm, gvar, ties, method = t
    r = rs(seed)
    z = r.randn(n)
    x = a + w * (z + 0.1 * z ** 2)
    if ties:
        x = np.round(x, 1)
    ts = TimeSeries(x.copy(), np.arange(n) * 1.0)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g, ge = ts.trdata(method=method, ne=ne, gsm=gsm, gvar=gvar, chkder=False)
    same(ts.data, x, 'trdata changed the series')
    from scipy.stats import norm
    v = np.unique(x)[:-1]
    F = np.array([np.sum(x <= q) for q in v]) / (n + 1.0)
    close(ge.args, v, 1e-12, 1e-12, 'values of the empirical transform')
    close(ge.data, norm.ppf(F), 1e-8, 1e-8, 'empirical transform')
    for q in (g, ge):
        close(q.mean, x.mean(), 1e-9, 1e-9, 'mean'), close(q.sigma, x.std(), 1e-9, 1e-9, 'sigma')
    xq = x.mean() + x.std() * np.linspace(-5, 5, 513)
    close(g.args, xq, 1e-9, 1e-9, 'arguments of the smoothed transform')
    s = slice(ne, len(v) - ne)
    gv = np.atleast_1d(gvar)
    var = np.interp(np.linspace(0, 1, n), np.linspace(0, 1, len(gv)), gv) if len(gv) > 1 else np.full(n, float(gv[0]))
    last = np.array([np.sum(x <= q) for q in v]) - 1
    close(g.data, natural_smoothing(v[s], norm.ppf(F)[s], var[last][s], gsm, xq), 1e-5, 1e-5, 'smoothed transform')
    return ties and len(v) < n - 1
