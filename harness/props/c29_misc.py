"""C29 array and number utilities of wafo.misc and wafo.bitwise."""
import math
import re
import warnings

import mpmath as mp
import numpy as np
from hypothesis import strategies as st

import wafo.bitwise as wb
import wafo.misc as wm
from core import sub, check, close, same, arr, fail, unchanged, raises, known
from gens import fl, nice, rs, seeds, signals


# ------------------------------------------------------------------ trends and outliers
@st.composite
def trend_cases(draw):
    nd = draw(st.integers(1, 3))
    axis = draw(st.integers(-nd, nd - 1))
    shape = [draw(st.integers(1, 3)) for _ in range(nd)]
    shape[axis] = draw(st.integers(1, 24))
    return dict(shape=shape, axis=axis, L=draw(st.integers(1, 13)), kind=draw(st.sampled_from(['float', 'int', 'line', 'list'])), seed=draw(seeds()))


@sub('C29', trend_cases(), quick=600)
def trends(case):
    """a window that moves (at least 2L+2 samples)"""
    R = rs(case['seed'])
    shape, axis, L = tuple(case['shape']), case['axis'], case['L']
    x = np.round(3 * R.randn(*shape), 3)
    if case['kind'] == 'int':
        x = R.randint(-9, 10, size=shape)
    if case['kind'] == 'line':
        x = x * 0 + np.moveaxis(np.cumsum(np.ones(np.moveaxis(x, axis, 0).shape), axis=0), 0, axis)
    n = shape[axis]
    X = np.moveaxis(np.asarray(x, dtype=float), axis, 0)
    ref = np.empty(X.shape)
    for i in range(n):
        if n < 2 * L + 1:
            ref[i] = X.mean(axis=0)
        else:
            c = min(max(i, L), n - 1 - L)
            ref[i] = X[c - L:c + L + 1].mean(axis=0)
    ref = np.moveaxis(ref, 0, axis)
    arg = x.tolist() if case['kind'] == 'list' else x
    kw = {} if axis == 0 else dict(axis=axis)
    with unchanged('moving_average', x):
        y = wm.moving_average(arg, L, **kw)
        d = wm.detrendma(arg, L, **kw)
    y = np.asarray(y)
    if y.shape == ref.shape and n > 2 * L + 1 and not np.allclose(y, ref, 1e-12, 1e-11):
        # known finding: a recursion that is not the mean of 2L+1 values
        old = np.empty(X.shape)
        old[:L + 1] = X[:2 * L + 1].mean(axis=0)
        for i in range(L + 1, n):
            old[i] = old[i - 1] + (X[i + L] - X[i - L]) / (2 * L) if i < n - L else old[i - 1]
        old = np.moveaxis(old, 0, axis)
        if np.allclose(y, old, 1e-12, 1e-11):
            known('C29-1', 'moving_average(%s, L=%d) is %s, not %s' % (np.ravel(x).tolist(), L, np.ravel(y).tolist(), np.ravel(ref).tolist()))
            ref = old
    close(y, ref, 1e-12, 1e-11, 'moving_average(L=%d)' % L)
    close(d, np.asarray(x) - ref, 1e-12, 1e-11, 'detrendma(L=%d)' % L)
    raises(lambda: wm.moving_average(x, 0), 'moving_average with L=0', ValueError)
    raises(lambda: wm.moving_average(x, 1.5), 'moving_average with L=1.5', ValueError)
    return n >= 2 * L + 2


@st.composite
def outlier_cases(draw):
    x = draw(signals(min_size=3, max_size=30))
    nans = draw(st.lists(st.integers(0, len(x) - 1), max_size=3)) if draw(st.integers(0, 2)) == 0 else []
    for i in nans:
        x[i] = None
    return dict(x=x, zcrit=draw(st.sampled_from([0.0, 0.0, 0.5, 1.0, -1.0])), dcrit=draw(st.one_of(st.none(), nice(0.25, 6))),
                ddcrit=draw(st.one_of(st.none(), nice(0.25, 9))), shape=draw(st.sampled_from(['vec', 'col', 'list'])))


@sub('C29', outlier_cases(), quick=800)
def outliers(case):
    """some but not all points are spurious"""
    x = np.array([np.nan if v is None else v for v in case['x']])
    n = len(x)
    arg = x.reshape(-1, 1) if case['shape'] == 'col' else (x.tolist() if case['shape'] == 'list' else x)
    with unchanged('findoutliers', x):
        ind, good = wm.findoutliers(arg, zcrit=case['zcrit'], dcrit=case['dcrit'], ddcrit=case['ddcrit'])
    ind, good = np.asarray(ind), np.asarray(good)
    check(sorted(ind.tolist() + good.tolist()) == list(range(n)), 'indices %s and %s do not divide the %d points', ind, good, n)
    missing = np.flatnonzero(np.isnan(x))
    xn = np.where(np.isnan(x), 0, x)
    dc = 1.5 * xn.std() if case['dcrit'] is None else case['dcrit']
    ddc = 1.5 * xn.std() if case['ddcrit'] is None else case['ddcrit']
    dx, ddx = np.diff(xn), np.diff(xn, 2)
    tie = lambda v, c: np.any(np.abs(np.abs(v) - c) < 1e-9 * (1 + c))
    if tie(dx, dc) or tie(ddx, ddc):
        return False
    bad = set(ind.tolist())
    must = set(missing.tolist())
    may = set(must)
    for v, crit, k in [(dx, dc, 1), (ddx, ddc, 2)]:
        for i in np.flatnonzero(np.abs(v) > crit):
            check(bad & set(range(i, i + k + 1)), 'no point of the jump at %d..%d is spurious: %s', i, i + k, ind)
            may |= set(range(i, i + k + 1))
            # the point after a positive, the point before a negative jump
            must.add(i + 1 if v[i] > 0 else i)
    for i in np.flatnonzero(np.abs(dx) <= case['zcrit']):
        must |= {i, i + 1} | {j for j in (i - 1, i + 2) if 0 <= j < n}
        may |= {j for j in (i - 1, i, i + 1, i + 2) if 0 <= j < n}
    check(must <= bad, 'spurious points %s are not found, only %s', sorted(must - bad), sorted(bad))
    check(bad <= may, 'points %s are not spurious', sorted(bad - may))
    return 0 < len(bad) < n


# ------------------------------------------------------------------ special functions
posreal = st.one_of(st.integers(1, 30).map(float), fl(0.01, 40), fl(0.01, 2000), st.integers(1, 6).map(lambda k: 10.0 ** k), st.sampled_from([9.999, 10.0, 15.0, 16.0, 35.0, 36.0, 80.0, 81.0, 500.0, 501.0]))


@sub('C29', st.tuples(st.lists(st.tuples(posreal, posreal), min_size=1, max_size=6), st.sampled_from(['array', 'scalar', 'left', 'right'])), quick=400)
def special(t):
    """an argument of at least ten"""
    pairs, how = t
    mp.mp.dps = 40
    z, w = np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs])
    if how == 'left':
        z = np.full(len(w), z[0])
    if how == 'right':
        w = np.full(len(z), w[0])
    if how == 'scalar':
        z, w = z[:1], w[:1]
    err = lambda n: mp.loggamma(mp.mpf(n) + 1) - (mp.log(2 * mp.pi * n) / 2 + n * (mp.log(n) - 1))
    beta = lambda a, b: mp.loggamma(a) + mp.loggamma(b) - mp.loggamma(mp.mpf(a) + mp.mpf(b))
    arg = lambda v, scalar: float(v[0]) if scalar else v
    close(wm.stirlerr(arg(z, how in ('scalar', 'left'))), [float(err(v)) for v in (z[:1] if how == 'left' else z)], 1e-8, 3e-14, 'stirlerr(%s)' % z)
    v = wm.betaloge(arg(z, how in ('scalar', 'left')), arg(w, how in ('scalar', 'right')))
    ref = [float(beta(a, b)) for a, b in zip(z, w)]
    close(v, ref[0] if how == 'scalar' else ref, 1e-11, 1e-12 + 2e-15 * float(np.max((z + w) * np.log(2 + z + w))), 'betaloge(%s, %s)' % (z, w))
    # log of the binomial coefficient of z = n >= w
    n = z + w
    k = w
    lb = [float(mp.loggamma(mp.mpf(a) + 1) - mp.loggamma(mp.mpf(b) + 1) - mp.loggamma(mp.mpf(a) - mp.mpf(b) + 1)) for a, b in zip(n, k)]
    v = wm.binomln(arg(n, how == 'scalar'), arg(k, how in ('scalar', 'right')))
    close(v, lb[0] if how == 'scalar' else lb, 1e-10, 1e-11 + 2e-15 * float(np.max(n * np.log(2 + n))), 'binomln(%s, %s)' % (n, k))
    return bool(np.any(np.maximum(z, w) >= 10))


@sub('C29', st.tuples(st.lists(st.tuples(st.integers(0, 400), st.integers(0, 400)), min_size=1, max_size=6), st.booleans()), quick=300)
def binomials(t):
    """0 < w < z"""
    pairs, scalar = t
    z, w = np.array([p[0] for p in pairs]), np.array([p[1] for p in pairs])
    ref = np.array([math.log(math.comb(int(a), int(b))) if b <= a else -np.inf for a, b in zip(z, w)])
    if scalar:
        v = wm.binomln(int(z[0]), int(w[0]))
        ref = ref[0]
    else:
        v = wm.binomln(z, w)
    close(v, ref, 1e-12, 1e-12, 'binomln(%s, %s)' % (z, w))
    return any(0 < b < a for a, b in pairs)


# ------------------------------------------------------------------ selection
FUN = {'mul': lambda a, b: a * b, 'div': lambda a, b: a / 4.0 + b, 'sub': lambda a, b: a - b, 'sq': lambda a, b: (a + b) ** 2, 'half': lambda a, b: 0.5 * b - a}


@st.composite
def select_cases(draw):
    shape = draw(st.sampled_from([[4], [1], [3, 2], [2, 1], [2, 3, 2]]))
    k = draw(st.integers(1, 3))
    return dict(shape=shape, conds=[draw(seeds()) for _ in range(k)], funs=[draw(st.sampled_from(sorted(FUN))) for _ in range(k + 1)],
                ints=draw(st.booleans()), bcast=draw(st.booleans()), fill=draw(st.sampled_from([0, 0.0, -1, 2.5, None])), seed=draw(seeds()),
                p=draw(st.sampled_from([0.0, 0.5, 0.5, 0.8, 1.0])), consts=draw(st.booleans()))


@sub('C29', select_cases(), quick=600)
def selection(case):
    """conditions that are true at some elements and overlap"""
    R = rs(case['seed'])
    shape = tuple(case['shape'])
    a = R.randint(-5, 6, size=shape)
    b = R.randint(-5, 6, size=shape[-1:] if case['bcast'] else shape)
    if not case['ints']:
        a, b = a / 4.0, b / 4.0
    A, B = np.broadcast_arrays(a, b)
    conds = [rs(s).rand(*shape) < case['p'] for s in case['conds']]
    funs = [FUN[f] for f in case['funs']]
    k = len(conds)
    # lazywhere
    fill = case['fill']
    c = conds[0]
    f2 = funs[1] if fill is None else None
    ref = [funs[0](x, y) if q else (fill if f2 is None else f2(x, y)) for q, x, y in zip(c.ravel(), A.ravel(), B.ravel())]
    with unchanged('lazywhere', a, b, c):
        v = wm.lazywhere(c, (a, b), funs[0], fillvalue=fill, f2=f2)
    close(v, np.reshape(ref, shape), 1e-13, 0, 'lazywhere(fillvalue=%s)' % fill)
    raises(lambda: wm.lazywhere(c, (a, b), funs[0]), 'lazywhere without fillvalue and f2', ValueError)
    raises(lambda: wm.lazywhere(c, (a, b), funs[0], fillvalue=0, f2=funs[1]), 'lazywhere with fillvalue and f2', ValueError)
    # lazyselect: the first true condition decides, as in numpy.select
    default = 0 if fill is None else fill
    out = []
    for i, (x, y) in enumerate(zip(A.ravel(), B.ravel())):
        hit = [f for q, f in zip(conds, funs) if q.ravel()[i]]
        out.append(hit[0](x, y) if hit else default)
    with unchanged('lazyselect', a, b, *conds):
        v = wm.lazyselect(conds, funs[:k], (a, b), default=default)
    close(v, np.reshape(out, shape), 1e-13, 0, 'lazyselect of %d conditions' % k)
    # piecewise: the last true condition decides, values have the type of the arguments
    fa = [i + 1 for i in range(k + 1)] if case['consts'] else funs
    if case['ints'] and not case['consts']:
        fa = [FUN[f if f in ('mul', 'sub', 'sq') else 'sub'] for f in case['funs']]
    for extra in (0, 1):
        out = []
        for i, (x, y) in enumerate(zip(A.ravel(), B.ravel())):
            hit = [f for q, f in zip(conds, fa) if q.ravel()[i]]
            if not hit and extra:
                hit = [fa[k]]
            out.append(0 if not hit else (hit[-1] if case['consts'] else hit[-1](x, y)))
        out = np.reshape(out, shape)
        if case['ints']:
            out = out.astype(int)
        with unchanged('piecewise', a, b, *conds):
            v = wm.piecewise(conds, fa[:k + extra], xi=(a, b))
        close(v, out, 1e-13, 0, 'piecewise of %d conditions and %d functions' % (k, k + extra))
        if case['consts']:
            close(wm.piecewise(conds, fa[:k + extra]), out, 0, 0, 'piecewise of constants')
    raises(lambda: wm.piecewise(conds, fa[:1] * (k + 2), xi=(a, b)), 'piecewise with too many functions', ValueError)
    # argsreduce
    for cond in (c, c.astype(int), c.tolist()):
        got = wm.argsreduce(cond, a, b, 7)
        check(len(got) == 3, 'argsreduce returns %d arrays', len(got))
        for g, full in zip(got, (A, B, np.full(shape, 7))):
            close(g, full[c], 0, 0, 'argsreduce')
    check(wm.common_shape(a, b, 2) == A.shape, 'common_shape')
    check(wm.common_shape(2, shape=shape) == shape, 'common_shape with shape')
    return k > 1 and bool(np.any(np.sum(conds, axis=0) > 1)) and not all(np.all(q) for q in conds)


# ------------------------------------------------------------------ geometry and indices
@sub('C29', st.tuples(*[st.one_of(st.sampled_from([0, 90, -90, 180, 45, 360]), fl(-400, 400)) for _ in range(3)], seeds(), st.integers(1, 6)), quick=300)
def geometry(t):
    """a rotation about at least two axes"""
    h, p, r, seed, num = t
    R = rs(seed)
    c, s = lambda v: math.cos(math.radians(v)), lambda v: math.sin(math.radians(v))
    M = (np.array([[c(h), -s(h), 0], [s(h), c(h), 0], [0, 0, 1]])
         .dot(np.array([[c(p), 0, s(p)], [0, 1, 0], [-s(p), 0, c(p)]]))
         .dot(np.array([[1, 0, 0], [0, c(r), -s(r)], [0, s(r), c(r)]])))
    close(wm.rotation_matrix(h, p, r), M, 0, 1e-12, 'rotation_matrix(%s, %s, %s)' % (h, p, r))
    x, y, z = R.randn(3, 2, 2)
    close(np.array(wm.rotate(x, y, z, h, p, r)), np.einsum('ij,jkl->ikl', M, np.array([x, y, z])), 0, 1e-11, 'rotate')
    close(np.array(wm.rotate_2d(x, y, h)), [c(h) * x - s(h) * y, s(h) * x + c(h) * y], 0, 1e-12, 'rotate_2d')
    th, rho = wm.cart2polar(x, y)
    close(rho, np.sqrt(x * x + y * y), 1e-12, 0, 'cart2polar')
    close(th, np.vectorize(math.atan2)(y, x), 1e-12, 1e-15, 'cart2polar angle')
    back = wm.polar2cart(th, rho, z)
    for g, w in zip(back, (x, y, z)):
        close(g, w, 1e-12, 1e-13, 'polar2cart(cart2polar)')
    check(len(wm.polar2cart(th, rho)) == 2 and len(wm.cart2polar(x, y, z)) == 3, 'number of coordinates')
    a, b = R.randint(-5, 6, size=(2, 3))
    pts = wm.spaceline(tuple(a), tuple(b), num=num)
    ref = [a + (b - a) * (k / (num - 1.0) if num > 1 else 0.5) for k in range(num)]
    close(pts, ref, 1e-12, 1e-12, 'spaceline(%s, %s, %d)' % (a, b, num))
    pos, shape = wm.args_flat(x, y[0], 2.0)
    check(shape == (2, 2) and pos.shape == (4, 3), 'args_flat shapes')
    close(pos, np.array([x.ravel(), np.broadcast_to(y[0], (2, 2)).ravel(), np.full(4, 2.0)]).T, 0, 0, 'args_flat')
    p1, s1 = wm.args_flat(pos)
    check(s1 is None, 'args_flat of positions')
    close(p1, pos, 0, 0, 'args_flat of positions')
    raises(lambda: wm.args_flat(x, y), 'args_flat with two arguments', ValueError)
    raises(lambda: wm.args_flat(pos[:, :2]), 'args_flat with two columns', ValueError)
    X, Y = wm.ndgrid([1, 2, 3], list(range(num)))
    check(X.shape == (3, num), 'ndgrid shape')
    close(X[:, 0], [1, 2, 3], 0, 0, 'ndgrid')
    close(Y[0], np.arange(num), 0, 0, 'ndgrid')
    shp = (2, num, 3)
    for order in 'CF':
        i, j, k = R.randint(2), R.randint(num), R.randint(3)
        ix = wm.sub2index(shp, i, j, k, order=order)
        ref = (i * num + j) * 3 + k if order == 'C' else i + 2 * (j + num * k)
        check(ix == ref, 'sub2index gives %s for %s order %s', ix, (i, j, k), order)
        check(tuple(int(v) for v in wm.index2sub(shp, ix, order=order)) == (i, j, k), 'index2sub')
    v = R.permutation(12)[:8]
    close(wm.narg_smallest(v, 3), sorted(range(8), key=lambda q: v[q])[:3], 0, 0, 'narg_smallest')
    hay = R.randint(0, 3, size=9).tolist()
    where = [q for q in range(9) if hay[q] == 1]
    check(list(wm.lfind(hay, 1)) == where, 'lfind')
    check(list(wm.lfind(tuple(hay), 1, 2)) == where[:2], 'lfind with maxiter')
    return sum(v % 360 != 0 for v in (h, p, r)) >= 2


# ------------------------------------------------------------------ discretisation and histograms
SMOOTH = {'exp': lambda c: (lambda x: np.exp(c * x)), 'sin': lambda c: (lambda x: 2.5 + np.sin(c * x)), 'inv': lambda c: (lambda x: 1.0 / (x * x + 0.3 + abs(c))),
          'lin': lambda c: (lambda x: c * x + 1), 'gauss': lambda c: (lambda x: np.exp(-(x - c) ** 2))}


@sub('C29', st.tuples(st.sampled_from(sorted(SMOOTH)), nice(-2, 2), nice(-2, 2), nice(0.2, 4), st.sampled_from([0.05, 0.005, 0.001]), st.integers(4, 9),
                      st.sampled_from(['linear', 'adaptive'])), quick=300)
def discretisation(t):
    """a curved function"""
    kind, c, a, width, tol, n, method = t
    f, b = SMOOTH[kind](c), a + width
    x, y = wm.discretize(f, a, b, tol=tol, n=n, method=method)
    x, y = np.asarray(x), np.asarray(y)
    check(x.shape == y.shape and x.ndim == 1 and len(x) >= n, 'discretize returns %d values for n=%d', len(x), n)
    check(np.all(np.diff(x) > 0), 'discretize arguments are not increasing')
    close([x[0], x[-1]], [a, b], 1e-13, 1e-13, 'discretize end points')
    close(y, f(x), 1e-12, 1e-12, 'discretize values')
    xx = np.linspace(a, b, 997)
    err = np.abs(np.interp(xx, x, y) - f(xx)) / (np.abs(f(xx)) + tol)
    check(err.max() <= (2.5 if method == 'linear' else 15) * tol, 'discretize(%s, tol=%g) interpolates with error %g', method, tol, err.max())
    if method == 'linear':
        close(np.diff(x), np.full(len(x) - 1, (b - a) / (len(x) - 1)), 1e-9, 0, 'linear spacing')
    return kind != 'lin' and c != 0


@sub('C29', st.tuples(seeds(), st.integers(2, 60), nice(-50, 50), st.sampled_from([0.01, 1.0, 7.3, 1000.0]), st.one_of(st.none(), st.integers(3, 30)), st.booleans(),
                      st.booleans(), st.booleans(), st.sampled_from(['good', 'int', 'edges', 'none']), st.booleans()), quick=300)
def histograms(t):
    """at least three bins with data"""
    seed, n, loc, scale, nb, odd, loose, userange, bins, density = t
    R = rs(seed)
    x = loc + scale * R.rand(n)
    lo, hi = (float(x.min()), float(x.max()))
    if hi - lo < 1e-6 * scale:
        return False
    if userange:
        lo, hi = lo - scale, hi + scale / 3
    lim = wm.good_bins(x, range=(lo, hi) if userange else None, num_bins=nb, odd=odd, loose=loose)
    d = lim[1] - lim[0]
    close(np.diff(lim), np.full(len(lim) - 1, d), 1e-6, 0, 'good_bins are of equal width')
    m = d / 10 ** math.floor(math.log10(d * (1 + 1e-9)))
    check(min(abs(m - v) for v in (1, 2, 5)) < 1e-6 * m * (1 + abs(loc) / scale), 'good_bins width %g is not 1, 2 or 5 times a power of ten', d)
    check(lim[0] <= lo + 1e-9 * (d + abs(lo)) and lim[-1] >= hi - 1e-9 * (d + abs(hi)), 'good_bins %s..%s do not cover %s..%s', lim[0], lim[-1], lo, hi)
    extra = loose + odd * 0.5
    check(lo - lim[0] < (1 + extra) * d * (1 + 1e-6) and lim[-1] - hi < (1 + extra) * d * (1 + 1e-6), 'good_bins %s..%s wider than %s..%s by more than %g bins', lim[0], lim[-1], lo, hi, 1 + extra)
    check(lo - lim[0] > (extra - 1e-6) * d - 1e-9 * abs(lo) and lim[-1] - hi > (extra - 1e-6) * d - 1e-9 * abs(hi), 'good_bins margins')
    k = lim[0] / d - 0.5 * odd
    check(abs(k - round(k)) < 1e-4 + 2e-15 * abs(k) * abs(lim[0]) / d, 'good_bins limits are not at multiples of the width')
    want = nb if nb else math.ceil(4 * len(x) ** 0.25)
    got = (hi - lo) / d
    check(0.499 * want <= got <= 1.26 * want, 'good_bins: %g bins over the range for %d', got, want)
    # histogram curve
    edges = {'good': lim, 'int': 5, 'edges': np.array([lo, 0.7 * lo + 0.3 * hi, hi]), 'none': None}[bins]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with unchanged('plot_histgrm', x, *([edges] if isinstance(edges, np.ndarray) else [])):
            h = wm.plot_histgrm(x, edges, density=density)
    if edges is None or bins == 'int':
        kk = edges or math.ceil(4 * len(x) ** 0.25)
        edges = np.linspace(x.min(), x.max(), kk + 1)
    else:
        check(edges.ndim == 1, 'plot_histgrm changed the shape of the bins')
    xx, yy = h[0].get_data()
    import matplotlib.pyplot as plt
    plt.close('all')
    xx, yy = np.ravel(xx), np.ravel(yy)
    cnt = np.array([np.sum((x >= a) & ((x < b) | ((i == len(edges) - 2) & (x <= b)))) for i, (a, b) in enumerate(zip(edges[:-1], edges[1:]))], dtype=float)
    if np.any(np.abs(x[:, None] - edges[None, 1:-1]) < 1e-9 * (scale + abs(loc))) or np.sum(cnt) < n:
        return False
    if density:
        cnt = cnt / n / np.diff(edges)
    mid = 0.5 * (edges[1:] + edges[:-1])
    close(xx, np.repeat(edges, 3)[1:-1], 1e-12, 1e-12, 'histogram abscissae')
    ref = np.append(np.repeat(cnt, 3), 0)
    ref[::3] = 0
    close(yy, ref, 1e-10, 0, 'histogram ordinates')
    return int(np.sum(cnt > 0)) >= 3


# ------------------------------------------------------------------ Fourier series
@sub('C29', st.tuples(seeds(), st.integers(1, 3), st.integers(1, 6), st.sampled_from([2 * np.pi, 1.0, 3.7, 10.0]), st.integers(1, 3), st.sampled_from(['trapz', 'simps']), fl(-2, 2),
                      st.booleans()), quick=300)
def fourier_series(t):
    """several harmonics"""
    seed, p, m, T, nper, method, t0, default = t
    R = rs(seed)
    m = max(m, 1)
    n = 48 * nper + 1
    tt = t0 + np.linspace(0, nper * T, n)
    A, B = np.round(R.randn(m, p), 3), np.round(R.randn(m, p), 3)
    B[0] = 0
    w = 2 * np.pi / T
    x = np.array([[0.5 * A[0, j] + sum(A[k, j] * math.cos(k * w * s) + B[k, j] * math.sin(k * w * s) for k in range(1, m)) for s in tt] for j in range(p)])
    kw = {} if (default and nper == 1) else dict(period=T)
    with unchanged('fourier', x, tt):
        a, b = wm.fourier(x if p > 1 else x[0], tt, m=m, method=method, **kw)
        check(tt.ndim == 1, 'fourier changed the shape of t to %s', tt.shape)
    tol = 1e-9 if method == 'trapz' else 3e-2
    close(a, nper * A, tol, tol * (1 + np.abs(A).max()), 'cosine coefficients over %d periods of length %g' % (nper, T))
    close(b, nper * B, tol, tol * (1 + np.abs(B).max()), 'sine coefficients over %d periods of length %g' % (nper, T))
    return m > 1


# ------------------------------------------------------------------ numbers
SHIP = {'length': (3.45, 0.40), 'beam': (1.78, 0.27), 'draught': (0.80, 0.24), 'service_speed': (1.14, 0.21)}


@sub('C29', st.tuples(st.sampled_from(['length', 'beam', 'draught', 'draft', 'service_speed', 'max_deadweight', 'propeller_diameter']), nice(100, 100000)), quick=200)
def ships(t):
    """non-trivial: always"""
    prop, dw = t
    L = 3.45 * dw ** 0.4
    key = 'draught' if prop == 'draft' else prop
    val = dw if key == 'max_deadweight' else (0.12 * L ** 0.75 if key == 'propeller_diameter' else SHIP[key][0] * dw ** SHIP[key][1])
    sc = wm.getshipchar(**{prop: val})
    names = ['beam', 'draught', 'length', 'max_deadweight', 'propeller_diameter', 'service_speed']
    check(sorted(sc) == sorted(names + [v + 'STD' for v in names]), 'getshipchar keys %s', sorted(sc))
    # values are rounded: to metres, tenths and tonnes
    close(sc['length'], L, 0, 0.5 + 1e-6, 'length')
    for k in ('beam', 'draught', 'service_speed'):
        close(sc[k], SHIP[k][0] * dw ** SHIP[k][1], 0, 0.05 + 1e-6, k)
    close(sc['max_deadweight'], dw, 1e-9, 0.5 + 1e-6, 'max_deadweight')
    close(sc['propeller_diameter'], 0.12 * sc['length'] ** 0.75, 1e-10, 0, 'propeller_diameter')
    std = dict(beam=0.1 * sc['beam'], draught=0.22 * sc['draught'], length=sc['length'] ** 0.13, max_deadweight=0.1 * sc['max_deadweight'],
               propeller_diameter=0.12 * (sc['length'] ** 0.13) ** 0.75, service_speed=0.1 * sc['service_speed'])
    for k in names:
        close(sc[k + 'STD'], 0 if k == key else std[k], 1e-10, 1e-12, k + 'STD of a ship given by its ' + prop)
    return True


@sub('C29', st.tuples(st.integers(-30, 30), st.integers(1, 14), fl(-20, 20), st.integers(1, 6)), quick=300)
def pi_fractions(t):
    """a fraction of pi with numerator and denominator below ten"""
    num, den, x, n = t
    f = math.gcd(num, den)
    a, b = num // f, den // f
    s = wm.num2pistr(np.pi * num / den, n)
    if 0 < abs(a) < 10 and b < 10:
        want = ('-' if a < 0 else '') + ('' if abs(a) == 1 else str(abs(a))) + r'\pi' + ('' if b == 1 else '/%d' % b)
        check(s == want, 'num2pistr(%d*pi/%d) = %r', num, den, s)
    else:
        check(s == '%.*g' % (n, np.pi * num / den), 'num2pistr(%d*pi/%d) = %r', num, den, s)
    s = wm.num2pistr(x, n)
    if 'pi' not in s:
        check(s == '%.*g' % (n, x), 'num2pistr(%r) = %r', x, s)
    else:
        q = re.match(r'^(-?)(\d*)\\pi(?:/(\d+))?$', s)
        check(q is not None, 'num2pistr(%r) = %r', x, s)
        close(x, (-1 if q.group(1) else 1) * int(q.group(2) or 1) * np.pi / int(q.group(3) or 1), 1e-12, 0, s)
    # other numbers
    phi = math.radians(9 * x)
    close(wm.gravity(9 * x), 9.78049 * (1 + 0.0052884 * math.sin(phi) ** 2 - 0.0000059 * math.sin(2 * phi) ** 2), 1e-13, 0, 'gravity')
    v = abs(x) * 10 ** (n - 3)
    if v > 0:
        e = int(wm.nextpow2(v))
        check(2.0 ** e >= v > 2.0 ** (e - 1), 'nextpow2(%r) = %d', v, e)
        check(int(wm.nextpow2(2.0 ** n)) == n, 'nextpow2 of a power of two')
    k = abs(num) + 2
    e = int(wm.nextpow2(np.zeros(k)))
    check(2 ** e >= k > 2 ** (e - 1), 'nextpow2 of an array of length %d is %d', k, e)
    return 0 < abs(a) < 10 and b < 10


@sub('C29', st.tuples(st.lists(st.integers(0, 2 ** 40), min_size=1, max_size=5), st.integers(0, 45), st.integers(0, 1), st.integers(1, 45), st.booleans()), quick=300)
def bits(t):
    """bits of both kinds"""
    vals, bit, value, nbits, scalar = t
    i = vals[0] if scalar else np.array(vals)
    L = vals[:1] if scalar else vals
    got = wb.getbit(i, bit)
    close(np.ravel(got), [(v >> bit) & 1 for v in L], 0, 0, 'getbit(%s, %d)' % (i, bit))
    with unchanged('setbit', *([] if scalar else [i])):
        new = np.ravel(wb.setbit(i, bit, value))
    close(new, [(v | (1 << bit)) if value else (v & ~(1 << bit)) for v in L], 0, 0, 'setbit(%s, %d, %d)' % (i, bit, value))
    close(np.ravel(wb.setbit(i, bit)), [v | (1 << bit) for v in L], 0, 0, 'setbit(%s, %d)' % (i, bit))
    bl = wb.getbits(vals[0], nbits)
    close(np.ravel(bl), [(vals[0] >> k) & 1 for k in range(nbits)], 0, 0, 'getbits(%d, %d)' % (vals[0], nbits))
    check(int(wb.setbits(bl)) == vals[0] % 2 ** nbits, 'setbits(getbits(%d, %d)) = %s', vals[0], nbits, wb.setbits(bl))
    check(int(wb.setbits(list(bl))) == vals[0] % 2 ** nbits, 'setbits of a list')
    # several positions and values at once
    pos = np.arange(nbits)
    z = wb.setbit(vals[0], pos, pos % 2)
    close(z, [(vals[0] | (1 << k)) if k % 2 else (vals[0] & ~(1 << k)) for k in range(nbits)], 0, 0, 'setbit with arrays')
    return len(set(((vals[0] >> k) & 1) for k in range(nbits))) == 2


@sub('C29', st.tuples(st.dictionaries(st.sampled_from('abcdef'), st.integers(0, 9)), st.dictionaries(st.sampled_from('abcdef'), st.integers(0, 9)), st.integers(0, 9999)), quick=150)
def options(t):
    """options with some but not all of the keywords"""
    opt, kw, seed = t
    o = dict(opt)
    got = wm.sub_dict_select(kw, o)
    check(got == {k: kw[k] for k in kw if k in opt} and type(got) is dict, 'sub_dict_select gives %s', got)
    res = wm.parse_kwargs(dict(o), **kw)
    check(res == {k: kw.get(k, opt[k]) for k in opt}, 'parse_kwargs gives %s', res)
    b = wm.Bunch(**opt)
    b.update(**kw)
    check(sorted(b.keys()) == sorted(set(opt) | set(kw)), 'Bunch keys')
    check(all(getattr(b, k) == dict(opt, **kw)[k] for k in b.keys()), 'Bunch values')
    d = wm.DotDict(opt)
    check(all(getattr(d, k) == opt[k] for k in opt), 'DotDict')
    r1, r2 = wm.check_random_state(seed), wm.check_random_state(np.random.RandomState(seed))
    close(r1.rand(3), r2.rand(3), 0, 0, 'check_random_state')
    check(wm.check_random_state(r1) is r1, 'check_random_state of a RandomState')
    raises(lambda: wm.check_random_state(2.5), 'check_random_state(2.5)', ValueError)
    np.random.seed(seed)
    u = wm.check_random_state(None).rand()
    check(u == np.random.RandomState(seed).rand(), 'check_random_state(None) is not the global state')
    v = wm.valarray((2, 3), seed)
    check(v.shape == (2, 3) and np.all(v == seed), 'valarray')
    check(np.all(np.isnan(wm.valarray(3))), 'valarray default')
    return 0 < len(set(kw) & set(opt)) < len(opt)
