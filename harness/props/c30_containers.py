"""C30 data containers: interpolation, integration, plotted curves; crossing spectra: estimation, extrapolation, simulation."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

import wafo.containers as wc
import wafo.objects as wo
from core import sub, check, close, same, arr, fail, unchanged, raises
from gens import fl, nice, rs, seeds


@st.composite
def curve_cases(draw):
    n = draw(st.integers(2, 12))
    return dict(n=n, even=draw(st.booleans()), cols=draw(st.sampled_from([0, 0, 1, 2, 3])), seed=draw(seeds()), a=draw(st.one_of(st.none(), fl(0, 1), st.sampled_from([0.0, 0.5, 1.0]))),
                b=draw(st.one_of(st.none(), fl(0, 1), st.sampled_from([0.0, 0.5, 1.0]))), snap=draw(st.booleans()), ci=draw(st.integers(0, 2)))


def lin(x, y, t):
    """piecewise linear value by its definition"""
    if t < x[0] or t > x[-1]:
        return np.nan * y[0]
    for i in range(len(x) - 1):
        if x[i] <= t <= x[i + 1]:
            w = (t - x[i]) / (x[i + 1] - x[i])
            return (1 - w) * y[i] + w * y[i + 1]


def integral(x, y, a, b):
    """exact integral of the piecewise linear function"""
    pts = sorted({a, b} | {t for t in x if a < t < b})
    return sum(0.5 * (q - p) * (lin(x, y, p) + lin(x, y, q)) for p, q in zip(pts[:-1], pts[1:])) + 0 * y[0]


@sub('C30', curve_cases(), quick=500)
def curves(case):
    """an interval that ends inside and contains data points"""
    R = rs(case['seed'])
    n, k = case['n'], case['cols']
    x = np.linspace(-1, 2, n) if case['even'] else np.cumsum(R.randint(1, 5, size=n)) / 4.0 - 1
    y = np.round(R.randn(n, k) if k else R.randn(n), 3)
    lo, hi = x[0], x[-1]
    pick = lambda v: None if v is None else float(x[int(round(v * (n - 1)))] if case['snap'] else lo + v * (hi - lo))
    a, b = pick(case['a']), pick(case['b'])
    if a is not None and b is not None and a > b:
        a, b = b, a
    A, B = (lo if a is None else a), (hi if b is None else b)
    kids = [wc.PlotData(y * (i + 2) + 1, x) for i in range(case['ci'])]
    d = wc.PlotData(y, x, xlab='xx', ylab='yy', title='tt', children=kids or None)
    with unchanged('PlotData', x, y):
        got = d.integrate(a, b)
        ref = integral(x, y, A, B)
        close(got, ref, 1e-10, 1e-10, 'integrate(%s, %s) of %s at %s' % (a, b, y.tolist(), x.tolist()), shape=False)
        if kids:
            full = np.ravel(d.integrate(a, b, return_ci=True))
            close(full, np.hstack([np.ravel(ref)] + [np.ravel(integral(x, c.data, A, B)) for c in kids]), 1e-10, 1e-9, 'integrate with return_ci')
        t = np.sort(lo - 0.3 + (hi - lo + 0.6) * R.rand(7))
        t[2] = x[R.randint(n)]
        v = d.eval_points(t)
        close(v, [lin(x, y, s) for s in t], 1e-10, 1e-10, 'eval_points(%s)' % t.tolist())
        close(d.interpolate(t), v, 0, 0, 'interpolate')
        near = d.eval_points(t[(t > lo) & (t < hi)], method='nearest')
        for s, g in zip(t[(t > lo) & (t < hi)], near):
            dist = np.abs(x - s)
            check(any(np.allclose(g, y[j], 1e-12, 1e-12) for j in np.flatnonzero(dist <= dist.min() + 1e-9)), 'nearest value at %s', s)
        close(d.eval_points(t, fill_value=5.0)[(t < lo) | (t > hi)], np.full(np.shape(v[(t < lo) | (t > hi)]), 5.0), 0, 0, 'fill_value')
        if not k:
            c = d.to_cdf()
            close(c.data, [integral(x, y, lo, s) for s in x], 1e-10, 1e-10, 'to_cdf')
            close(c.args, x, 0, 0, 'to_cdf arguments')
            c.args[0] = 99
            check(x[0] != 99, 'to_cdf shares its arguments with the data')
    e = d.copy()
    check(type(e) is type(d) and e is not d, 'copy')
    check(e.data is d.data or np.array_equal(e.data, d.data), 'copied data')
    e.data = e.data + 1
    e.newattribute = 3
    check(np.array_equal(d.data, y) and not hasattr(d, 'newattribute'), 'a change of the copy changes the original')
    lab = d.labels.copy()
    check((lab.title, lab.xlab, lab.ylab) == ('tt', 'xx', 'yy'), 'labels %s', lab)
    lab.xlab = 'new'
    check(d.labels.xlab == 'xx', 'a change of the copied labels changes the original')
    return bool(np.any((A < x) & (x < B)) and (lo < A < hi or lo < B < hi))


@sub('C30', st.tuples(seeds(), st.integers(2, 5), st.integers(2, 5), st.booleans(), st.lists(st.tuples(fl(-0.1, 1.1), fl(-0.1, 1.1)), min_size=1, max_size=6)), quick=200)
def surfaces(t):
    """non-square grid and a point inside"""
    seed, nx, ny, even, pts = t
    R = rs(seed)
    x = np.linspace(0, 2, nx) if even else np.cumsum(R.randint(1, 4, size=nx)) / 2.0
    y = np.linspace(-1, 0, ny) if even else np.cumsum(R.randint(1, 4, size=ny)) / 3.0
    c = np.round(R.randn(3), 2)
    f = lambda u, v: c[0] + c[1] * u + c[2] * v
    data = np.array([[f(u, v) for u in x] for v in y])              # rows: second argument
    d = wc.PlotData(data, [x, y])
    px = np.array([x[0] + p * (x[-1] - x[0]) for p, _ in pts])
    py = np.array([y[0] + q * (y[-1] - y[0]) for _, q in pts])
    edge = lambda v, w: np.min(np.abs(v[:, None] - np.array([w[0], w[-1]])), axis=1) < 1e-9
    inside = (px >= x[0]) & (px <= x[-1]) & (py >= y[0]) & (py <= y[-1])
    skip = edge(px, x) | edge(py, y)
    with unchanged('eval_points', x, y, data, px, py):
        v = np.asarray(d.eval_points(px, py))
        w = np.asarray(d.eval_points(px, py, fill_value=-7.0))
    check(v.shape == px.shape, 'eval_points gives shape %s for %d points', v.shape, len(px))
    # linear interpolation reproduces linear functions inside and is nan outside
    close(v[inside & ~skip], f(px, py)[inside & ~skip], 1e-9, 1e-9, 'eval_points of a plane')
    check(np.all(np.isnan(v[~inside & ~skip])), 'values outside the grid %s', v)
    check(np.all(w[~inside & ~skip] == -7.0), 'fill value outside the grid %s', w)
    # arbitrary data at the grid points
    z = np.round(R.randn(ny, nx), 3)
    X, Y = np.meshgrid(x, y)
    got = wc.PlotData(z, (x, y)).eval_points(X.ravel(), Y.ravel(), method='nearest')
    close(got, z.ravel(), 1e-12, 1e-12, 'nearest at the grid points')
    for m in ('integrate', 'to_cdf'):
        raises(lambda: getattr(d, m)(), m + ' of a surface', NotImplementedError)
    return nx != ny and bool(np.any(inside))


FLAG = {0: lambda F, f: f, 1: lambda F, f: 1 - f, 2: lambda F, f: F, 3: lambda F, f: 1 - F, 4: lambda F, f: np.log(f), 5: lambda F, f: np.log(1 - f), 6: lambda F, f: np.log(F),
        7: lambda F, f: np.log(1 - F), 8: lambda F, f: 10 * np.log10(f)}
SCALES = ['linear', 'xlog', 'ylog', 'xylog', 'zlog', 'xzlog', 'yzlog', 'xyzlog']
NAMES = ['f', '1-f', 'cumtrapz(f)', '1-cumtrapz(f)', 'log(f)', 'log(1-f)', 'log(cumtrapz(f))', 'log(1-cumtrapz(f))', '10log10(f)']


@sub('C30', st.tuples(seeds(), st.integers(2, 9), st.integers(0, 8), st.integers(0, 3), st.sampled_from([1, 1, 2]), st.sampled_from(['plot', 'semilogy', 'step', None]), st.integers(0, 2),
                      st.tuples(*[st.integers(0, 2)] * 3)), quick=150)
def plotted(t):
    """a transformation of the data is plotted"""
    import matplotlib.pyplot as plt
    seed, n, tr, scale, kind, method, nkids, digits = t
    R = rs(seed)
    x = np.cumsum(R.rand(n) + 0.1)
    f = 0.9 * R.rand(n) / (x[-1] - x[0] + 1) + 0.01
    F = np.array([integral(x, f, x[0], s) for s in x])
    flag = scale * 100 + tr * 10 + kind
    for i in range(8):
        check(wc.plotscale(i * 100 + tr * 10 + kind) == SCALES[i], 'plotscale(%d)', i * 100)
    big = 100 * (digits[0] + 10 * digits[1] + 100 * digits[2])
    if big >= 800:
        name = SCALES[(digits[0] > 0) + 2 * (digits[1] > 0) + 4 * (digits[2] > 0)]
        check(wc.plotscale(big) == name, 'plotscale(%d) = %s', big, wc.plotscale(big))
    check(wc.plotflag2transform_id(flag) == NAMES[tr], 'plotflag2transform_id(%d) = %s', flag, wc.plotflag2transform_id(flag))
    check(wc.transform_id2plotflag2(NAMES[tr]) == 10 * tr, 'transform_id2plotflag2')
    check(wc.plotflag2plottype_1d(flag) == {1: 'plot', 2: 'step'}[kind], 'plotflag2plottype_1d')
    kids = [wc.PlotData(f + i + 1, x) for i in range(nkids)]
    d = wc.PlotData(f, x, plotmethod=method, title='tt', xlab='xx', ylab='yy', children=kids or None)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ax = plt.figure().gca()
            with unchanged('plot', x, f):
                d.plot(axis=ax, plotflag=flag)
                line = ax.get_lines()[0].get_data()
                ref = FLAG[tr](F, f)
                ok = np.isfinite(ref)
                m = len(line[0])
                check(m == n or (m == n - 1 and tr in (2, 3, 6, 7)), '%d of %d values plotted with plotflag %d', m, n, flag)
                close(line[0], x[n - m:], 1e-12, 0, 'abscissae with plotflag %d' % flag)
                ok = ok[n - m:]
                close(np.asarray(line[1])[ok], ref[n - m:][ok], 1e-9, 1e-12, 'ordinates with plotflag %d' % flag)
                check((ax.get_title(), ax.get_xlabel(), ax.get_ylabel()) == ('tt', 'xx', 'yy') or '\n' in ax.get_title(), 'labels')
                check((ax.get_xscale() == 'log', ax.get_yscale() == 'log') == (scale in (1, 3), scale in (2, 3)), 'scales %s %s with plotflag %d', ax.get_xscale(), ax.get_yscale(), flag)
                ax = plt.figure().gca()
                d.plot(axis=ax)
                lines = [q.get_data() for q in ax.get_lines()]
                check(len(lines) == 1 + nkids, '%d lines plotted for %d objects', len(lines), 1 + nkids)
                want = [c.data for c in kids] + [f]
                for (lx, ly), w in zip(lines, want):
                    close(lx, x, 1e-12, 0, 'abscissae')
                    close(ly, w, 1e-12, 0, 'ordinates')
    finally:
        plt.close('all')
    return tr > 0


# ------------------------------------------------------------------ crossing spectra
@sub('C30', st.tuples(fl(-20, 20), nice(0.1, 30), nice(1, 1e5), st.integers(4, 80), st.integers(0, 3), st.integers(0, 3), st.booleans()), quick=250)
def gaussian_crossings(t):
    """levels on both sides of the mean"""
    mean, sigma, cmax, n, lz, rz, given_ = t
    x = mean + sigma * np.linspace(-3, 3, 2 * (n // 2) + 1)
    c = cmax * np.exp(-0.5 * ((x - mean) / sigma) ** 2)
    x = np.hstack((x[0] - (x[1] - x[0]) * np.arange(lz, 0, -1), x, x[-1] + (x[1] - x[0]) * np.arange(1, rz + 1)))
    c = np.hstack((np.zeros(lz), c, np.zeros(rz)))               # levels never crossed
    kw = dict(mean=mean + 1, sigma=2 * sigma) if given_ else {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with unchanged('LevelCrossings', x, c):
            lc = wo.LevelCrossings(c, x, **kw)
            m, s = lc.estimate_mean_and_stdev()
    close([m, s], [mean, sigma], 1e-6, 1e-6 * (sigma + abs(mean)), 'estimate_mean_and_stdev')
    close([lc.mean, lc.sigma], [mean + 1, 2 * sigma] if given_ else [mean, sigma], 1e-6, 1e-6 * (sigma + abs(mean)), 'mean and sigma of LevelCrossings')
    close(lc.children[0].data, cmax * np.exp(-0.5 * ((x - lc.mean) / lc.sigma) ** 2), 1e-9, 1e-12 * cmax, 'the Gaussian crossing intensity')
    return lz + rz > 0 or n < 21


@st.composite
def tail_cases(draw):
    return dict(n=draw(st.integers(24, 60)), peak=draw(st.integers(30, 400)), noise=draw(st.sampled_from([0.0, 0.0, 0.2])), seed=draw(seeds()), scale=draw(st.sampled_from([0.3, 1.0, 5.0])),
                loc=draw(nice(-3, 3)), u=draw(st.sampled_from(['both', 'none', 'low', 'high'])), dist=draw(st.sampled_from(['expon', 'genpareto', 'rayleigh', 'exp', 'genpar'])),
                method=draw(st.sampled_from(['ml', 'ml', 'mps', 'ML'])), f1=draw(fl(0.15, 0.35)), f2=draw(fl(0.65, 0.85)), shape=draw(st.sampled_from(['gauss', 'laplace'])))


@sub('C30', tail_cases(), quick=120)
def extrapolation(case):
    """levels kept between the tails"""
    R = rs(case['seed'])
    n, peak = case['n'], case['peak']
    v = np.linspace(-1, 1, n)
    x = case['loc'] + case['scale'] * v
    c = peak * (np.exp(-4.5 * v ** 2) if case['shape'] == 'gauss' else np.exp(-4 * np.abs(v)))
    c = np.floor(c * (1 + case['noise'] * (R.rand(n) - 0.5)))
    lc = wo.LevelCrossings(c, x, mean=case['loc'], sigma=case['scale'] / 3)
    umin = float(x[0] + case['f1'] * (x[-1] - x[0])) if case['u'] in ('both', 'low') else None
    umax = float(x[0] + case['f2'] * (x[-1] - x[0])) if case['u'] in ('both', 'high') else None
    big = np.flatnonzero(c > math.sqrt(c.max()))
    U1, U2 = (x[big.min()] if umin is None else umin), (x[big.max()] if umax is None else umax)
    if np.sum(c[x > U2]) < 5 or np.sum(c[x < U1]) < 5 or c[x > U2].max() < 4 or c[x < U1].max() < 4:
        return False
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with unchanged('extrapolate', x, c):
            out = lc.extrapolate(umin, umax, method=case['method'], dist=case['dist'])
    lo, mid, hi = out.args < U1 + 1e-9 * case['scale'], (x > U1) & (x < U2), out.args > U2 - 1e-9 * case['scale']
    keep = ~lo & ~hi
    close(out.args[keep], x[mid], 0, 0, 'levels between %s and %s' % (U1, U2))
    close(out.data[keep], c[mid], 0, 0, 'crossings between %s and %s' % (U1, U2))
    check(np.all(np.diff(out.args) >= -1e-9), 'extrapolated levels are not increasing')
    for side, mask, u, sgn, phat in (('high', hi, U2, 1, out.phat_high), ('low', lo, U1, -1, out.phat_low)):
        # the excesses over u: crossings of the highest levels first, each crossing counted once
        xs, cs = (x[x > u][::-1], c[x > u][::-1]) if sgn > 0 else (x[x < u], c[x < u])
        exc, top = [], 0
        for lev, cnt in zip(xs, cs):
            if cnt > top:
                exc += [sgn * (lev - u)] * int(cnt - top)
                top = cnt
        lcu = np.interp(u, x, c) + 1
        e = sgn * (out.args[mask] - u)
        close(np.sort(e), np.arange(0, 4.005, 0.01), 1e-9, 1e-9, side + ' levels')
        tail = out.data[mask]
        close(np.sort(np.ravel(phat.data)), np.sort(exc), 1e-9, 1e-9, side + ' excesses')
        close(tail, lcu * phat.sf(np.abs(e)), 1e-7, 1e-4 * lcu, side + ' tail of the fitted distribution')
        par = list(phat.par)
        if case['dist'].startswith('exp'):
            close(par[0], 0, 0, 1e-12, 'location')
            close(tail, lcu * np.exp(-e / par[-1]), 1e-9, 1e-9 * lcu, side + ' exponential tail')
            if case['method'].lower() == 'ml':
                close(par[-1], np.mean(exc), 2e-3, 0, side + ' mean excess')
        elif case['dist'].startswith('gen'):
            k, s = par[0], par[-1]
            H = np.exp(-e / s) if abs(k) < 1e-9 else np.maximum(1 + k * e / s, 0) ** (-1 / k)
            close(tail, lcu * H, 1e-6, 1e-4 * lcu, side + ' Pareto tail')
            lim = getattr(phat, 'upperlimit', None)
            check((lim is not None) == (k < 0), 'upper limit %s with shape %s', lim, k)
            if k < 0:
                close(lim, sgn * u - s / k, 1e-9, 1e-9, 'upper limit')
        else:
            a, s = par[0], par[-1]
            close(tail, lcu * np.exp(-0.5 * ((e / s + abs(a)) ** 2 - a * a)), 1e-6, 1e-9 * lcu, side + ' truncated Rayleigh tail')
    return bool(np.any(mid))


@sub('C30', st.tuples(nice(0.3, 0.95), seeds(), st.sampled_from([0.5, 1.0, 4.0]), nice(-2, 2), st.sampled_from([0.0, 0.0, 0.12])), quick=60)
def crossing_simulation(t):
    """non-trivial: always"""
    alpha, seed, sigma, mean, skew = t
    ns = 30000
    v = np.linspace(-4.2, 4.2, 150)
    x = mean + sigma * (v + skew * (v ** 2 - 1))
    ok = np.gradient(x, v) > 0.02
    x, v = x[ok], v[ok]
    lc = wo.LevelCrossings(1000 * np.exp(-0.5 * v ** 2), x, mean=mean, sigma=sigma)
    np.random.seed(seed % 2 ** 31)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p = lc.sim(ns, alpha)
    check(p.shape == (ns, 2), 'sim returns shape %s', p.shape)
    close(p[:, 0], np.arange(ns), 0, 0, 'times')
    z = p[:, 1]
    check(np.all(np.isfinite(z)), 'simulated values are not finite')
    # irregularity factor: crossings of the most crossed level per local maximum
    lev = np.linspace(z.min(), z.max(), 201)
    up = np.array([np.sum((z[:-1] <= u) & (z[1:] > u)) for u in lev])
    nmax = np.sum((z[1:-1] > z[:-2]) & (z[1:-1] > z[2:]))
    close(up.max() / nmax, alpha, 0.06, 0, 'irregularity factor')
    # crossing spectrum relative to its maximum
    want = np.interp(lev, x, np.exp(-0.5 * v ** 2), left=0, right=0)
    dif = np.abs(up / up.max() - want).max()
    check(dif < (0.12 if skew == 0 else 0.25) + 2.5 / math.sqrt(up.max()), 'relative crossing spectrum differs by %.3f', dif)
    return True


@sub('C30', st.tuples(nice(0.3, 0.95), seeds()), quick=10)
def simulation_start(t):
    """non-trivial: always"""
    alpha, seed = t
    v = np.linspace(-4.2, 4.2, 150)
    lc = wo.LevelCrossings(1000 * np.exp(-0.5 * v ** 2), v, mean=0.0, sigma=1.0)
    np.random.seed(seed % 2 ** 31)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        z = np.array([lc.sim(40, alpha)[:, 1] for _ in range(150)])
    # stationary from the first value on: the spread of the first values is that of the later ones
    late = z[:, 20:].ravel().std()
    for i in (0, 1, 2):
        r = z[:, i].std() / late
        check(0.72 < r < 1.30, 'standard deviation of value %d is %.2f times that of later values', i, r)
    return True
