"""C27 kernel density estimation: kernels, gridding, quantile levels, bandwidths, KDE, TKDE, kernel regression."""
import itertools
import math
import warnings

import numpy as np
import scipy.stats as ss
from scipy import integrate
from scipy.fft import dct as sdct
from scipy.special import gamma
from hypothesis import strategies as st

import wafo.kdetools as wk
from core import sub, check, close, same, arr, fail, unchanged, raises, known
from gens import nice, rs, seeds

NAMES = ['epanechnikov', 'biweight', 'triweight', 'p1epanechnikov', 'p1biweight', 'p1triweight', 'triangular', 'gaussian',
         'rectangular', 'laplace', 'logistic']
SQ2PI = math.sqrt(2 * math.pi)


def quiet(fun, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fun(*a, **kw)


def k1(name, x):
    """Un-normalised kernel, x is (d, n)."""
    x = np.atleast_2d(x)
    a = np.abs(x)
    s = name[:4]
    if s in ('epan', 'biwe', 'triw'):
        r2 = (x ** 2).sum(axis=0)
        return np.where(r2 < 1, 1 - r2, 0.0) ** {'epan': 1, 'biwe': 2, 'triw': 3}[s]
    if s in ('p1ep', 'p1bi', 'p1tr'):
        return np.prod(np.where(a < 1, 1 - a ** 2, 0.0) ** {'p1ep': 1, 'p1bi': 2, 'p1tr': 3}[s], axis=0)
    if s == 'tria':
        return np.prod(np.where(a < 1, 1 - a, 0.0), axis=0)
    if s == 'gaus':
        return np.exp(-0.5 * (x ** 2).sum(axis=0))
    if s == 'rect':
        return np.prod(np.where(a <= 1, 1.0, 0.0), axis=0)
    if s == 'lapl':
        return np.exp(-a.sum(axis=0))
    return np.prod(np.exp(-a) / (1 + np.exp(-a)) ** 2, axis=0)


def kvol(name, d):
    """Integral of the un-normalised kernel over R^d."""
    s = name[:4]
    if s in ('epan', 'biwe', 'triw'):
        p = {'epan': 1, 'biwe': 2, 'triw': 3}[s]
        return math.pi ** (d / 2.0) * math.gamma(p + 1) / math.gamma(p + 1 + d / 2.0)
    one = {'p1ep': 4 / 3., 'p1bi': 16 / 15., 'p1tr': 32 / 35., 'tria': 1.0, 'gaus': SQ2PI, 'rect': 2.0, 'lapl': 2.0, 'logi': 1.0}[s]
    return one ** d


STATS = {}


def kstats(name):
    """mu2 and R of the one dimensional kernel, by quadrature."""
    if name not in STATS:
        v = kvol(name, 1)
        b = 1.0 if name[:4] not in ('gaus', 'lapl', 'logi') else 60.0
        f = lambda x: float(k1(name, [[x]])[0]) / v
        mu2 = 2 * integrate.quad(lambda x: x * x * f(x), 0, b, epsabs=1e-13, epsrel=1e-11, limit=200)[0]
        R = 2 * integrate.quad(lambda x: f(x) ** 2, 0, b, epsabs=1e-13, epsrel=1e-11, limit=200)[0]
        STATS[name] = (mu2, R)
    return STATS[name]


# --------------------------------------------------------------------------------------------- kernels

@st.composite
def kernel_cases(draw):
    d = draw(st.integers(1, 4))
    n = draw(st.integers(1, 8))
    return dict(name=draw(st.sampled_from(NAMES)), short=draw(st.booleans()), d=d,
                x=[[draw(st.one_of(nice(-1.5, 1.5), st.sampled_from([0.0, 1.0, -1.0, 5.0, -30.0, 800.0]))) for _ in range(n)] for _ in range(d)])


@sub('C27', kernel_cases(), quick=250)
def kernels(case):
    """the kernel is positive at one of the points"""
    name, d = case['name'], case['d']
    k = wk.Kernel(name[:4] if case['short'] else name)
    x = np.array(case['x'])
    with unchanged('Kernel', x):
        v = k(x)
    ref = k1(name, x)
    close(v, ref, 1e-12, 1e-15, 'kernel ' + name)
    close(k.norm_factor(d, 5), kvol(name, d), 1e-12, 0, 'norm_factor ' + name)
    close(k.norm_factor(d), kvol(name, d), 1e-12, 0, 'norm_factor without n, ' + name)
    mu2, R = kstats(name)
    close(k.stats()[:2], [mu2, R], 1e-7, 0, 'stats ' + name)
    lo, hi = k.effective_support()
    check(lo == -hi and hi > 0, 'effective support', lo, hi)
    check(k1(name, [[hi + 1e-9]])[0] <= 2e-3, 'the kernel is not negligible outside its effective support')
    r = 1 + abs(x[0, 0]) % 3
    close(wk.sphere_volume(d, r), math.pi ** (d / 2.0) / math.gamma(d / 2.0 + 1) * r ** d, 1e-12, 0, 'sphere_volume')
    return bool(np.any(ref > 0))


# --------------------------------------------------------------------------------------------- gridding

@st.composite
def grid_cases(draw):
    d = draw(st.integers(1, 3))
    n = draw(st.integers(1, 8))
    inc = draw(st.integers(2, 7))
    return dict(d=d, n=n, inc=inc, pts=[[draw(st.one_of(nice(0, 1), st.integers(0, inc - 1).map(lambda i: i / (inc - 1.0)))) for _ in range(n)]
                                        for _ in range(d)],
                lo=[draw(st.sampled_from([0.0, -3.0, 10.0])) for _ in range(d)], w=[draw(st.sampled_from([1.0, 0.5, 7.0])) for _ in range(d)],
                y=draw(st.sampled_from([None, 'scalar', 'vector'])), row=draw(st.booleans()))


def bin_ref(data, X, y):
    """Linear binning by hand; index order (x0, x1, ...)."""
    d, inc = X.shape
    c = np.zeros((inc,) * d)
    for i in range(data.shape[1]):
        parts = []
        for k in range(d):
            dx = (X[k, -1] - X[k, 0]) / (inc - 1)
            u = (data[k, i] - X[k, 0]) / dx
            j = min(int(math.floor(u)), inc - 2)
            parts.append(((j, 1 - (u - j)), (j + 1, u - j)))
        for combo in itertools.product(*parts):
            w = y[i]
            for _, a in combo:
                w = w * a
            c[tuple(j for j, _ in combo)] += w
    return c


@sub('C27', grid_cases(), quick=200)
def gridcount(case):
    """some points are not at grid points"""
    d, n, inc = case['d'], case['n'], case['inc']
    lo, w = np.array(case['lo'])[:, None], np.array(case['w'])[:, None]
    X = np.array([np.linspace(a, a + b, inc) for a, b in zip(case['lo'], case['w'])])
    data = np.clip(lo + w * np.array(case['pts']), X[:, :1], X[:, -1:])
    yv = np.linspace(-1, 2, n)
    y = {None: 1, 'scalar': 2.5, 'vector': yv}[case['y']]
    yy = y * np.ones(n)
    dd, XX = (data, X) if d > 1 or case['row'] else (data[0], X[0])
    with unchanged('gridcount', dd, XX):
        c = wk.gridcount(dd, XX) if case['y'] is None else wk.gridcount(dd, XX, y=y)
    ref = bin_ref(data, X, yy)
    if d > 1:
        ref = np.swapaxes(ref, 0, 1)
    close(c, ref, 1e-9, 1e-9 * n, 'gridcount')
    close(np.sum(c), yy.sum(), 1e-9, 1e-9 * n, 'the sum of the counts')
    for bad in (data + 1.5 * w, data - 1.5 * w):
        raises(lambda: wk.gridcount(bad if d > 1 else bad[0], XX), 'data outside the grid', ValueError)
    return bool(np.any((np.array(case['pts']) * (inc - 1)) % 1 > 1e-6))


@st.composite
def accum_cases(draw):
    nd = draw(st.integers(1, 3))
    shape = [draw(st.integers(1, 4)) for _ in range(nd)]
    od = draw(st.integers(1, 3))
    return dict(shape=shape, od=od, top=draw(st.integers(1, 4)), seed=draw(seeds()), func=draw(st.sampled_from([None, 'prod', 'max', 'len'])),
                fill=draw(st.sampled_from([0, -1])), given=draw(st.booleans()), flat=draw(st.booleans()), dtype=draw(st.sampled_from([None, 'float'])))


@sub('C27', accum_cases(), quick=150)
def accum(case):
    """some cell received more than one value"""
    r = rs(case['seed'])
    shape, od = tuple(case['shape']), case['od']
    a = r.randint(-4, 9, size=shape)
    m = r.randint(0, case['top'], size=shape + (od,))
    size = tuple(m.reshape(-1, od).max(axis=0) + 1 + (1 if case['given'] else 0))
    mm = m[..., 0] if od == 1 and case['flat'] else m
    func = {None: None, 'prod': np.prod, 'max': max, 'len': len}[case['func']]
    kw = dict(func=func, fill_value=case['fill'], dtype=float if case['dtype'] else None)
    if case['given']:
        kw['shape'] = size
    with unchanged('accum', mm, a):
        c = wk.accum(mm, a, **kw)
    cells = {}
    for idx in itertools.product(*[range(k) for k in shape]):
        cells.setdefault(tuple(int(v) for v in m[idx]), []).append(a[idx])
    ref = np.full(size, float(case['fill']))
    for key, vals in cells.items():
        ref[key] = (func or np.sum)(vals)
    close(c, ref, 0, 0, 'accum')
    raises(lambda: wk.accum(mm[..., :0] if mm.ndim == 1 else mm[:0], a), 'a map of another shape', ValueError)
    return any(len(v) > 1 for v in cells.values())


@st.composite
def qlevel_cases(draw):
    return dict(d=draw(st.integers(1, 2)), seed=draw(seeds()), n=draw(st.integers(20, 60)), x=draw(st.sampled_from([None, 'even', 'uneven'])),
                kind=draw(st.sampled_from(['gauss', 'random', 'bimodal', 'zeros', 'flat'])), index=draw(st.sampled_from(['xy', 'ij'])),
                p=draw(st.lists(st.sampled_from([5.0, 10.0, 25.0, 50.0, 70.0, 90.0, 95.0]), min_size=1, max_size=4, unique=True)))


@sub('C27', qlevel_cases(), quick=120)
def quantile_levels(case):
    """some level lies between two heights of the density"""
    r = rs(case['seed'])
    n, d = case['n'], case['d']
    m = n // 2
    xs = [np.linspace(-3, 3, n), np.linspace(-2, 5, m)][:d]
    if case['x'] == 'uneven':
        xs = [x + 0.3 * np.sin(x) for x in xs]
    g = np.meshgrid(*xs, indexing=case['index'])
    q = sum(v ** 2 for v in g)
    f = {'gauss': np.exp(-0.5 * q), 'random': r.rand(*g[0].shape), 'bimodal': np.exp(-q) + 0.5 * np.exp(-4 * sum((v - 2) ** 2 for v in g)),
         'zeros': np.where(q < 4, np.exp(-0.3 * q), 0), 'flat': np.where(q < 2, 1.0, 0.2)}[case['kind']]
    p = np.array(case['p'])
    kw = {} if case['x'] is None else dict(xi=tuple(xs), indexing=case['index'])
    with unchanged('qlevels', f):
        lev = arr(quiet(wk.qlevels, f, p=case['p'], **kw), 'qlevels')
    check(lev.shape == p.shape, 'number of levels', lev.shape)
    if case['x'] is None:
        w = np.ones(f.shape)
    else:
        dx = [0.5 * (np.r_[0, np.diff(x)] + np.r_[np.diff(x), 0]) for x in xs]
        w = np.ones(f.shape)
        for v in np.meshgrid(*dx, indexing=case['index']):
            w = w * v
    mass = f * w / np.sum(f * w)
    biggest = mass.max()
    fs = np.sort(f.ravel())
    for pi, li in zip(p / 100.0, lev):
        if mass[f == f.max()].sum() > pi:              # the top already holds more than asked for
            check(abs(li - fs[-1]) <= 1e-6 * fs[-1], 'level %s, but the top %s alone holds more', li, fs[-1])
            continue
        above, strictly = mass[f >= li * (1 - 1e-9)].sum(), mass[f > li * (1 + 1e-9)].sum()
        # the density at height >= level holds p percent but for the cell next to the level
        check(strictly <= pi + biggest * 1.001 + 1e-6, 'level %s encloses %s more than %s', li, strictly, pi)
        check(above >= pi - biggest * 1.001 - 1e-6, 'level %s encloses only %s of %s', li, above, pi)
    o = np.argsort(p)
    check(np.all(np.diff(lev[o]) <= 1e-12), 'levels increase with the percentage', lev[o])
    for bad in ([-1.0], [101.0]):
        raises(lambda: wk.qlevels(f, p=bad), 'p=%s' % bad, ValueError)
    raises(lambda: wk.qlevels(f - 2, p=p), 'negative density', ValueError)
    a = r.randn(3, 9)
    close(wk.iqrange(a, axis=1), [np.subtract(*np.percentile(v, [75, 25])) for v in a], 1e-12, 0, 'iqrange')
    return case['kind'] != 'flat'


# --------------------------------------------------------------------------------------------- bandwidths

@st.composite
def bw_cases(draw):
    return dict(name=draw(st.sampled_from(NAMES)), d=draw(st.integers(1, 3)), n=draw(st.integers(8, 40)), seed=draw(seeds()),
                kind=draw(st.sampled_from(['norm', 'rayleigh', 'int', 'ties'])), scale=draw(st.sampled_from([1.0, 0.01, 50.0])),
                shift=draw(st.sampled_from([0.0, 3.0, -20.0])), L=draw(st.integers(0, 3)))


def bw_data(case):
    r = rs(case['seed'])
    size = (case['d'], case['n'])
    if case['kind'] == 'rayleigh':
        a = r.rayleigh(size=size)
    elif case['kind'] == 'int':
        return r.randint(0, 30, size=size)
    elif case['kind'] == 'ties':
        a = np.round(r.randn(*size), 1)
    else:
        a = r.randn(*size)
    return a * case['scale'] + case['shift']


def normal_scale(a, mu2, R):
    n = a.shape[1]
    out = []
    for v in a:
        sd = np.std(v, ddof=1)
        iq = np.subtract(*np.percentile(v, [75, 25]))
        s = min(sd, iq / 1.349) if iq > 0 else sd
        out.append(s)
    return np.array(out), (8 * math.sqrt(math.pi) * R / (3 * mu2 ** 2 * n)) ** 0.2


@sub('C27', bw_cases(), quick=150)
def normal_bandwidths(case):
    """more than one dimension"""
    a = bw_data(case)
    mu2, R = kstats(case['name'])
    k = wk.Kernel(case['name'])
    s, am = normal_scale(a, mu2, R)
    if np.any(s <= 0):
        return False
    d, n = a.shape
    with unchanged('bandwidth', a):
        close(k.hns(a), s * am, 1e-7, 0, 'hns')
        close(k.hos(a), s * am / 0.93, 1e-7, 0, 'hos')
        if d == 1:
            close(k.hns(a[0]), s * am, 1e-7, 0, 'hns of a vector')
            close(k.hmns(a), s * am, 1e-7, 0, 'hmns in one dimension')
            return False
        short = case['name'][:4]
        ok = short in ('epan', 'gaus') or (short in ('biwe', 'triw') and d == 2)
        if not ok:
            raises(lambda: k.hmns(a), 'hmns for this kernel', NotImplementedError)
            return True
        h = arr(k.hmns(a), 'hmns')
    A = {'epan': (8 * math.gamma(d / 2.0 + 1) / math.pi ** (d / 2.0) * (d + 4) * (2 * math.sqrt(math.pi)) ** d) ** (1.0 / (d + 4)),
         'gaus': (4.0 / (d + 2)) ** (1.0 / (d + 4)), 'biwe': 2.7779, 'triw': 3.12}[short]
    # Silverman (4.14): for a radial kernel with R and mu2 in d dimensions; the tables hold for the plane
    A = A * n ** (-1.0 / (d + 4))
    C = np.cov(a)
    close(h.dot(h), A ** 2 * C, 1e-7, 1e-9 * np.abs(C).max() * A ** 2, 'hmns squared')
    close(h, h.T, 1e-9, 1e-9 * np.abs(h).max(), 'hmns is symmetric')
    check(np.all(np.linalg.eigvalsh(0.5 * (h + h.T)) >= -1e-9 * np.abs(h).max()), 'hmns is positive')
    return True


def phi_deriv(r, x):
    """r-th derivative of the standard normal density."""
    c = np.zeros(r + 1)
    c[r] = 1
    return (-1) ** r * np.polynomial.hermite_e.hermeval(x, c) * np.exp(-0.5 * x ** 2) / SQ2PI


def psi_hat(v, r, g):
    n = len(v)
    return phi_deriv(r, (v[:, None] - v) / g).sum() / (n ** 2 * g ** (r + 1))


def psi_normal(r, s):
    return (-1) ** (r // 2) * math.factorial(r) / ((2 * s) ** (r + 1) * math.factorial(r // 2) * math.sqrt(math.pi))


def g_of(r, psi, n):
    """Bandwidth for estimating psi_r, from psi_{r+2}."""
    return (-2 * phi_deriv(r, 0.0) / (psi * n)) ** (1.0 / (r + 3))


@sub('C27', bw_cases(), quick=60)
def plug_in_bandwidths(case):
    """L > 0"""
    case = dict(case, kind='norm' if case['kind'] == 'int' else case['kind'])
    a = bw_data(case)
    mu2, R = kstats(case['name'])
    k = wk.Kernel(case['name'])
    s, am = normal_scale(a, mu2, R)
    if np.any(s <= 0):
        return False
    d, n = a.shape
    L = case['L']
    inc = 512
    with unchanged('bandwidth', a):
        h = quiet(k.hldpi, a, L=L, inc=inc)
        h2 = quiet(k.hste, a, inc=inc, releps=1e-6)
    ste = R / (n * mu2 ** 2)
    ste_g = 1 / (2 * math.sqrt(math.pi) * n)
    for i, v in enumerate(a):
        psi = psi_normal(2 * L + 4, s[i])
        for j in range(L, 0, -1):
            psi = psi_hat(v, 2 * j + 2, g_of(2 * j + 2, psi, n))
            if (-1) ** (j + 1) * psi <= 0:
                return False
        close(arr(h)[i], (ste / psi) ** 0.2, 0.01, 0, 'hldpi with L=%d' % L)
        # two stage solve the equation
        p4 = psi_hat(v, 4, g_of(4, psi_normal(6, s[i]), n))
        p6 = psi_hat(v, 6, g_of(6, psi_normal(8, s[i]), n))
        if p4 <= 0 or p6 >= 0:
            continue
        hg = arr(h2)[i] * (ste_g / ste) ** 0.2
        gam = (2 * phi_deriv(4, 0.0) * p4 / (-p6 / (2 * math.sqrt(math.pi)))) ** (1 / 7.0) * hg ** (5 / 7.0)
        p4g = psi_hat(v, 4, gam)
        if p4g > 0:
            close(hg, (ste_g / p4g) ** 0.2, 0.02, 0, 'hste solves its equation')
    return L > 0


@sub('C27', bw_cases(), quick=60)
def bandwidth_equivariance(case):
    """the data were scaled and shifted"""
    case1 = dict(case, scale=1.0, shift=0.0, kind='norm' if case['kind'] == 'int' else case['kind'])
    a = bw_data(case1)
    k = wk.Kernel(case['name'])
    s, am = normal_scale(a, *kstats(case['name']))
    if np.any(s <= 0):
        return False
    b = a * case['scale'] + case['shift']
    for fun in ('hns', 'hos', 'hste', 'hldpi', 'hscv', 'hstt', 'hisj'):
        f = getattr(k, fun)
        h = arr(quiet(f, a), fun)
        check(h.shape == (case['d'],), '%s: one bandwidth for each dimension', fun)
        if not np.all(np.isfinite(h)):
            continue
        check(np.all(h > 0), '%s is not positive: %s', fun, h)
        close(quiet(f, b), h * case['scale'], 2e-3 if fun in ('hstt', 'hste') else 1e-6, 0, fun + ' of scaled data', shape=True)
        for i in range(case['d']):
            close(np.ravel(quiet(f, a[i])), h[i:i + 1], 1e-9, 0, fun + ' of one dimension alone')
    return case['scale'] != 1


@sub('C27', bw_cases(), quick=50)
def other_bandwidths(case):
    """a solution of the Botev equation was found"""
    case = dict(case, d=1, kind='rayleigh' if case['kind'] == 'int' else case['kind'])
    a = bw_data(case)
    v = a[0]
    n = len(v)
    name = case['name']
    k = wk.Kernel(name)
    mu2, R = kstats(name)
    s, am = normal_scale(a, mu2, R)
    if s[0] <= 0:
        return False
    ste, ste_g = R / (n * mu2 ** 2), 1 / (2 * math.sqrt(math.pi) * n)
    # smoothed cross-validation: the minimum of the reported score
    h, hvec, score = quiet(k.hscv, v, fulloutput=True)
    check(np.shape(hvec) == np.shape(score), 'shapes of hvec and score')
    i = int(np.argmin(score))
    close(np.ravel(h), [hvec[i] * s[0]], 1e-7, 0, 'hscv is the argument of the smallest score')
    close(hvec, np.linspace(0.25, 1, 100) * am / 0.93, 1e-7, 0, 'default hvec')
    # the score itself: Wand and Jones (3.24)
    u = v / s[0]
    p8, p12 = 105 / (32 * math.sqrt(math.pi)), 3465. / (512 * math.sqrt(math.pi))
    inc = 128
    off = (u.max() - u.min()) / 8.0
    xa = np.linspace(u.min() - off, u.max() + off, inc)
    c = bin_ref(u[None], xa[None], np.ones(n))
    xx = np.arange(inc) * (xa[1] - xa[0])

    def psi(r, g):
        lag = np.abs(np.arange(inc)[:, None] - np.arange(inc))
        return (c[:, None] * c * phi_deriv(r, xx / g)[lag]).sum() / (n ** 2 * g ** (r + 1))
    p6, p10 = psi(6, g_of(6, p8, n)), psi(10, g_of(10, p12, n))
    if p6 < 0 and p10 < 0:
        p4, p8h = psi(4, g_of(4, p6, n)), psi(8, g_of(8, p10, n))
        if p4 > 0 and p8h > 0:
            C = (441. / (64 * math.pi)) ** (1 / 18.) * (4 * math.pi) ** (-0.2) * p4 ** (-0.4) * p8h ** (-1 / 9.)
            hg = np.asarray(hvec) * (ste_g / ste) ** 0.2
            D = (u[:, None] - u).ravel()

            def sc(const):
                out = []
                for hh in hg:
                    g = C * n ** (-23. / 45) / hh ** 2
                    s1, s2, s3 = math.sqrt(2 * hh ** 2 + 2 * g ** 2), math.sqrt(hh ** 2 + 2 * g ** 2), math.sqrt(2.0) * g
                    t = np.exp(-0.5 * (D / s1) ** 2) / s1 - 2 * np.exp(-0.5 * (D / s2) ** 2) / s2 + np.exp(-0.5 * (D / s3) ** 2) / s3
                    out.append(1 / (2 * math.sqrt(math.pi) * n * hh) + const * t.sum() / n ** 2)
                return np.array(out)
            right, raw = sc(1 / SQ2PI), sc(1.0)
            if np.allclose(raw, score, rtol=1e-6) and not np.allclose(right, score, rtol=1e-6):
                HSCV_RAW.append(1)
            else:
                close(score, right, 1e-6, 0, 'score of hscv')
    # improved Sheather-Jones: t = xi*gamma^[7](t)
    hb = float(np.ravel(quiet(k.hisj, v))[0])
    inc = 512
    off = (v.max() - v.min()) / 8.0
    xa = np.linspace(v.min() - off, v.max() + off, inc)
    cc = bin_ref(v[None], xa[None], np.ones(n)) / n
    a2 = (sdct(cc, norm=None)[1:] / 2) ** 2
    I = np.arange(1.0, inc) ** 2
    N = len(set(v.tolist()))
    t = (hb * (ste_g / ste) ** 0.2 / (xa[-1] - xa[0])) ** 2

    def F(s_, time):
        return 2 * math.pi ** (2 * s_) * np.sum(a2 * np.exp(s_ * np.log(I) - I * math.pi ** 2 * time))
    f = F(7, t)
    for s_ in range(6, 1, -1):
        K0 = np.prod(np.arange(1.0, 2 * s_, 2)) / SQ2PI
        const = (1 + 0.5 ** (s_ + 0.5)) / 3
        f = F(s_, (2 * const * K0 / N / f) ** (2. / (3 + 2 * s_)))
    res = (2 * N * math.sqrt(math.pi) * f) ** (-0.4)
    ok = abs(t - res) <= 1e-6 * t
    fallback = abs(t - 0.28 * N ** -0.4) <= 1e-9 * t
    check(ok or fallback, 'hisj: t=%s but the equation gives %s', t, res)
    return bool(ok)


HSCV_RAW = []


@sub('C27', st.just(dict(finding='hscv')), quick=1)
def hscv_score(case):
    """the documented score is compared once, on fixed data"""
    v = rs(3).rayleigh(size=20)
    k = wk.Kernel('gaussian')
    h, hvec, score = quiet(k.hscv, v, fulloutput=True)
    before = len(HSCV_RAW)
    other_bandwidths(dict(name='gaussian', d=1, n=20, seed=3, kind='rayleigh', scale=1.0, shift=0.0, L=1))
    if len(HSCV_RAW) > before:
        known('C27-1', 'the score of hscv uses the Gaussian kernel without its factor 1/sqrt(2 pi)')
    return True


# --------------------------------------------------------------------------------------------- KDE

@st.composite
def kde_cases(draw):
    d = draw(st.integers(1, 3))
    return dict(d=d, n=draw(st.integers(4, 15)), m=draw(st.integers(1, 20)), seed=draw(seeds()), name=draw(st.sampled_from(NAMES)),
                hs=draw(st.sampled_from(['scalar', 'vector', 'matrix', 'default', 'negative', 'int'])), alpha=draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])),
                kind=draw(st.sampled_from(['norm', 'int'])), shape=draw(st.sampled_from(['points', 'one', 'flat'])))


def make_hs(case, r, k, data):
    d = case['d']
    if case['hs'] == 'scalar' or (case['hs'] == 'matrix' and d == 1):
        h = 0.3 + 0.7 * r.rand()
        return h, np.eye(d) * h
    if case['hs'] == 'vector':
        h = 0.3 + r.rand(d)
        return h, np.diag(h)
    if case['hs'] == 'int':
        return [1] * d, np.eye(d)
    if case['hs'] == 'negative':
        h = 0.3 + r.rand(d)
        h[r.randint(d)] = -1
        dflt = [float(np.ravel(quiet(k.get_smoothing, v))[0]) for v in data]
        return h, np.diag(np.where(h > 0, h, dflt))
    if case['hs'] == 'default':
        return None, np.diag(np.ravel(quiet(k.get_smoothing, data)))
    b = 0.3 * r.randn(d, d)
    h = b.dot(b.T) + 0.5 * np.eye(d)
    return h, h


def kde_ref(name, data, H, pts, alpha, y=None, lam=None):
    d, n = data.shape
    y = np.ones(n) if y is None else y
    Hi, det, vol = np.linalg.inv(H), np.linalg.det(H), kvol(name, d)

    def est(p, lam):
        out = np.zeros(p.shape[1])
        for i in range(n):
            u = Hi.dot(p - data[:, [i]]) / lam[i]
            out += y[i] * k1(name, u) / lam[i] ** d
        return out / (n * det * vol)
    lam = np.ones(n)
    if alpha > 0:
        yy, y = y, np.ones(n)
        f = est(data, lam)
        y = yy
        lam = (f / np.exp(np.mean(np.log(f)))) ** (-alpha)
    return est(pts, lam)


@sub('C27', kde_cases(), quick=150)
def kde_points(case):
    """the density is positive at some point and hs is not a plain scalar, or d > 1"""
    r = rs(case['seed'])
    d, n = case['d'], case['n']
    data = r.randint(0, 6, size=(d, n)) if case['kind'] == 'int' else r.randn(d, n)
    k = wk.Kernel(case['name'])
    if case['hs'] in ('default', 'negative'):
        data = r.randn(d, n)
    hs, H = make_hs(case, r, k, data)
    if not np.all(np.isfinite(H)) or abs(np.linalg.det(H)) < 1e-9:
        return False
    pts = data.mean() + 1.5 * r.randn(d, case['m'])
    pts[:, 0] = data[:, 0]
    hsa = np.asarray(0 if hs is None else hs)
    with unchanged('KDE', data, hsa):
        kde = quiet(wk.KDE, data if d > 1 else data[0], hs=(None if hs is None else (hsa if case['hs'] != 'int' else hs)), kernel=k, alpha=case['alpha'])
        if case['shape'] == 'one':
            pts = pts[:, :1]
            f = kde.eval_points(pts[:, 0])
        else:
            f = kde.eval_points(pts if d > 1 else pts[0])
        ref = kde_ref(case['name'], data, H, pts, case['alpha'])
    sc = 1.0 / (n * abs(np.linalg.det(H)) * kvol(case['name'], d))
    if case['name'] == 'rectangular':                  # rounding decides about points at the edge of the kernel
        e = np.abs(np.linalg.inv(H).dot((pts[:, :, None] - data[:, None, :]).reshape(d, -1)))
        if case['alpha'] > 0 or np.any(np.abs(e - 1) < 1e-9):
            return False
    close(f, ref, 1e-8, 1e-10 * sc, 'KDE.eval_points')
    check(np.all(arr(f) >= 0), 'negative density')
    check(kde.n == n and kde.d == d, 'n and d of the KDE')
    if d > 1:
        raises(lambda: kde.eval_points(np.zeros((d + 1, 2))), 'points of another dimension', ValueError)
    # integer and logical input is no different
    return bool(np.any(ref > 0) and (case['hs'] != 'scalar' or d > 1))


@st.composite
def fast_cases(draw):
    c = draw(kde_cases())
    c['d'] = draw(st.integers(1, 3))
    c['hs'] = draw(st.sampled_from(['scalar', 'vector', 'matrix']))
    c['inc'] = {1: 64, 2: 24, 3: 10}[c['d']] + draw(st.integers(0, 3))
    c['args'] = draw(st.sampled_from(['given', 'limits', 'default']))
    c['output'] = draw(st.booleans())
    return c


@sub('C27', fast_cases(), quick=120)
def kde_grid(case):
    """the grid resolves the kernel"""
    r = rs(case['seed'])
    d, n, inc, name = case['d'], case['n'], case['inc'], case['name']
    data = r.randn(d, n)
    k = wk.Kernel(name)
    hs, H = make_hs(case, r, k, data)
    H = H * 1.2
    hs = np.asarray(hs) * 1.2
    xmin, xmax = data.min(axis=1) - 1.5 - r.rand(d), data.max(axis=1) + 1.0 + r.rand(d)
    if case['args'] == 'default':
        kde = wk.KDE(data, hs=hs, kernel=k, inc=inc)
        sg = [min(np.std(v, ddof=1), np.subtract(*np.percentile(v, [75, 25])) / 1.34) for v in data]
        xmin, xmax = data.min(axis=1) - 2 * np.array(sg), data.max(axis=1) + 2 * np.array(sg)
    else:
        kde = wk.KDE(data, hs=hs, kernel=k, inc=inc, **(dict(xmin=xmin, xmax=xmax) if case['args'] == 'limits' else {}))
    args = [np.linspace(a, b, inc) for a, b in zip(xmin, xmax)]
    a = args if case['args'] == 'given' else []
    if case['output']:
        o1, o2 = quiet(kde.eval_grid, *a, output='data'), quiet(kde.eval_grid_fast, *a, output='data')
        f, ff = o1.data, o2.data
        got = [o1.args] if d == 1 else o1.args
        for x, y in zip(got, args):
            close(np.ravel(x), y, 1e-9, 1e-9, 'arguments of the object')
    else:
        with unchanged('KDE', data, *args):
            f, ff = quiet(kde.eval_grid, *a), quiet(kde.eval_grid_fast, *a)
    g = np.meshgrid(*args)
    pts = np.vstack([v.ravel() for v in g])
    ref = kde_ref(name, data, H, pts, 0).reshape(g[0].shape)
    sc = np.abs(ref).max() + 1e-300
    if name != 'rectangular':
        close(f, ref, 1e-7, 1e-9 * sc, 'KDE.eval_grid')
        close(quiet(kde, *a), ref, 1e-7, 1e-9 * sc, 'KDE(...)')
    # binned: the kernel at the offsets of the grid, applied to the linearly binned data
    dx = [x[1] - x[0] for x in args]
    off = np.vstack([v.ravel() for v in np.meshgrid(*[np.arange(-inc, inc) * v for v in dx], indexing='ij')])
    kw = k1(name, np.linalg.inv(H).dot(off)).reshape((2 * inc,) * d)
    total, want = kw.sum() * np.prod(dx), np.linalg.det(H) * kvol(name, d)
    if abs(total - want) > 0.045 * want:
        return False
    if name == 'rectangular':
        e = np.abs(np.linalg.inv(H).dot(off))
        if np.any(np.abs(e - 1) < 1e-9):
            return False
    c = bin_ref(data, np.vstack(args), np.ones(n))
    K = np.fft.rfftn(np.fft.ifftshift(kw))
    z = np.fft.irfftn(np.fft.rfftn(c, s=kw.shape) * K, s=kw.shape)[(slice(0, inc),) * d] / (want * n)
    if d > 1:
        z = np.swapaxes(z, 0, 1)
    close(ff, np.maximum(z, 0), 1e-6, 1e-8 * sc, 'KDE.eval_grid_fast')
    raises(lambda: quiet(kde.eval_grid_fast, *[x * 1e-3 + 50 for x in args]), 'a grid without the data', ValueError)
    return True


# --------------------------------------------------------------------------------------------- TKDE

@st.composite
def tkde_cases(draw):
    d = draw(st.integers(1, 2))
    return dict(d=d, n=draw(st.integers(4, 15)), m=draw(st.integers(1, 12)), seed=draw(seeds()), name=draw(st.sampled_from(['gaussian', 'epanechnikov', 'logistic'])),
                L2=[draw(st.sampled_from([1, 0, 0.5, 2, -0.5, -1, 0.25])) for _ in range(d)], one=draw(st.booleans()), kind=draw(st.sampled_from(['pos', 'int'])),
                inc=draw(st.integers(40, 80)))


@sub('C27', tkde_cases(), quick=120)
def tkde(case):
    """a true transformation"""
    r = rs(case['seed'])
    d, n, name = case['d'], case['n'], case['name']
    data = r.randint(1, 8, size=(d, n)) if case['kind'] == 'int' else 0.3 + r.rayleigh(size=(d, n))
    data[:, 0] = 1
    data[:, 1] = 3
    L2 = case['L2']
    if case['one']:
        L2 = [L2[0]] * d
    arg = L2[0] if case['one'] else L2
    t = lambda x: np.array([np.log(v) if l == 0 else np.sign(l) * (1.0 * v) ** l for v, l in zip(x, L2)])
    td = t(data)
    h = np.array([0.2 + 0.3 * r.rand() for _ in range(d)]) * np.maximum(td.std(axis=1), 1e-2) * 2
    pts = 0.2 + 4 * r.rand(d, case['m'])
    jac = lambda x: np.prod([np.abs(l or 1) * v ** (l - 1.0) for v, l in zip(x, L2)], axis=0)
    with unchanged('TKDE', data, pts):
        k = quiet(wk.TKDE, data if d > 1 else data[0], hs=h, kernel=wk.Kernel(name), L2=arg, inc=case['inc'])
        f = quiet(k.eval_points, pts if d > 1 else pts[0])
    ref = kde_ref(name, td, np.diag(h), t(pts), 0) * jac(pts)
    close(f, ref, 1e-8, 1e-10 * np.abs(ref).max(), 'TKDE.eval_points')
    close(quiet(k.eval_points, pts[:, 0]), ref[:1], 1e-8, 1e-10 * np.abs(ref).max(), 'TKDE at a single point')
    args = [np.linspace(0.25, 4, 7 + i) for i in range(d)]
    g = np.meshgrid(*args)
    p = np.vstack([v.ravel() for v in g])
    gref = (kde_ref(name, td, np.diag(h), t(p), 0) * jac(p)).reshape(g[0].shape)
    close(quiet(k.eval_grid, *args), gref, 1e-8, 1e-9 * np.abs(gref).max(), 'TKDE.eval_grid')
    none = quiet(wk.TKDE, data if d > 1 else data[0], hs=h, kernel=wk.Kernel(name), inc=case['inc'])
    close(none.eval_points(pts if d > 1 else pts[0]), kde_ref(name, data * 1.0, np.diag(h), pts, 0), 1e-8, 1e-10, 'TKDE without L2')
    if d > 1:
        return any(l != 1 for l in L2)
    # binned and interpolated
    lo, hi = 0.9 * data.min(), 1.2 * data.max()
    kk = quiet(wk.TKDE, data[0], hs=h, kernel=wk.Kernel(name), L2=arg, inc=case['inc'], xmin=lo, xmax=hi)
    x = np.linspace(lo, hi, 23)
    ff = quiet(kk.eval_grid_fast, x)
    inv = lambda v: np.exp(v) if L2[0] == 0 else (v * np.sign(L2[0])) ** (1.0 / L2[0])
    tx = np.sort(t([np.array([lo, hi])])[0])
    tg = np.linspace(tx[0], tx[1], case['inc'])
    dx = tg[1] - tg[0]
    o = np.arange(-case['inc'], case['inc']) * dx
    kw = k1(name, o[None] / h[0])
    want = h[0] * kvol(name, 1)
    if abs(kw.sum() * dx - want) > 0.045 * want:
        return any(l != 1 for l in L2)
    c = bin_ref(np.clip(td, tg[0], tg[-1]), tg[None], np.ones(n))
    z = np.array([np.sum(c * k1(name, (tg - v)[None] / h[0])) for v in tg]) / (n * want)
    xg = inv(tg)
    fx = z * jac(xg[None])
    r_ = np.interp(x, xg, fx)
    close(ff, r_, 1e-6, 1e-7 * np.abs(fx).max(), 'TKDE.eval_grid_fast')
    return any(l != 1 for l in L2)


# --------------------------------------------------------------------------------------------- regression

@st.composite
def reg_cases(draw):
    return dict(n=draw(st.integers(6, 25)), p=draw(st.integers(0, 1)), seed=draw(seeds()), name=draw(st.sampled_from(['gaussian', 'logistic', 'laplace'])),
                L2=draw(st.sampled_from([None, 0.5, 0])), kind=draw(st.sampled_from(['noise', 'negative', 'line', 'binary'])),
                d=draw(st.sampled_from([1, 1, 2])))


@sub('C27', reg_cases(), quick=120)
def regression(case):
    """the response is not constant"""
    r = rs(case['seed'])
    n, d = case['n'], case['d'] if case['p'] == 0 else 1
    X = 0.5 + 2 * r.rand(d, n)
    X[:, 0], X[:, 1] = 0.4, 2.6
    y = {'noise': r.randn(n), 'negative': -1 - r.rand(n), 'line': 3 - 2 * X[0], 'binary': (r.rand(n) < 0.5) * 1.0}[case['kind']]
    h = 0.4
    kr = quiet(wk.KRegression, X if d > 1 else X[0], y, p=case['p'], hs=h, kernel=wk.Kernel(case['name']), L2=case['L2'], inc=100, xmin=0.3, xmax=2.8)
    t = lambda v: v if case['L2'] is None else (np.log(v) if case['L2'] == 0 else v ** case['L2'])
    args = [np.linspace(0.4, 2.6, 9) for _ in range(d)]
    g = np.meshgrid(*args)
    P = np.vstack([v.ravel() for v in g])
    with unchanged('KRegression', X, y):
        f = quiet(kr.eval_grid, *args)
    ref = []
    for i in range(P.shape[1]):
        D = t(P[:, [i]]) - t(X)
        w = k1(case['name'], D / h)
        if case['p'] == 0:
            ref.append(np.sum(w * y) / np.sum(w))
        else:
            B = np.vstack([np.ones(n), D[0]])
            ref.append(np.linalg.solve((B * w).dot(B.T), (B * w).dot(y))[0])
    ref = np.reshape(ref, g[0].shape)
    sc = np.abs(y).max() + 1e-9
    close(f, ref, 1e-6, 1e-7 * sc, 'KRegression.eval_grid')
    if d == 1:
        # binned, on a fine grid
        x = np.linspace(0.3, 2.8, 400)
        ff = quiet(kr.eval_grid_fast, x)
        close(quiet(kr, x), ff, 1e-12, 1e-12, 'KRegression(...)')
        i = (x > 0.5) & (x < 2.5)
        exact = quiet(kr.eval_grid, x)
        close(arr(ff)[i], exact[i], 0, 0.02 * sc, 'KRegression.eval_grid_fast')
    return case['kind'] in ('noise', 'negative', 'line') or 0 < y.sum() < n


@st.composite
def bk_cases(draw):
    return dict(n=draw(st.integers(12, 40)), seed=draw(seeds()), kind=draw(st.sampled_from(['mixed', 'none', 'all', 'step', 'one'])),
                method=draw(st.sampled_from(['beta', 'wilson'])), a=draw(st.sampled_from([0.05, 0.5, 1.0, 0.0])), b=draw(st.sampled_from([0.05, 0.5, 2.0])),
                alpha=draw(st.sampled_from([0.05, 0.1, 0.5])), hs=draw(st.sampled_from([0.1, 0.3])), hs_e=draw(st.sampled_from([None, 0.2, 0.5])),
                cn=draw(st.lists(st.sampled_from([0.0, 1.0, 3.0, 10.0, 200.0, 0.7]), min_size=1, max_size=4)), cp=draw(st.sampled_from([0.0, 1.0, 0.5, 0.02, 0.97])))


@sub('C27', bk_cases(), quick=40)
def binomial_regression(case):
    """both outcomes occur"""
    r = rs(case['seed'])
    n = case['n']
    x = np.sort(3 * r.rand(n)) + 0.1
    y = {'mixed': (r.rand(n) < 0.4) * 1, 'none': np.zeros(n, int), 'all': np.ones(n, int), 'step': (x > 1.5) * 1, 'one': (np.arange(n) == 3) * 1}[case['kind']]
    kw = {} if case['kind'] != 'one' else dict(hs_e=case['hs_e'] or 0.3)
    if case['hs_e'] is not None:
        kw['hs_e'] = case['hs_e']
    bk = quiet(wk.BKRegression, x, y, method=case['method'], a=case['a'], b=case['b'], hs=case['hs'], **kw)
    al = case['alpha']
    # intervals
    N, p = np.array(case['cn']), np.full(len(case['cn']), case['cp'])
    lo, up = bk.prb_ci(N, p, al)
    if case['method'] == 'wilson':
        z = ss.norm.isf(al / 2)
        with np.errstate(all='ignore'):
            c = (N * p + z * z / 2) / (N + z * z)
            hw = z * np.sqrt(N * p * (1 - p) + z * z / 4) / (N + z * z)
        close(lo, c - hw, 1e-7, 1e-9, 'Wilson interval, lower')
        close(up, c + hw, 1e-7, 1e-9, 'Wilson interval, upper')
    else:
        A, B = N * p + max(case['a'], 1e-300), N * (1 - p) + case['b']
        ok = A > 1e-200
        close(lo[ok], np.where(p == 0, 0, ss.beta.ppf(al / 2, A, B))[ok], 1e-6, 1e-9, 'credible interval, lower')
        close(up[ok], np.where(p == 1, 1, ss.beta.isf(al / 2, A, B))[ok], 1e-6, 1e-9, 'credible interval, upper')
    # empirical probabilities
    e = quiet(bk.prb_empirical, alpha=al)
    xi = np.ravel(e.args)
    check(xi[0] <= x.min() and xi[-1] >= x.max(), 'the grid does not cover the data')
    cnt = bin_ref(x[None], xi[None], np.ones(n))
    suc = bin_ref(x[None], xi[None], 1.0 * y)
    close(e.count, cnt, 1e-9, 1e-9, 'counts')
    pe = np.where(cnt > 1e-12, suc / np.maximum(cnt, 1e-12), 0)
    m = cnt > 1e-9
    close(np.asarray(e.data)[m], pe[m], 1e-6, 1e-8, 'empirical probability')
    check(np.shape(e.dataCI) == (len(xi), 2), 'shape of the interval')
    # smoothed
    s = quiet(bk.prb_smoothed, e, case['hs'], al)
    d = np.asarray(s.data)
    check(np.all((d >= 0) & (d <= 1)), 'smoothed probability outside [0, 1]')
    xs = np.ravel(s.args)
    i = np.flatnonzero((xs > x.min()) & (xs < x.max()))[::7]
    w = np.exp(-0.5 * ((xs[i, None] - x) / case['hs']) ** 2)
    fine = (xs[1] - xs[0]) < case['hs'] / 3
    good = w.sum(axis=1) > 1e-3
    if fine:
        close(d[i][good], (w.dot(y) / np.maximum(w.sum(axis=1), 1e-300))[good], 0, 0.03, 'smoothed probability')
    lo, up = np.asarray(s.dataCI).T
    check(np.all(lo <= up + 1e-12), 'interval the wrong way round')
    if case['method'] == 'wilson':
        check(np.all((lo <= d + 1e-9) & (d <= up + 1e-9)), 'the estimate is outside its Wilson interval')
    # search
    hv = np.array([0.1, 0.2, 0.4])
    best = quiet(bk.prb_search_best, e, hsvec=hv, alpha=al)
    sc = np.asarray(best.score.data)
    if np.all(np.isfinite(sc)) and np.isfinite(best.aicc):
        check(best.aicc <= sc.min() * (1 + 1e-9) + 1e-12, 'not the best score', best.aicc, sc)
        close(np.ravel(bk.hs), np.ravel(best.hs), 1e-12, 0, 'smoothing after the search')
    return 0 < y.sum() < n
