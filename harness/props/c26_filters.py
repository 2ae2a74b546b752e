"""C26 smoothing filters: Savitzky-Golay, penalised least squares (smoothn), Hodrick-Prescott, Kalman and Hampel."""
import warnings

import numpy as np
from hypothesis import strategies as st

import wafo.sg_filter as ws
from core import sub, check, close, arr, fail, unchanged, raises, known
from gens import nice, rs, seeds


def quiet(fun, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fun(*a, **kw)


# --------------------------------------------------------------------------------------------- Savitzky-Golay

def local_fit(w, pos, degree, deriv, delta):
    """deriv-th derivative at index pos of the degree-polynomial fitted to the samples w (axis 0)."""
    m = len(w)
    t = (np.arange(m) - pos) * 1.0
    sc = max(1.0, np.abs(t).max())
    V = (t[:, None] / sc) ** np.arange(degree + 1)
    c = np.linalg.lstsq(V, np.reshape(w, (m, -1)), rcond=None)[0].reshape((degree + 1,) + np.shape(w)[1:])
    if deriv > degree:
        return np.zeros(np.shape(w)[1:])
    f = 1.0
    for i in range(2, deriv + 1):
        f *= i
    return c[deriv] * f / (sc * delta) ** deriv


def extend(y, n, mode, cval):
    N = len(y)
    idx = np.arange(-n, N + n)
    if mode == 'nearest':
        return y[np.clip(idx, 0, N - 1)]
    if mode == 'wrap':
        return y[idx % N]
    if mode == 'mirror':
        k = np.abs(idx) % (2 * (N - 1))
        return y[np.where(k >= N, 2 * (N - 1) - k, k)]
    out = np.full((N + 2 * n,) + y.shape[1:], float(cval))
    out[n:n + N] = y
    return out


@st.composite
def sg_cases(draw):
    n = draw(st.integers(1, 6))
    degree = draw(st.integers(0, min(2 * n, 5)))
    N = draw(st.integers(2 * n + 1, 2 * n + 15))
    return dict(n=n, degree=degree, deriv=draw(st.integers(0, degree + (1 if degree < 2 * n else 0))), delta=draw(st.sampled_from([1.0, 0.25, 3.0])),
                N=N, mode=draw(st.sampled_from(['interp', 'interp', 'mirror', 'constant', 'nearest', 'wrap'])),
                cval=draw(st.sampled_from([0.0, 2.5])), ndim=draw(st.integers(1, 3)), axis=draw(st.integers(-3, 2)),
                kind=draw(st.sampled_from(['noise', 'int', 'poly', 'spike'])), seed=draw(seeds()), call=draw(st.booleans()))


def sg_data(case, shape):
    r = rs(case['seed'])
    if case['kind'] == 'int':
        return r.randint(-5, 6, size=shape)
    if case['kind'] == 'spike':
        y = np.zeros(shape)
        y.flat[r.randint(y.size)] = 1.0
        return y
    return r.randn(*shape)


@sub('C26', sg_cases(), quick=250)
def savitzky_golay(case):
    """n >= 2 and degree >= 1"""
    n, N, nd = case['n'], case['N'], case['ndim']
    axis = ((case['axis'] + 3) % nd) - (nd if case['axis'] < 0 else 0)
    shape = [2, 3, 2][:nd]
    shape[axis] = N
    y = sg_data(case, tuple(shape))
    if case['kind'] == 'poly':
        t = np.arange(N) - 3.0
        p = np.polynomial.polynomial.polyval(t / N, rs(case['seed']).randn(case['degree'] + 1))
        sh = [1] * nd
        sh[axis] = N
        y = y * 0 + p.reshape(sh)
    f = ws.SavitzkyGolay(n, degree=case['degree'], diff_order=case['deriv'], delta=case['delta'], axis=axis, mode=case['mode'], cval=case['cval'])
    with unchanged('SavitzkyGolay', y):
        z = f(y) if case['call'] else f.smooth(y)
    yy = np.moveaxis(np.asarray(y, dtype=float), axis, 0)
    ref = np.zeros(yy.shape)
    W = 2 * n + 1
    if case['mode'] == 'interp':
        for i in range(N):
            a = min(max(i - n, 0), N - W)
            ref[i] = local_fit(yy[a:a + W], i - a, case['degree'], case['deriv'], case['delta'])
    else:
        e = extend(yy, n, case['mode'], case['cval'])
        for i in range(N):
            ref[i] = local_fit(e[i:i + W], n, case['degree'], case['deriv'], case['delta'])
    sc = (np.abs(yy).max() + abs(case['cval']) + 1e-300) / case['delta'] ** case['deriv']
    close(z, np.moveaxis(ref, 0, axis), 1e-6, 1e-7 * sc, 'SavitzkyGolay.smooth')
    return n >= 2 and case['degree'] >= 1


@st.composite
def last_cases(draw):
    n = draw(st.integers(0, 5))
    degree = draw(st.integers(0, min(2 * n, 4)))
    N = draw(st.integers(2 * n + 2, 2 * n + 12))
    return dict(n=n, degree=degree, deriv=draw(st.integers(0, degree)), delta=draw(st.sampled_from([1.0, 0.25])), N=N,
                k=draw(st.integers(1, max(N - n - 1, 1))), cols=draw(st.integers(1, 3)), kind=draw(st.sampled_from(['noise', 'int'])), seed=draw(seeds()))


@sub('C26', last_cases(), quick=150)
def smooth_last(case):
    """the window is not a single sample"""
    n, N, k = case['n'], case['N'], case['k']
    y = sg_data(case, (N,) if case['cols'] == 1 else (N, case['cols']))
    f = ws.SavitzkyGolay(n, degree=case['degree'], diff_order=case['deriv'], delta=case['delta'])
    with unchanged('smooth_last', y):
        z = f.smooth_last(y, k)
    if n == 0:
        close(z, y, 0, 0, 'smooth_last, one sample')
        return False
    yy = np.asarray(y, dtype=float)
    e = np.concatenate([yy[:1] - np.abs(yy[n:0:-1] - yy[0]), yy, yy[-1:] + np.abs(yy[-2:-n - 2:-1] - yy[-1])])
    i = N - 1 - k                           # the sample number
    ref = local_fit(e[i:i + 2 * n + 1], n, case['degree'], case['deriv'], case['delta'])
    sc = (np.abs(yy).max() + 1e-300) / case['delta'] ** case['deriv'] * 3
    close(z, ref, 1e-6, 1e-7 * sc, 'smooth_last')
    # the object still filters
    t = yy[:, 0] if yy.ndim > 1 else yy
    a, b = f.smooth(t), ws.SavitzkyGolay(n, degree=case['degree'], diff_order=case['deriv'], delta=case['delta']).smooth(t)
    close(a, b, 1e-12, 1e-12 * sc, 'smooth after smooth_last')
    return True


# --------------------------------------------------------------------------------------------- smoothn

def lap(n):
    """Second difference with reflecting ends."""
    D = np.zeros((n, n))
    for i in range(n):
        for j in (i - 1, i + 1):
            if 0 <= j < n:
                D[i, j] += 1
                D[i, i] -= 1
    return D


def penalty(shape):
    """Sum over the axes of the second difference matrices, for the flattened array."""
    n = int(np.prod(shape))
    L = np.zeros((n, n))
    for k, m in enumerate(shape):
        a = np.eye(int(np.prod(shape[:k]))) if k else np.eye(1)
        b = np.eye(int(np.prod(shape[k + 1:]))) if k + 1 < len(shape) else np.eye(1)
        L += np.kron(np.kron(a, lap(m)), b)
    return L.T.dot(L)


def solve_pls(y, w, s):
    A = s * penalty(y.shape)
    B = A + np.diag(w.ravel())
    return np.linalg.solve(B, (w * y).ravel()).reshape(y.shape), A


SHAPES = [(2,), (3,), (5,), (12,), (30,), (1, 7), (7, 1), (4, 5), (2, 2), (6, 6), (3, 2, 4), (2, 3, 1, 3)]


@st.composite
def pls_cases(draw):
    shape = draw(st.sampled_from(SHAPES))
    return dict(shape=list(shape), s=draw(st.one_of(nice(0.01, 10), st.sampled_from([0.5, 100.0, 1e5]))), seed=draw(seeds()),
                kind=draw(st.sampled_from(['noise', 'int', 'line', 'step', 'list'])))


def pls_data(case):
    r = rs(case['seed'])
    shape = tuple(case['shape'])
    if case['kind'] == 'int':
        return r.randint(-5, 6, size=shape)
    if case['kind'] == 'step':
        y = np.zeros(shape)
        y[tuple(m // 2 for m in shape)] = 3
        return y
    if case['kind'] == 'line':
        return np.linspace(-1, 4, int(np.prod(shape))).reshape(shape)
    return r.randn(*shape)


@sub('C26', pls_cases(), quick=200)
def smoothn_exact(case):
    """at least 5 samples"""
    y = pls_data(case)
    s = case['s']
    data = y.tolist() if case['kind'] == 'list' else y
    with unchanged('smoothn', y):
        z = quiet(ws.smoothn, data, s=s)
        z1, s1 = quiet(ws.SmoothNd(s=s, fulloutput=True), data)
    ref, _ = solve_pls(np.asarray(y, float), np.ones(y.shape), s)
    sc = np.abs(y).max() + 1e-300
    close(z, ref, 0, 1e-8 * sc * max(1, 1e-4 * s), 'smoothn')
    close(z1, z, 1e-12, 1e-12 * sc, 'SmoothNd')
    close(s1, s, 0, 0, 'the smoothing parameter')
    return y.size >= 5


@st.composite
def wls_cases(draw):
    c = draw(pls_cases())
    c['s'] = draw(st.one_of(nice(0.1, 10), st.sampled_from([1.0, 30.0])))
    c['miss'] = draw(st.sampled_from([0.0, 0.1, 0.3, 0.6]))
    c['bad'] = draw(st.sampled_from(['nan', 'inf', '-inf', 'zero weight', 'mixed']))
    c['weight'] = draw(st.sampled_from([None, 'uniform', 'random', 'scaled']))
    c['z0'] = draw(st.sampled_from([None, 'mean', 'random']))
    return c


@sub('C26', wls_cases(), quick=150)
def smoothn_weighted(case):
    """some of the data are missing or down-weighted and the iteration converges"""
    y = np.asarray(pls_data(case), float)
    r = rs(case['seed'] + 1)
    w = np.ones(y.shape)
    if case['weight'] in ('random', 'scaled'):
        w = r.uniform(0.1, 1, size=y.shape) * (7.0 if case['weight'] == 'scaled' else 1)
    elif case['weight'] == 'uniform':
        w = w * 3.0
    m = r.rand(*y.shape) < case['miss']
    m.flat[r.randint(m.size)] = False
    m.flat[(np.argmin(m.ravel()) + m.size // 2) % m.size] = False
    yd, wd = y.copy(), w.copy()
    for j, i in enumerate(np.flatnonzero(m)):
        b = case['bad'] if case['bad'] != 'mixed' else ['nan', 'inf', '-inf'][j % 3]
        if b == 'zero weight':
            wd.flat[i] = 0.0
        else:
            yd.flat[i] = float(b)
    wt = None if case['weight'] is None and case['bad'] != 'zero weight' else wd
    z0 = {None: None, 'mean': np.full(y.shape, y.mean()), 'random': r.randn(*y.shape)}[case['z0']]
    ww = np.where(m, 0.0, w)
    ww = ww / ww.max()
    ref, A = solve_pls(np.where(m, 0.0, y), ww, case['s'])
    G = np.linalg.inv(np.eye(y.size) + A)
    weighted = np.any(ww < 1)
    rho = np.abs(1.75 * np.linalg.eigvals(G.dot(np.diag(1 - ww.ravel()))) - 0.75).max() if weighted else 0.0
    with unchanged('smoothn', wd):
        z = quiet(ws.smoothn, yd.copy(), s=case['s'], weight=wt, z0=z0, tolz=1e-11, maxiter=3000)
    check(np.shape(z) == y.shape, 'shape of smoothn', np.shape(z), y.shape)
    if rho > 0.995:
        return False
    close(z, ref, 0, 1e-7 * (np.abs(y).max() + np.abs(ref).max() + 1e-300), 'smoothn with weights')
    return bool(weighted)


@sub('C26', wls_cases(), quick=60)
def smoothn_caller_data(case):
    """some of the data are not finite"""
    y = np.asarray(pls_data(case), float)
    r = rs(case['seed'] + 1)
    m = r.rand(*y.shape) < case['miss']
    m.flat[r.randint(m.size)] = False
    bad = [np.nan, np.inf, -np.inf]
    for j, i in enumerate(np.flatnonzero(m)):
        y.flat[i] = bad[j % 3]
    w = None if case['weight'] is None else np.where(r.rand(*y.shape) < 0.5, 1.0, 0.5)
    yd, w0 = y.copy(), None if w is None else w.copy()
    quiet(ws.smoothn, yd, s=case['s'], weight=w, maxiter=20)
    same = (yd == y) | (np.isnan(yd) & np.isnan(y))
    check(yd.shape == y.shape and np.all(same[~m]), 'smoothn modified the finite data')
    check(w is None or np.array_equal(w, w0), 'smoothn modified the weights')
    if not np.all(same):
        if np.all(yd[m] == 0):
            known('C26-1', 'smoothn replaces the missing values in the data of the caller by zero')
        fail('smoothn modified its data')
    return bool(np.any(m))


@st.composite
def robust_cases(draw):
    c = draw(pls_cases())
    c['shape'] = list(draw(st.sampled_from([(12,), (25,), (6, 6), (1, 15)])))
    c['kind'] = 'noise'
    c['s'] = draw(nice(0.3, 20))
    c['wfun'] = draw(st.sampled_from([None, 'bisquare', 'talworth', 'cauchy', 'Cauchy', 'BISQUARE']))
    c['spikes'] = draw(st.integers(0, 3))
    c['missing'] = draw(st.integers(0, 2))
    return c


@sub('C26', robust_cases(), quick=80)
def smoothn_robust(case):
    """a spike was planted"""
    y = pls_data(case)
    r = rs(case['seed'] + 2)
    for _ in range(case['spikes']):
        y.flat[r.randint(y.size)] = 8.0 * r.choice([-1, 1])
    m = np.zeros(y.shape, bool)
    for _ in range(case['missing']):
        m.flat[r.randint(y.size)] = True
    yd = np.where(m, np.nan, y)
    s, W = case['s'], np.where(m, 0.0, 1.0)
    y = np.where(m, 0.0, y)
    N = sum(1 for k in y.shape if k != 1)
    h = np.sqrt(1 + 16 * s)
    h = (np.sqrt(1 + h) / np.sqrt(2) / h) ** N
    w = W
    for step in range(3):
        z, _ = solve_pls(y, w, s)
        res = y - z
        d = res[~m]
        mad = np.median(np.abs(d - np.median(d)))
        u = np.abs(res / (1.4826 * mad)) / np.sqrt(1 - h)
        k = (case['wfun'] or 'bisquare').lower()
        if k == 'cauchy':
            v = 1 / (1 + (u / 2.385) ** 2)
        elif k == 'talworth':
            if np.any(np.abs(u - 2.795) < 1e-3):
                return False
            v = (u < 2.795) * 1.0
        else:
            v = np.where(u < 4.685, (1 - (u / 4.685) ** 2) ** 2, 0.0)
        w = W * v
        if step < 2:
            G = np.linalg.inv(np.eye(y.size) + s * penalty(y.shape))
            if np.abs(np.linalg.eigvals(G.dot(np.diag(1 - w.ravel())))).max() > 0.99:
                return False
    zr = quiet(ws.smoothn, yd, s=s, weight=case['wfun'], robust=True, tolz=1e-11, maxiter=5000)
    close(zr, z, 0, 1e-6 * np.abs(y).max(), 'robust smoothn')
    return case['spikes'] > 0


@st.composite
def gcv_cases(draw):
    return dict(n=draw(st.integers(8, 60)), f=draw(nice(0.5, 4)), noise=draw(st.sampled_from([0.05, 0.2, 0.5, 1.0])), seed=draw(seeds()),
                two=draw(st.booleans()), scale=draw(st.sampled_from([1.0, 1e-4, 1e5])))


@sub('C26', gcv_cases(), quick=60)
def smoothn_gcv(case):
    """the chosen smoothing parameter is inside its limits"""
    n = case['n']
    r = rs(case['seed'])
    y = np.sin(case['f'] * np.linspace(0, 4, n)) + case['noise'] * r.randn(n)
    if case['two']:
        y = (y + np.cos(np.linspace(0, 3, 6))[:, None] + case['noise'] * r.randn(6, n))[:, :12]
    y = y * case['scale']
    z, s = quiet(ws.smoothn, y, fulloutput=True)
    A = penalty(y.shape)
    lam, V = np.linalg.eigh(A)
    lam = np.where(lam < 1e-10 * lam.max(), 0, lam)          # the mean
    c = V.T.dot(y.ravel())

    def score(p):
        g = 1 / (1 + 10 ** p * lam)
        return np.sum((c * (g - 1)) ** 2) / y.size / (1 - g.mean()) ** 2
    close(z, solve_pls(y, np.ones(y.shape), s)[0], 0, 1e-7 * np.abs(y).max() * max(1, 1e-4 * s), 'smoothn with its own s')
    N = y.ndim

    def par(h):
        return (((1 + np.sqrt(1 + 8 * h)) / 4. / h) ** 2 - 1) / 16
    lo, hi = np.log10(par(0.99 ** (2. / N))), np.log10(par(1e-6 ** (2. / N)))
    p = np.log10(float(s))
    check(lo <= p <= hi, 'smoothing parameter outside its limits: %s %s %s', lo, p, hi)
    f0 = score(p)
    for d in (-0.4, 0.4):
        if lo <= p + d <= hi:
            check(f0 <= score(p + d) * (1 + 1e-6), 'GCV score %.10g at log10 s=%s but %.10g at %+g', f0, p, score(p + d), d)
    return lo + 0.2 < p < hi - 0.2


# --------------------------------------------------------------------------------------------- Hodrick-Prescott

@st.composite
def hp_cases(draw):
    return dict(n=draw(st.integers(1, 30)), w=draw(st.one_of(nice(0.1, 200), st.sampled_from([0, 1, 100, 1600, 20000.0, 1e6]))), seed=draw(seeds()),
                kind=draw(st.sampled_from(['noise', 'int', 'line', 'column'])))


@sub('C26', hp_cases(), quick=200)
def hodrick_prescott(case):
    """at least 4 samples and w > 0"""
    n, w = case['n'], case['w']
    r = rs(case['seed'])
    y = {'noise': r.randn(n), 'int': r.randint(-9, 9, size=n), 'line': 3 - 0.5 * np.arange(n), 'column': r.randn(n, 1)}[case['kind']]
    with unchanged('HodrickPrescott', y):
        z = ws.HodrickPrescott(w)(y)
    yy = np.asarray(y, float).ravel()
    if n < 4:
        close(z, yy, 0, 0, 'HodrickPrescott of fewer than 4 values')
        return False
    D = np.diff(np.eye(n), 2, axis=0)
    ref = np.linalg.solve(np.eye(n) + w * D.T.dot(D), yy)
    close(z, ref, 0, (np.abs(yy).max() + 1) * 1e-10 * max(1, w * 1e-2), 'HodrickPrescott')
    return w > 0


# --------------------------------------------------------------------------------------------- Kalman

@st.composite
def kalman_cases(draw):
    n = draw(st.integers(1, 4))
    start = draw(st.sampled_from(['given', 'none', 'nan']))
    m = n if start != 'given' else draw(st.integers(1, n))
    return dict(n=n, m=m, start=start, A=draw(st.booleans()), Q=draw(st.booleans()), H=draw(st.booleans()) or m != n, B=draw(st.booleans()),
                R=draw(st.sampled_from(['matrix', 'scalar'])), steps=draw(st.integers(1, 8)), seed=draw(seeds()), change=draw(st.booleans()))


@sub('C26', kalman_cases(), quick=200)
def kalman(case):
    """more than one step, with dynamics or process noise"""
    n, m = case['n'], case['m']
    r = rs(case['seed'])

    def cov(k, c=1.0):
        a = r.randn(k, k)
        return c * (a.dot(a.T) + 0.3 * np.eye(k))
    H0 = r.randn(m, n) + (2 * np.eye(n) if m == n else 0)
    if m == n and np.linalg.cond(H0) > 50:
        H0 = np.eye(n) * 2.0
    A0, Q0, B0, R0 = np.eye(n) + 0.3 * r.randn(n, n), cov(n, 0.1), r.randn(n, 2), cov(m)
    Rarg = R0 if case['R'] == 'matrix' else 0.7
    Rm = R0 if case['R'] == 'matrix' else 0.7 * np.eye(m)
    A, Q = (A0 if case['A'] else np.eye(n)), (Q0 if case['Q'] else np.zeros((n, n)))
    H = H0 if case['H'] else np.eye(n)
    kw = dict(A=A0 if case['A'] else None, Q=Q0 if case['Q'] else None, H=H0 if case['H'] else None)
    if case['B']:
        kw['B'] = B0
    x = P = None
    if case['start'] == 'given':
        x, P = r.randn(n), cov(n)
        kw.update(x=x.copy(), P=P.copy())
    elif case['start'] == 'nan':
        kw.update(x=np.full(n, np.nan))
    f = ws.Kalman(Rarg, **kw)
    for i in range(case['steps']):
        if case['change'] and i == 2:                  # the caller may change the dynamics between the steps
            f.A = A = 0.5 * A
            f.R = 2.0 * Rarg
            Rm = 2.0 * Rm
        z, u = r.randn(m), r.randn(2)
        with unchanged('Kalman', z, u):
            out = f(z, u) if case['B'] else f(z)
        if x is None:
            HI = np.linalg.inv(H)
            x, P = HI.dot(z), HI.dot(Rm).dot(HI.T)
        else:
            xp = A.dot(x) + (B0.dot(u) if case['B'] else 0)
            Pp = A.dot(P).dot(A.T) + Q
            # information form
            S = H.dot(Pp).dot(H.T) + Rm
            K = np.linalg.solve(S, H.dot(Pp)).T
            x = xp + K.dot(z - H.dot(xp))
            IKH = np.eye(n) - K.dot(H)
            P = IKH.dot(Pp).dot(IKH.T) + K.dot(Rm).dot(K.T)
        tol = 1e-7 * (1 + np.abs(x).max())
        close(np.ravel(out), x, 1e-7, tol, 'state after step %d' % i)
        close(np.ravel(f.x), x, 1e-7, tol, 'x after step %d' % i)
        close(f.P, P, 1e-6, 1e-7 * (1 + np.abs(P).max()), 'P after step %d' % i)
    return case['steps'] > 1 and (case['A'] or case['Q'])


# --------------------------------------------------------------------------------------------- Hampel

@st.composite
def hampel_cases(draw):
    n = draw(st.integers(2, 25))
    return dict(n=n, y=draw(st.one_of(st.lists(st.integers(-4, 40), min_size=n, max_size=n), st.lists(nice(-3, 3), min_size=n, max_size=n))),
                x=draw(st.one_of(st.none(), st.lists(st.sampled_from([0.5, 1.0, 1.0, 2.0, 7.0]), min_size=n - 1, max_size=n - 1))),
                dx=draw(st.sampled_from([None, None, 1, 0.3, 2.0, 3, 50.0])), t=draw(st.sampled_from([None, 0, 1.0, 2.5])), full=draw(st.booleans()),
                adaptive=draw(st.sampled_from([0.1, 0.3, 0.01, 0.5, 0.0])))


def hampel_ref(X, Y, dx):
    Y0, S0 = np.zeros(len(X)), np.zeros(len(X))
    for i in range(len(X)):
        w = [Y[j] for j in range(len(X)) if X[i] - dx <= X[j] <= X[i] + dx]
        Y0[i] = np.median(w)
        S0[i] = 1.4826 * np.median([abs(v - Y0[i]) for v in w])
    return Y0, S0


def hampel_common(f, full, Y, X, t, Y0=None, S0=None, what='HampelFilter'):
    args = (Y,) if X is None else (Y, X)
    with unchanged(what, *args):
        out = quiet(f, *args)
    YY, res = out if full else (out, None)
    if not full:
        res = dict(Y0=f.Y0, LB=f.LB, UB=f.UB, outliers=f.outliers, ADX=f.ADX)
    YY = arr(YY, what)
    y0, lb, ub, o = (np.asarray(res[k]) for k in ('Y0', 'LB', 'UB', 'outliers'))
    sc = np.abs(Y).max() + 1e-300
    Yf = np.asarray(Y, float)
    if Y0 is not None:
        close(y0, Y0, 1e-12, 1e-12 * sc, what + ' Y0')
        close(lb, Y0 - t * S0, 1e-12, 1e-12 * sc, what + ' LB')
        close(ub, Y0 + t * S0, 1e-12, 1e-12 * sc, what + ' UB')
    check(o.shape == Yf.shape and YY.shape == Yf.shape, what + ' shapes')
    tie = 1e-10 * sc
    dev, lim = np.abs(Yf - y0), (ub - lb) / 2
    check(np.all(o[dev > lim + tie]), what + ': outside the bounds but no outlier')
    check(not np.any(o[dev < lim - tie]), what + ': inside the bounds but an outlier')
    if S0 is not None:
        # exact ties: a window without any spread has no outlier at its median
        check(not np.any(o[(dev == 0) & (S0 == 0)]), what + ': the median itself is an outlier')
    close(YY[o], y0[o], 1e-12, 1e-12 * sc, what + ' replaced values')
    close(YY[~o], Yf[~o], 0, 0, what + ' kept values')
    check(int(f.num_outliers) == int(np.sum(o)), what + ' num_outliers')
    return YY, o, res


@sub('C26', hampel_cases(), quick=200)
def hampel(case):
    """an outlier was replaced and a value kept"""
    Y = np.array(case['y'])
    X = None if case['x'] is None else np.r_[0, np.cumsum(case['x'])]
    xx = np.arange(len(Y)) * 1.0 if X is None else X
    kw = {}
    if case['t'] is not None:
        kw['t'] = case['t']
    if case['dx'] is not None:
        kw['dx'] = case['dx']
    f = ws.HampelFilter(fulloutput=case['full'], **kw)
    dx = 3 * np.median(np.diff(xx)) if case['dx'] is None else case['dx']
    t = 3 if case['t'] is None else case['t']
    Y0, S0 = hampel_ref(xx, Y, dx)
    YY, o, res = hampel_common(f, case['full'], Y, X, t, Y0, S0)
    close(res['ADX'], np.full(len(Y), float(dx)), 1e-12, 0, 'ADX')
    for bad in (0, -1.0, [1, 2]):
        raises(lambda: ws.HampelFilter(dx=bad)(Y), 'dx=%s' % bad)
    return bool(np.any(o) and not np.all(o))


@sub('C26', hampel_cases(), quick=120)
def hampel_adaptive(case):
    """some windows were widened"""
    Y = np.array(case['y'])
    X = None if case['x'] is None else np.r_[0, np.cumsum(case['x'])]
    xx = np.arange(len(Y)) * 1.0 if X is None else X
    t = 3 if case['t'] is None else case['t']
    dx = 1 if case['dx'] is None else case['dx']
    f = ws.HampelFilter(dx=dx, t=t, adaptive=case['adaptive'], fulloutput=case['full'])
    YY, o, res = hampel_common(f, case['full'], Y, X, t, what='adaptive HampelFilter')
    # the smoothed nominal values are weighted means of window medians
    y0 = np.asarray(res['Y0'])
    check(np.all((y0 >= Y.min() - 1e-9) & (y0 <= Y.max() + 1e-9)), 'nominal values outside the data', y0)
    adx = np.asarray(res['ADX'])
    check(np.all((adx >= 1 - 1e-9) & (adx <= len(Y) + 1 + 1e-9)), 'relative window size out of range', adx)
    # the same windows by hand: widen while the relative change of the scale exceeds the limit
    n = len(Y)
    a = []
    for i in range(n):
        prev = None
        for j in range(1, n + 2):
            w = np.array([float(Y[q]) for q in range(n) if xx[i] - j * dx <= xx[q] <= xx[i] + j * dx])
            med = np.median(w)
            s0 = 1.4826 * np.median(np.abs(w - med))
            if prev is not None:
                rel = abs((prev[1] - s0) / (prev[1] + s0) / 2) if prev[1] + s0 else 0.0
                if abs(rel - case['adaptive']) < 1e-12 and rel != 0:
                    return False          # a tie
                if rel <= case['adaptive']:
                    break
            prev = (med, s0, j)
        a.append(prev)
    a = np.array(a, float)
    DX = 2 * np.median(np.diff(xx))
    W = np.exp(-((xx[:, None] - xx) / (2 * DX)) ** 2)
    ref = W.dot(a) / W.sum(axis=1)[:, None]
    sc = np.abs(Y).max() + 1e-300
    close(y0, ref[:, 0], 1e-9, 1e-9 * sc, 'adaptive Y0')
    close(res['UB'], ref[:, 0] + t * ref[:, 1], 1e-9, 1e-9 * sc, 'adaptive UB')
    close(adx, ref[:, 2], 1e-9, 0, 'adaptive ADX')
    return bool(np.any(a[:, 2] > 1))
