"""C11 simulation of Gaussian and second order sea surfaces, unconditional and conditional."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import linalg, optimize

from wafo.covariance import CovData1D
from wafo.spectrum import SpecData1D
from wafo.spectrum.core import qtf
import wafo.transform.models as tm
import wafo._misc_numba as numba_lib
from wafo import c_library
from core import sub, check, close, same, arr, fail, known, unchanged, raises
from gens import fl, nice, rs, seeds

PI2 = 2 * np.pi


@st.composite
def sim_case(draw):
    return dict(seed=draw(seeds()), n=draw(st.sampled_from([9, 17, 33, 65, 12, 30])), wmax=draw(st.sampled_from([1.5, 3.0, 0.8])),
                freqtype=draw(st.sampled_from('wwf')), ns=draw(st.one_of(st.none(), st.integers(4, 90))),
                dtr=draw(st.sampled_from([None, None, None, 0.5, 0.8])), cases=draw(st.integers(1, 4)),
                tr=draw(st.sampled_from([None, None, 'lin', 'hermite'])), kind=draw(st.sampled_from(['peak', 'rand'])),
                iseed=draw(st.integers(0, 10 ** 6)))


def spec_of(c):
    r = rs(c['seed'])
    w = np.linspace(0, c['wmax'], c['n'])
    if c['kind'] == 'peak':
        wp = c['wmax'] * (0.2 + 0.3 * r.rand())
        with np.errstate(all='ignore'):
            s = np.where(w > 0, (wp / w) ** 5 * np.exp(-1.25 * (wp / w) ** 4), 0.0)
    else:
        s = r.rand(c['n']) + 0.05
        s[0] = 0
    s = s * (0.1 + 3 * r.rand())
    if c['freqtype'] == 'f':
        S = SpecData1D(s * PI2, w / PI2, freqtype='f')
    else:
        S = SpecData1D(s.copy(), w.copy(), freqtype='w')
    return S, w, s


TRS = {'lin': lambda: tm.TrLinear(mean=0.4, sigma=1.7, ysigma=0.8),
       'hermite': lambda: tm.TrHermite(mean=0.1, sigma=1.2, skew=0.2, kurt=3.1, ysigma=1.2)}


@sub('C11', sim_case(), quick=300)
def linear_simulation(c):
    """every case counts: structure, seed, scaling, derivative and transformation of SpecData1D.sim"""
    S, w, s = spec_of(c)
    if c['dtr'] is not None and c['ns'] is None:
        c = dict(c, ns=24)
    dt = None if c['dtr'] is None else c['dtr'] * np.pi / w[-1]
    kw = dict(ns=c['ns'], cases=c['cases'], dt=dt, iseed=c['iseed'])
    with unchanged('sim', S.args, S.data):
        x = arr(S.sim(**kw), 'sim')
    ns = c['ns'] if c['ns'] is not None else c['n'] - 1
    ns += ns % 2
    d_t = dt or np.pi / w[-1]
    check(x.shape == (ns, c['cases'] + 1), 'shape %s expected %s', x.shape, (ns, c['cases'] + 1))
    close(x[:, 0], d_t * np.arange(ns), 1e-9, 1e-10, 'times')
    check(np.all(np.isfinite(x)), 'not finite')
    same(S.sim(**kw), x, 'same seed, same simulation')
    y = arr(S.sim(**dict(kw, iseed=c['iseed'] + 1)))
    check(not np.array_equal(y[:, 1:], x[:, 1:]), 'another seed gives the same simulation')
    if dt is None:
        T = S.copy()
        T.data = S.data * 4
        close(T.sim(**kw)[:, 1:], 2 * x[:, 1:], 1e-12, 1e-12, 'four times the spectrum, twice the amplitude')
    sc = np.abs(x[:, 1:]).max() + 1e-12
    xx, xd = S.sim(derivative=True, **kw)
    same(xx, x, 'the simulation does not depend on derivative=True')
    X = np.fft.rfft(x[:, 1:], axis=0)
    om = PI2 * np.arange(ns // 2 + 1) / (ns * d_t)
    der = np.fft.irfft(1j * om[:, None] * X, n=ns, axis=0)
    close(xd[:, 1:], der, 0, 1e-9 * sc * om[-1], 'time derivative')
    same(xd[:, 0], x[:, 0], 'times of the derivative')
    check(np.all(np.abs(X[[0, -1]]) <= 1e-9 * sc * ns), 'mean or Nyquist component is not zero')
    # no energy at frequencies without spectral density
    if c['tr']:
        g = TRS[c['tr']]()
        S.tr = g
        z = arr(S.sim(**kw))
        close(z[:, 1:], np.column_stack([g.gauss2dat(x[:, i + 1]) for i in range(c['cases'])]), 1e-10, 1e-12,
              'transformed simulation')
        if c['tr'] == 'hermite':
            return 'hermite'         # derivatives are rejected by that model
        z, zd = S.sim(derivative=True, **kw)
        e = 1e-5
        num = np.column_stack([(g.gauss2dat(x[:, i + 1] + e * xd[:, i + 1]) - g.gauss2dat(x[:, i + 1] - e * xd[:, i + 1])) / (2 * e)
                               for i in range(c['cases'])])
        close(zd[:, 1:], num, 1e-3, 1e-3 * (np.abs(num).max() + 1e-9), 'derivative of the transformed simulation')
    return c['tr'] or 'gauss'


@sub('C11', sim_case(), quick=40)
def linear_simulation_energy(c):
    """every case counts: mean energy per frequency over 400 replicates is the spectrum (6 standard errors)"""
    S, w, s = spec_of(c)
    M = 400
    ns = 32 if c['ns'] is None else max(8, c['ns'])
    x = arr(S.sim(ns=ns, cases=M, iseed=c['iseed']))
    ns = len(x)
    d_t = np.pi / w[-1]
    X = np.fft.rfft(x[:, 1:], axis=0) / ns
    om = PI2 * np.arange(ns // 2 + 1) / (ns * d_t)
    su = s.copy()
    su[[0, -1]] = 0
    e = np.interp(om, w, su)[1:-1] * om[1]
    got = 2 * np.abs(X[1:-1]) ** 2
    ok = e > 1e-12 * e.max()
    check(np.all(got[~ok] < 1e-20 + 1e-10 * e.max()), 'energy where the spectrum is zero')
    if not ok.any():
        return None
    z = got[ok] / e[ok][:, None]
    m = z.mean(axis=1)
    check(np.all(np.abs(m - 1) < 6.0 / np.sqrt(M)), 'energy per frequency / spectrum: %s', np.round(m, 2).tolist())
    tot = z.mean()
    check(abs(tot - 1) < 6.0 / np.sqrt(z.size), 'mean energy / spectrum %.4f', tot)
    ph = np.angle(X[1:-1][ok])
    check(abs(np.exp(1j * ph).mean()) < 6 / np.sqrt(ph.size), 'phases are not uniform')
    check(abs(np.mean(z ** 2) / 2 - 1) < 6 * np.sqrt(5.0 / z.size) , 'amplitudes are not Rayleigh distributed: %.3f', np.mean(z ** 2) / 2)
    k = int(np.argmax(e))
    a = x[:, 1:] / x[:, 1:].std()
    cross = np.abs(np.sum(X[1:-1, :-1] * np.conj(X[1:-1, 1:]), axis=1)[k]) / np.sum(np.abs(X[1:-1, :]) ** 2, axis=1)[k]
    check(cross < 6 / np.sqrt(M), 'replicates are correlated %.3f', cross)
    return True


def acf_of(c):
    r = rs(c['seed'])
    n = c['n']
    k = np.arange(n)
    a, b = 0.05 + 0.3 * r.rand(), r.rand() * 2
    u = k / (n - 1.0) if c['zero'] else k / float(n)
    win = np.where(u <= 0.5, 1 - 6 * u ** 2 * (1 - u), 2 * (1 - u) ** 3)    # Parzen: keeps it a covariance
    return (0.5 + 2 * r.rand()) * np.exp(-a * k) * np.cos(b * k) * win, r


acf_cases = st.fixed_dictionaries({'seed': seeds(), 'n': st.integers(4, 24), 'zero': st.booleans(),
                                   'dt': st.sampled_from([1.0, 0.25, 2.0]), 'ns': st.sampled_from([None, None, 5, 17, 30, 31, 63, 100]),
                                   'iseed': st.integers(0, 10 ** 6), 'cases': st.integers(1, 5), 'via': st.booleans()})


@sub('C11', acf_cases, quick=60)
def exact_simulation(c):
    """every case counts: mean lagged products over 1500 replicates are the covariance function (6 standard errors)"""
    a, r = acf_of(c)
    n, M = c['n'], 1500
    t = np.arange(n) * c['dt']
    R = CovData1D(a.copy(), t.copy())
    with unchanged('CovData1D.sim', R.data, R.args):
        x = arr(R.sim(ns=c['ns'], cases=M, iseed=c['iseed']))
    ns = c['ns'] or n - 1
    check(x.shape == (ns, M + 1), 'shape %s expected %s', x.shape, (ns, M + 1))
    close(x[:, 0], c['dt'] * np.arange(ns), 1e-10, 1e-12, 'times')
    y = x[:, 1:]
    full = np.zeros(max(ns, n))
    full[:n] = a
    for k in range(ns):
        p = (y[:ns - k] * y[k:]).mean(axis=0)
        se = p.std() / np.sqrt(M)
        check(abs(p.mean() - full[k]) < 6 * se + 2e-3 * a[0], 'covariance at lag %d: %.4f expected %.4f (s.e. %.4f)', k,
              p.mean(), full[k], se)
    for i in (0, ns - 1):
        check(abs(y[i].var() / a[0] - 1) < 6 * np.sqrt(2.0 / M) + 2e-3, 'variance at time %d', i)
    m = y.mean(axis=0)
    check(abs(m.mean()) < 6 * m.std() / np.sqrt(M), 'mean %g', m.mean())
    # replicates j and j+1, and the real/imaginary pairs, are independent
    h = (M + 1) // 2
    for q in ((y[:, :-1] * y[:, 1:]).mean(axis=0), (y[:, :M - h] * y[:, h:]).mean(axis=0)):
        check(abs(q.mean()) < 6 * q.std() / np.sqrt(q.size) + 1e-9, 'replicates are correlated')
    same(R.sim(ns=c['ns'], cases=M, iseed=c['iseed']), x, 'same seed, same simulation')
    if n > 2:
        b = a.copy()
        b[1] = b[0] * 1.5
        raises(lambda: CovData1D(b, t).sim(ns=4), 'covariance with its maximum at lag 1', ValueError)
    return 'zero' if c['zero'] else 'nonzero end'


@sub('C11', acf_cases, quick=60)
def exact_simulation_derivative(c):
    """every case counts"""
    n = 40
    k = np.arange(n)
    T = 3.0 + rs(c['seed']).rand() * 4
    a = np.exp(-0.5 * (k / T) ** 2)         # smooth: the derivative is resolved
    R = CovData1D(a.copy(), k * c['dt'])
    x, xd = R.sim(ns=60, cases=c['cases'], iseed=c['iseed'], derivative=True)
    same(R.sim(ns=60, cases=c['cases'], iseed=c['iseed']), x, 'the simulation does not depend on derivative=True')
    same(xd[:, 0], x[:, 0], 'times')
    y, d = x[:, 1:], xd[:, 1:] * c['dt']
    num = (-y[4:] + 8 * y[3:-1] - 8 * y[1:-3] + y[:-4]) / 12
    close(d[2:-2], num, 0, 0.05 * np.abs(d).max() + 0.02 / T, 'time derivative')
    S = SpecData1D(np.r_[0, 1 + np.arange(15.)[::-1]], np.linspace(0, 1.5, 16))
    same(S.sim(ns=20, cases=2, iseed=c['iseed'], method='exact').shape, (20, 3), 'exact simulation from a spectrum')
    acf = S.tocovdata(nr=0)
    close(S.sim(ns=20, cases=2, iseed=c['iseed'], method='exact')[:, 0], acf.args[1] * np.arange(20), 1e-9, 1e-9, 'times')
    S.tr = TRS['lin']()
    tx = S.sim(ns=20, cases=2, iseed=c['iseed'], method='exact')
    S.tr = None
    ux = S.sim(ns=20, cases=2, iseed=c['iseed'], method='exact')
    close(tx[:, 1:], ux[:, 1:] * 1.7 / 0.8 + 0.4, 1e-9, 1e-9, 'transformed exact simulation')
    return True


@st.composite
def cond_case(draw):
    nx = draw(st.integers(6, 60))
    return dict(seed=draw(seeds()), nx=nx, q=draw(st.integers(1, 6)), method=draw(st.sampled_from(['exact', 'exact', 'approximate', 'approx'])),
                how=draw(st.sampled_from(['nan', 'index'])), frac=draw(st.sampled_from([0.1, 0.3, 0.6])),
                gap=draw(st.booleans()), rep=draw(st.sampled_from([1, 1, 1, 150])))


@sub('C11', cond_case(), quick=150)
def conditional_simulation(c):
    """a case counts when some but not all values are missing"""
    r = rs(c['seed'])
    q, nx = c['q'], c['nx']
    co = 0.4 + r.rand(q + 1)
    nl = 120
    ma = np.array([np.dot(co[:q + 1 - k], co[k:]) for k in range(q + 1)])
    a = np.zeros(nl)
    a[:q + 1] = ma
    a[0] *= 1.3            # white noise: well conditioned
    sd = np.sqrt(a[0])
    x = np.linalg.cholesky(linalg.toeplitz(a[:nx])).dot(r.randn(nx))
    miss = r.rand(nx) < c['frac']
    if c['gap']:
        i0 = r.randint(nx)
        miss[i0:i0 + 5] = True
    if miss.all():
        miss[r.randint(nx)] = False
    k1 = np.flatnonzero(miss)
    k0 = np.flatnonzero(~miss)
    R = CovData1D(a.copy(), np.arange(nl) * 1.0)
    if c['how'] == 'nan':
        xin, kw = np.where(miss, np.nan, x), {}
    else:
        xin, kw = x.copy(), dict(i_unknown=k1)
    np.random.seed(c['seed'] % 2 ** 31)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with unchanged('simcond', xin, R.data, R.args):
            sample, mu, std = R.simcond(xin, method=c['method'], **kw)
    sample, mu, std = (np.ravel(arr(v)) for v in (sample, mu, std))
    check(sample.size == mu.size == std.size == k1.size, 'sizes %s %s %s expected %d', sample.size, mu.size, std.size, k1.size)
    if k1.size == 0:
        return None
    Sg = linalg.toeplitz(a[:nx])
    B = np.linalg.solve(Sg[np.ix_(k0, k0)], Sg[np.ix_(k0, k1)]).T
    m = B.dot(x[k0])
    C = Sg[np.ix_(k1, k1)] - B.dot(Sg[np.ix_(k0, k1)])
    s = np.sqrt(np.diag(C))
    if c['method'] == 'exact':
        close(mu, m, 0, 1e-3 * sd, 'conditional mean')
        close(std, s, 0, 1e-3 * sd, 'conditional standard deviation')
        check(np.all(np.abs(sample - mu) < 7 * std + 1e-9), 'sample further than 7 standard deviations from its mean')
    else:
        check(np.all(std <= sd * 1.001), 'conditioning increased the standard deviation')
        lim = 7 * np.sqrt(np.maximum(std ** 2 - s ** 2, 0)) + 0.6 * sd
        check(np.all(np.abs(mu - m) <= lim), 'conditional mean (approximation) %s expected %s', mu, m)
        check(np.all(np.abs(sample - m) < 7 * std + lim), 'sample far from the conditional mean')
    if c['rep'] > 1 and c['method'] == 'exact' and k1.size <= 12:
        z = np.array([np.ravel(R.simcond(xin, method='exact', **kw)[0]) for _ in range(c['rep'])])
        zz = np.linalg.solve(np.linalg.cholesky(C), (z - m).T)
        check(np.abs(zz.mean(axis=1)).max() < 6 / np.sqrt(c['rep']), 'mean of the samples')
        V = zz.dot(zz.T) / c['rep']
        check(np.abs(V - np.eye(len(V))).max() < 6 * np.sqrt(2.0 / c['rep']), 'covariance of the samples is not the conditional one')
        return 'covariance'
    return c['method']


@sub('C11', st.tuples(seeds(), st.integers(3, 40)), quick=30)
def conditional_simulation_limits(t):
    """every case counts: nothing missing gives empty results, everything missing the unconditional distribution"""
    seed, nx = t
    a = np.zeros(80)
    a[:3] = [2.0, 0.7, 0.2]
    R = CovData1D(a, np.arange(80.0))
    np.random.seed(seed % 2 ** 31)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = R.simcond(rs(seed).randn(nx))
        check(all(np.size(v) == 0 for v in out), 'nothing missing: %s', out)
        s, m, sd = R.simcond(np.full(nx, np.nan))
    check(np.shape(s) == (nx,), 'shape %s', np.shape(s))
    same(m, np.zeros(nx), 'unconditional mean')
    close(sd, np.full(nx, np.sqrt(2.0)), 1e-12, 0, 'unconditional standard deviation')
    return True


# ---------------------------------------------------------------------------------------------------------------
# second order waves


def wavenumber(w, h, g):
    if w == 0:
        return 0.0
    k0 = w * w / g
    if h > 1e4:
        return k0
    f = lambda k: g * k * np.tanh(min(k * h, 700)) - w * w
    return optimize.brentq(f, 0.5 * k0, k0 + w / np.sqrt(g * h) + 1e-12, xtol=1e-16, rtol=1e-14)


def sharma_dean(w1, k1, w2, k2, h, g):
    """(K+, K-) of unidirectional second order waves (Sharma & Dean 1981), w1 != w2"""
    R1, R2 = w1 * w1 / g, w2 * w2 / g
    s1, s2 = np.sqrt(R1), np.sqrt(R2)
    kp, km = k1 + k2, np.abs(k1 - k2)
    Dp = ((s1 + s2) * (s1 * (k2 ** 2 - R2 ** 2) + s2 * (k1 ** 2 - R1 ** 2)) + 2 * (s1 + s2) ** 2 * (k1 * k2 - R1 * R2)) \
        / ((s1 + s2) ** 2 - kp * np.tanh(np.minimum(kp * h, 700)))
    Dm = ((s1 - s2) * (s2 * (k1 ** 2 - R1 ** 2) - s1 * (k2 ** 2 - R2 ** 2)) + 2 * (s1 - s2) ** 2 * (k1 * k2 + R1 * R2)) \
        / ((s1 - s2) ** 2 - km * np.tanh(np.minimum(km * h, 700)))
    r = np.sqrt(R1 * R2)
    return (Dp - (k1 * k2 - R1 * R2)) / r + R1 + R2, (Dm - (k1 * k2 + R1 * R2)) / r + R1 + R2


def kernels(w, h, g):
    """matrices K+ and K- for frequencies w > 0"""
    w = np.asarray(w, dtype=float)
    n = w.size
    k = np.array([wavenumber(v, h, g) for v in w])
    if h > 1e4:
        Kp = k[:, None] + k[None, :]
        return Kp, -np.abs(k[:, None] - k[None, :])
    W1, W2 = np.meshgrid(w, w, indexing='ij')
    K1, K2 = np.meshgrid(k, k, indexing='ij')
    with np.errstate(all='ignore'):
        Kp, Km = sharma_dean(W1, K1, W2, K2, h, g)
    e = 1e-4
    for i in range(n):
        v = 0.0
        for sg in (1, -1):
            w2 = w[i] * (1 + sg * e)
            v += 0.5 * sharma_dean(w[i], k[i], w2, wavenumber(w2, h, g), h, g)[1]
        Km[i, i] = v
    return Kp, Km


@st.composite
def nl_case(draw):
    return dict(seed=draw(seeds()), n=draw(st.sampled_from([17, 33, 65])), h=draw(st.sampled_from([np.inf, np.inf, 25.0, 60.0, 200.0]).map(lambda v: 1e9 if v > 1e8 else v)),
                Hm0=draw(nice(1, 6)), wp=draw(nice(0.45, 0.9)), ns=draw(st.one_of(st.none(), st.integers(10, 80))),
                cases=draw(st.integers(1, 3)), reltol=draw(st.sampled_from([1e-3, 0.0, 1e-2])), fn=draw(st.sampled_from([1.4142, 0.7071, 3.0])),
                method=draw(st.sampled_from(['random', 'random', 'adeterministic', 'apdeterministic'])), freqtype=draw(st.sampled_from('wwf')),
                out=draw(st.sampled_from(['data', 'data', 'timeseries'])), iseed=draw(st.integers(0, 10 ** 6)), wmax=draw(st.sampled_from([2.0, 3.0, 1.5])))


@sub('C11', nl_case(), quick=120)
def second_order_simulation(c):
    """a case counts when at least two components interact"""
    w = np.linspace(0, c['wmax'], c['n'])
    wp = c['wp']
    with np.errstate(all='ignore'):
        s = np.where(w > 0, (wp / w) ** 5 * np.exp(-1.25 * (wp / w) ** 4), 0.0) * 5 / wp * (c['Hm0'] / 4) ** 2
    S = SpecData1D(s * PI2, w / PI2, freqtype='f') if c['freqtype'] == 'f' else SpecData1D(s.copy(), w.copy(), freqtype='w')
    h = np.inf if c['h'] > 1e8 else c['h']
    S.h = h
    g = 9.81
    Hm0, Tm02 = np.ravel(S.characteristic(['Hm0', 'Tm02'])[0])
    dt = np.pi / w[-1]
    ns = c['ns'] if c['ns'] is not None else c['n'] - 1
    ns += ns % 2
    om = PI2 * np.arange(ns // 2 + 1) / (ns * dt)
    su = s.copy()
    su[-1] = 0
    si = np.interp(om, w, su)
    si[[0, -1]] = 0
    hh = min(h, 1e30)
    kbar = wavenumber(PI2 / Tm02, h, g)
    amax = np.sqrt(2 * np.log(1000.0)) * Hm0 / 4
    th = np.tanh(min(kbar * hh, 700))
    up = c['fn'] * np.sqrt(g * th / amax)
    lo = np.sqrt(g * th * amax / hh) / hh
    smax = s[1:-1].max()
    with np.errstate(all='ignore'):
        rel = si / smax
        if np.any((rel > 0.99 * c['reltol']) & (rel < 2.02 * c['reltol'])):
            j = np.flatnonzero(rel > 0.99 * c['reltol'])[0]
            if rel[j] < 2.02 * c['reltol']:
                return None       # the truncation level is met within a factor of two
    use = (si > 0) & (om <= up) & (om >= lo)
    first = np.flatnonzero(rel > 2 * c['reltol'])
    if not use.any() or first.size == 0:
        return None
    use &= np.arange(om.size) >= first[0]
    if np.any(np.abs(om - up) < 1e-9) or use.sum() < 1 or not np.any((om[1:-1] <= up)) or not np.any(om[1:-1] >= lo):
        return None
    x2, x = S.sim_nl(ns=ns, cases=c['cases'], iseed=c['iseed'], method=c['method'], fnlimit=c['fn'], reltol=c['reltol'], g=g,
                     output=c['out'])
    if c['out'] == 'timeseries':
        check(np.asarray(x2.data).ndim == 2 and np.asarray(x2.args).ndim == 1, 'time series objects')
        x2, x = (np.column_stack((v.args, v.data)) for v in (x2, x))
    x2, x = arr(x2), arr(x)
    check(x.shape == x2.shape == (ns, c['cases'] + 1), 'shapes %s %s', x.shape, x2.shape)
    same(x2[:, 0], x[:, 0], 'times')
    lin = S.sim(ns=ns, cases=c['cases'], iseed=c['iseed'])
    close(x[:, 0], lin[:, 0], 1e-12, 1e-12, 'times')
    if c['method'] == 'random':
        close(x, lin, 1e-12, 1e-12, 'linear part is the linear simulation')
    else:
        e = np.fft.rfft(x[:, 1:], axis=0) / ns
        close(2 * np.abs(e[1:-1]) ** 2, np.repeat((si[1:-1] * om[1])[:, None], c['cases'], axis=1), 1e-8, 1e-12,
              'deterministic amplitudes')
    i = np.flatnonzero(use)
    Kp, Km = kernels(om[i], h, g)
    t = x[:, 0]
    for j in range(c['cases']):
        A = 2 * np.fft.rfft(x[:, j + 1])[i] / ns          # eta1 = sum Re(A exp(i w t))
        E = A[None, :] * np.exp(1j * om[i][None, :] * t[:, None])
        ref = 0.25 * (np.einsum('ti,tj,ij->t', E, E, Kp).real + np.einsum('ti,tj,ij->t', E, E.conj(), Km).real)
        sc = np.abs(ref).max() + 1e-9
        close(x2[:, j + 1] - x[:, j + 1], ref, 1e-4, 1e-4 * sc, 'second order contribution (depth %g)' % h)
    return ('deep ' if h > 1e4 else 'finite ') + c['method'][:3] if i.size > 1 else None


@sub('C11', st.tuples(seeds(), st.integers(4, 24), st.sampled_from([20.0, 5.0, 100.0, 9999.0, 1e30]), st.sampled_from([9.81, 1.0]),
                      st.integers(1, 3)), quick=200)
def disufq_implementations_agree(t):
    """every case counts: compiled C and numba versions give the same sums, m replicates at a time as well"""
    seed, ns2, h, g, m = t
    r = rs(seed)
    ns = 2 * ns2
    w = np.linspace(0, 2.0, ns2 + 1)
    k = np.array([wavenumber(v, h, g) for v in w])
    nmin = r.randint(2, ns2 + 1)
    nmax = r.randint(nmin, ns2 + 1)
    A = r.randn(ns, m) + 1j * r.randn(ns, m)
    p = (np.ascontiguousarray(A.real.ravel()), np.ascontiguousarray(A.imag.ravel()), w, k, h, g, nmin, nmax, m, ns)
    a = numba_lib.disufq(*p)
    rv, iv = np.zeros((ns, m)), np.zeros((ns, m))
    for j in range(m):
        q = (np.ascontiguousarray(A[:, j].real), np.ascontiguousarray(A[:, j].imag)) + p[2:8] + (1, ns)
        b = numba_lib.disufq(*q)
        rv[:, j], iv[:, j] = b
        cc = c_library.disufq(*q)
        s = np.abs(b[0]).max() + np.abs(b[1]).max() + 1e-12
        close(cc[0], b[0], 1e-10, 1e-11 * s, 'C and numba, real part')
        close(cc[1], b[1], 1e-10, 1e-11 * s, 'C and numba, imaginary part')
        d = c_library.disufq2(*q)
        close(np.add(d[0], d[2]), b[0], 1e-10, 1e-11 * s, 'sum + difference parts, real')
        close(np.add(d[1], d[3]), b[1], 1e-10, 1e-11 * s, 'sum + difference parts, imaginary')
    s = np.abs(rv).max() + np.abs(iv).max() + 1e-12
    close(a[0], rv.ravel(), 1e-10, 1e-11 * s, 'm replicates at a time')
    close(a[1], iv.ravel(), 1e-10, 1e-11 * s, 'm replicates at a time')
    return 'deep' if h > 1e4 else 'finite'


@sub('C11', st.tuples(nl_case(), st.sampled_from(['mvsk', 'sk', 'm', 'vk', 's']), st.sampled_from([None, None, 30.0])), quick=150)
def second_order_statistics(t):
    """every case counts: stats_nl by its documented integrals; qtf by second order wave theory"""
    c, moments, h2 = t
    w = np.linspace(0.0, c['wmax'], c['n'])
    wp = c['wp']
    with np.errstate(all='ignore'):
        s = np.where(w > 0, (wp / w) ** 5 * np.exp(-1.25 * (wp / w) ** 4), 0.0) * 5 / wp * (c['Hm0'] / 4) ** 2
    S = SpecData1D(s * PI2, w / PI2, freqtype='f') if c['freqtype'] == 'f' else SpecData1D(s.copy(), w.copy(), freqtype='w')
    h = np.inf if c['h'] > 1e8 else c['h']
    S.h = h
    kw = {} if h2 is None else {'h': h2}
    h = h if h2 is None else h2
    g = 9.81
    with unchanged('stats_nl', S.args, S.data):
        got = S.stats_nl(moments=moments, g=g, **kw)
    Kp, Km = kernels(w[1:], h, g)
    Hs, Hd = np.zeros((c['n'],) * 2), np.zeros((c['n'],) * 2)
    Hs[1:, 1:], Hd[1:, 1:] = Kp / 4, Km / 4
    with np.errstate(all='ignore'):
        qs, qd, qi = qtf(w, h, g)
    if h > 1e4:
        k = w ** 2 / g
        Hs, Hd = 0.25 * np.add.outer(k, k), -0.25 * np.abs(np.subtract.outer(k, k))
        close(qs, Hs, 1e-9, 1e-14, 'sum frequency transfer function')
        close(qd, Hd, 1e-9, 1e-14, 'difference frequency transfer function')
    close(np.diag(qd)[1:], np.diag(Hd)[1:], 1e-3, 1e-6, 'diagonal of the difference frequency transfer function')
    close(qi[1:], np.diag(Hd)[1:], 1e-3, 1e-6, 'third result of qtf')
    tr = lambda y: np.sum(0.5 * (y[..., 1:] + y[..., :-1]) * np.diff(w), axis=-1)
    from scipy.integrate import simpson
    m0 = simpson(s, x=w)
    bad = False
    if h <= 1e4 and not (np.allclose(qs[1:, 1:], Hs[1:, 1:], rtol=1e-3, atol=1e-6) and np.allclose(qd[1:, 1:], Hd[1:, 1:], rtol=1e-3, atol=1e-6)):
        # the listed finding: tanh(k) and a factor h instead of tanh(k h)
        W1, W2 = np.meshgrid(w[1:], w[1:])
        kk = np.array([wavenumber(v, h, g) for v in w[1:]])
        K1, K2 = np.meshgrid(kk, kk)
        t1, t2, t3 = 2 * g * K1 * K2 / (W1 * W2), (W1 ** 2 + W2 ** 2 + W1 * W2) / g, (W1 ** 2 + W2 ** 2 - W1 * W2) / g
        with np.errstate(all='ignore'):
            bs = 0.25 * ((t1 - t2 + g * (W1 * K2 ** 2 + W2 * K1 ** 2) / (W1 * W2 * (W1 + W2)))
                         / (1 - g * h * (K1 + K2) / (W1 + W2) ** 2 * np.tanh(K1 + K2)) + t2 - 0.5 * t1)
            bd = 0.25 * ((t1 - t3 - g * (W1 * K2 ** 2 - W2 * K1 ** 2) / (W1 * W2 * (W1 - W2)))
                         / (1 - g * h * np.abs(K1 - K2) / (W1 - W2) ** 2 * np.tanh(np.abs(K1 - K2))) + t3 - 0.5 * t1)
        np.fill_diagonal(bd, np.diag(Hd)[1:])
        close(qs[1:, 1:], bs, 1e-3, 1e-4 * np.abs(bs).max(), 'sum frequency transfer function')
        close(qd[1:, 1:], bd, 1e-3, 1e-4 * np.abs(bd).max(), 'difference frequency transfer function')
        bad = True
        Hs, Hd = qs, qd
    sk = 6 * tr(tr((Hs + Hd) * s[None, :]) * s) / m0 ** 1.5
    ref = {'m': 2 * tr(np.diag(Hd) * s), 'v': m0, 's': sk, 'k': 3 + (4 * sk / 3) ** 2}
    close(got, [ref[q] for q in 'mvsk' if q in moments], 1e-3, 1e-6, 'statistics %s' % moments)
    raises(lambda: S.stats_nl(method='nosuch'), 'unknown method', ValueError)
    if bad:
        known('C11-1', 'qtf: finite depth transfer functions use tanh(k)*h instead of tanh(k*h); skewness and kurtosis of '
              'stats_nl in finite depth follow them')
    return 'deep' if h > 1e4 else 'finite'
