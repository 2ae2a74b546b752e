"""C10 spectrum <-> covariance transforms and their estimation from data."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import signal, stats

from wafo.covariance import CovData1D
from wafo.objects import TimeSeries
from wafo.spectrum import SpecData1D
from core import sub, check, close, same, arr, fail, known, unchanged, raises
from gens import fl, nice, rs, seeds

PI2 = 2 * np.pi


def npow2(n):
    k = 0
    while 2 ** k < n:
        k += 1
    return 2 ** k


@st.composite
def spec_case(draw):
    return dict(seed=draw(seeds()), n=draw(st.one_of(st.integers(3, 40), st.sampled_from([5, 9, 17, 33, 65]))),
                end=draw(st.sampled_from([0.7, 1.0, 3.0, 10.0])), freqtype=draw(st.sampled_from('wwfk')),
                nr=draw(st.integers(0, 4)), nt=draw(st.one_of(st.none(), st.integers(1, 90))),
                rate=draw(st.sampled_from([None, 1, 2, 3, 4, 8, 16, 20])))


def spectrum(c):
    r = rs(c['seed'])
    x = np.linspace(0, c['end'], c['n'])
    y = r.rand(c['n']) * (r.rand(c['n']) < 0.8)
    y[r.randint(c['n'])] += 1.0
    typ = 'k1d' if c['freqtype'] == 'k' else 'freq'
    return SpecData1D(y, x, freqtype=c['freqtype'], type=typ, h=12.0, tr='tr'), x, y


def cov_by_definition(x, y, t, f2w, order):
    """trapezoid rule for the order'th derivative of int S(w) cos(w t) dw"""
    w = x * f2w
    c = np.full(x.size, x[1] - x[0])
    c[[0, -1]] *= 0.5
    ph = w[None, :] * t[:, None] + order * np.pi / 2
    return np.cos(ph).dot(c * y * w ** order), np.sum(c * y * w ** order)


@sub('C10', spec_case(), quick=400)
def spec_to_cov(c):
    """a case counts when at least two lags or a derivative is computed"""
    S, x, y = spectrum(c)
    with unchanged('tocovdata', S.args, S.data):
        R = S.tocovdata(nr=c['nr'], nt=c['nt'], rate=c['rate'])
    f2w = PI2 if c['freqtype'] == 'f' else 1.0
    rate = 1 if c['rate'] is None else min(16, npow2(c['rate']))
    t = arr(R.args)
    top = rate * (c['n'] - 1)
    nt = top if c['nt'] is None else min(c['nt'], top)
    check(t.shape == (nt + 1,), 'number of lags %s expected %d', t.shape, nt + 1)
    dt = np.pi / (x[-1] * f2w) / rate * (c['n'] - 1) / npow2(c['n'] - 1)
    close(t, dt * np.arange(nt + 1), 1e-9, 1e-12, 'time lags')
    lag = 'x' if c['freqtype'] == 'k' else 't'
    for i in range(c['nr'] + 1):
        d, size = cov_by_definition(x, y, t, f2w, i)
        got = R.data if i == 0 else getattr(R, 'R' + lag * i)
        close(got, d, 0, 1e-9 * size + 1e-15, 'derivative %d of the covariance function' % i)
    check(not hasattr(R, 'R' + lag * (c['nr'] + 1)), 'more derivatives than asked for')
    check(R.lagtype == lag and R.h == 12.0 and R.tr == 'tr', 'attributes lagtype, h, tr')
    # the grid requirements are enforced
    raises(lambda: SpecData1D(y, x + 0.1).tocovdata(), 'spectrum not starting at zero', ValueError)
    if c['n'] > 3:
        z = x.copy()
        z[1] *= 1.3
        raises(lambda: SpecData1D(y, z).tocovdata(), 'not equidistant spectrum', ValueError)
    # back again
    if c['nt'] is None and npow2(c['n'] - 1) == c['n'] - 1 and rate == 1:
        S2 = CovData1D(R.data.copy(), t, lagtype=lag).tospecdata(trunc=0)
        close(S2.args, x * f2w, 1e-9, 1e-12, 'frequencies after the round trip')
        close(S2.data, y / f2w, 0, 1e-9 * y.max() / f2w, 'spectrum -> covariance -> spectrum')
        return 'round trip'
    return 'nr%d' % c['nr'] if nt > 1 else None


@sub('C10', st.tuples(spec_case(), st.sampled_from([1.0, 0.5, 0.7, 0.3, 0.25]), st.integers(1, 40)), quick=120)
def covariance_matrix(t):
    """every case counts"""
    c, ratio, nt = t
    c = dict(c, n=max(c['n'], 6), freqtype='w' if c['freqtype'] == 'k' else c['freqtype'])
    S, x, y = spectrum(c)
    y[-1] = 0
    f2w = PI2 if c['freqtype'] == 'f' else 1.0
    dt = ratio * np.pi / (x[-1] * f2w)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with unchanged('tocov_matrix', S.args, S.data):
            M = arr(S.tocov_matrix(nr=c['nr'], nt=nt, dt=dt))
    N = min(nt, int(max(round(1 / ratio), 1)) * (c['n'] - 1))
    check(M.shape == (N + 1, c['nr'] + 1), 'shape %s expected %s', M.shape, (N + 1, c['nr'] + 1))
    Q = S.interp(dt)
    for i in range(c['nr'] + 1):
        d, size = cov_by_definition(Q.args, Q.data, dt * np.arange(N + 1), f2w, i)
        close(M[:, i], d, 0, 1e-9 * size + 1e-15, 'column %d of the covariance matrix' % i)
    return 'nr%d' % c['nr']


@st.composite
def acf_case(draw):
    return dict(seed=draw(seeds()), n=draw(st.one_of(st.integers(3, 40), st.sampled_from([5, 9, 17, 33]))),
                kind=draw(st.sampled_from(['osc', 'exp', 'tri', 'noise'])), dt=draw(st.sampled_from([1.0, 0.25, 3.0])),
                rate=draw(st.sampled_from([None, 1, 2, 3, 4])), method=draw(st.sampled_from(['fft', 'fft', 'linear', 'stineman', 'cubic'])),
                fast=draw(st.booleans()), trunc=draw(st.sampled_from([0.0, 1e-5, 1e-2])),
                nugget=draw(st.sampled_from([0.0, 1e-6, 0.1])), lag=draw(st.sampled_from('ttx')))


def acf_of(c):
    r = rs(c['seed'])
    k = np.arange(c['n'])
    a, b = 0.02 + 0.3 * r.rand(), r.rand() * 2
    if c['kind'] == 'osc':
        return np.exp(-a * k) * np.cos(b * k) * 3
    if c['kind'] == 'exp':
        return np.exp(-a * k)
    if c['kind'] == 'tri':
        return np.maximum(0, 1 - k / (1.0 + c['n'] * r.rand()))
    return np.r_[1.0, r.rand(c['n'] - 1) - 0.5]


@sub('C10', acf_case(), quick=400)
def cov_to_spec(c):
    """every case counts"""
    a = acf_of(c)
    n = c['n']
    t = np.arange(n) * c['dt']
    R = CovData1D(a.copy(), t, lagtype=c['lag'], h=7.0)
    if n < 5 and c['method'] == 'cubic':
        c = dict(c, method='linear')
    kw = dict(rate=c['rate'], method=c['method'], fast=c['fast'], trunc=c['trunc'], nugget=c['nugget'])
    with unchanged('CovData1D.tospecdata', R.data, R.args):
        S = R.tospecdata(**kw)
    rate = 1 if c['rate'] is None else npow2(c['rate'])
    nf = npow2(n - 1) if c['fast'] else n - 1
    if c['method'] == 'fft':
        nf *= rate
    w = np.linspace(0, np.pi / c['dt'], nf + 1)
    b = a.copy()
    b[0] += c['nugget']
    k = np.full(n, 2.0)
    k[[0, -1]] = 1.0
    raw = np.cos(w[:, None] * t[None, :]).dot(k * b) * c['dt'] / np.pi
    d = np.maximum(raw, 0)
    edge = np.abs(d - c['trunc'] * d.max()) < 1e-7 * d.max()   # undecided: at the truncation level
    d = np.where(d < c['trunc'] * d.max(), 0, d)
    if c['method'] == 'fft' or rate == 1:
        close(S.args, w, 1e-10, 1e-12, 'frequencies')
        got = arr(S.data)
        check(got.shape == d.shape, 'shape %s %s', got.shape, d.shape)
        close(np.where(edge, 0, got), np.where(edge, 0, d), 1e-7, 1e-10 * d.max(), 'spectral density')
    else:
        w2 = np.linspace(0, np.pi / c['dt'], nf * rate)
        close(S.args, w2, 1e-10, 1e-12, 'frequencies')
        check(np.all(arr(S.data) >= 0), 'negative density')
        if c['method'] == 'linear' and not edge.any():
            close(S.data, np.interp(w2, w, d), 1e-7, 1e-9 * d.max(), 'interpolated spectral density')
    check(S.h == 7.0 and S.freqtype == ('w' if c['lag'] == 't' else 'k'), 'attributes')
    return c['method']


@st.composite
def data_case(draw):
    n = draw(st.one_of(st.integers(8, 80), st.sampled_from([16, 32, 64, 128])))
    return dict(seed=draw(seeds()), n=n, dt=draw(st.sampled_from([1.0, 0.25, 0.5])), lag=draw(st.integers(1, n + 3)),
                flag=draw(st.sampled_from(['biased', 'biased', 'unbiased'])), norm=draw(st.booleans()),
                win=draw(st.sampled_from(['boxcar', 'boxcar', 'vector'])), nan=draw(st.sampled_from([0, 0, 0, 1, 3])),
                kind=draw(st.sampled_from(['walk', 'noise', 'trend', 'wave'])), setdt=draw(st.booleans()))


def data_of(c):
    r = rs(c['seed'])
    n = c['n']
    k = np.arange(n)
    x = r.randn(n) + 3 * r.randn()
    if c['kind'] == 'walk':
        x = np.cumsum(x - x.mean())
    elif c['kind'] == 'trend':
        x = x + 0.2 * k
    elif c['kind'] == 'wave':
        x = np.sin(k * (0.2 + r.rand())) + 0.1 * x
    return x


@sub('C10', data_case(), quick=400)
def covariance_estimation(c):
    """a case counts when the lag is at least two"""
    x = data_of(c)
    n = c['n']
    r = rs(c['seed'] + 1)
    bad = r.choice(n, c['nan'], replace=False)
    x[bad] = np.nan
    if c['nan'] and c['flag'] == 'unbiased':
        c = dict(c, flag='biased')
    t = np.arange(n) * c['dt']
    ts = TimeSeries(x, t)
    L = min(c['lag'], n - 2)
    win = np.ones(2 * L - 1) if c['win'] == 'boxcar' else 0.1 + r.rand(2 * L - 1)
    kw = dict(lag=c['lag'], flag=c['flag'], norm=c['norm'], window='boxcar' if c['win'] == 'boxcar' else win)
    if c['setdt']:
        kw['dt'] = 2.0
    if c['nan']:
        kw['detrend'] = None
    with unchanged('tocovdata', x, t):
        R = ts.tocovdata(**kw)
    ok = ~np.isnan(x)
    N = int(ok.sum())
    z = np.where(ok, x - x[ok].mean(), 0)
    a = np.array([np.dot(z[:n - k], z[k:]) for k in range(L + 1)]) / N
    full = np.array([np.dot(z[:n - k], z[k:]) for k in range(n)]) / N
    if c['flag'] == 'unbiased':
        a = a * N / (N - np.arange(L + 1.0))
    if c['norm']:
        a = a / full[0]
    a[:L] *= win[L - 1:]
    a[L] = 0
    dt = 2.0 if c['setdt'] else c['dt']
    close(R.args, dt * np.arange(L + 1), 1e-10, 1e-12, 'lags')
    close(R.data, a, 0, 1e-9 * np.abs(a).max(), 'covariance estimate')
    s = np.sqrt(np.r_[0, a[0] ** 2, a[0] ** 2 + 2 * np.cumsum(a[1:-1] ** 2)] / N)[:L + 1]
    close(arr(R.sigma)[:L + 1], s, 1e-7, 1e-9 * np.abs(a).max(), 'standard deviation of the covariance estimate')
    check(bool(R.norm) == c['norm'], 'norm flag')
    return c['flag'] if L > 1 else None


@sub('C10', st.tuples(data_case(), st.sampled_from(['parzen', 'boxcar', 'hann', 'bartlett']), st.sampled_from(['cov', 'psd', 'psd']),
                      st.sampled_from('wf'), st.sampled_from([None, 0.05])), quick=300)
def spectrum_estimation(t):
    """every case counts"""
    c, window, method, ftype, alpha = t
    c = dict(c, nan=0)
    x = data_of(c)
    n = c['n']
    if alpha is not None and window != 'parzen':
        window = 'parzen'
    if window not in ('parzen', 'bartlett'):
        window = 'parzen'
    tt = np.arange(n) * c['dt']
    L = max(2, min(c['lag'], n - 2))
    if method == 'psd':
        L = max(2, min(L, n // 2))
    ts = TimeSeries(x, tt)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with unchanged('tospecdata', x, tt):
            if method == 'psd':
                S = ts.tospecdata(L=L, method='psd', detrend=None, window=window, ftype=ftype, alpha=alpha)
            else:
                S = ts.tospecdata(L=L, window=window, ftype=ftype, alpha=alpha)
    u = PI2 if ftype == 'f' else 1.0
    w, s = arr(S.args) * u, arr(S.data) / u
    check(S.freqtype == ftype, 'freqtype %s', S.freqtype)
    dt = c['dt']
    close(w[[0, -1]], [0, np.pi / dt], 1e-9, 1e-12, 'frequency range up to the Nyquist frequency')
    close(np.diff(w), np.full(w.size - 1, w[1]), 1e-7, 0, 'equidistant frequencies')
    win = signal.get_window(window, 2 * L - 1)
    if method == 'cov':
        z = x - x.mean()
        a = np.array([np.dot(z[:n - k], z[k:]) for k in range(L + 1)]) / n
        a[:L] *= win[L - 1:]
        a[L] = 0
        k = np.full(L + 1, 2.0)
        k[0] = 1
        d = np.maximum(np.cos(w[:, None] * (dt * np.arange(L + 1))[None, :]).dot(k * a) * dt / np.pi, 0)
        d = np.where(d < 1e-5 * d.max(), 0, d)
        close(s, d, 1e-5, 2e-5 * d.max(), 'spectrum estimate from the windowed covariance')
        # total energy is the variance of the record times the window at lag zero
        e = w[1] * (s.sum() - 0.5 * s[0] - 0.5 * s[-1])
        check(e >= a[0] * (1 - 1e-3), 'energy %g < variance %g', e, a[0])
    else:
        m = 2 * L - 1
        d = np.zeros(w.size)
        segs = n // m
        if segs == 0:
            return None
        for j in range(segs):
            z = x[j * m:(j + 1) * m] * win
            F = np.exp(-1j * w[:, None] * dt * np.arange(m)[None, :]).dot(z)
            d += np.abs(F) ** 2
        d *= 2 * dt / np.sum(win ** 2) / segs / PI2
        d[[0, -1]] /= 2
        close(s, d, 1e-7, 1e-10 * d.max(), 'Welch estimate')
    close(S.Bw, 1.33 * PI2 / (L * dt) / u, 1e-9, 0, 'bandwidth')
    check(S.L == L, 'L = %s', S.L)
    if alpha is not None:
        dof = int(3.71 * n / L)
        close(S.CI, [dof / stats.chi2.isf(alpha / 2, dof), dof / stats.chi2.ppf(alpha / 2, dof)], 1e-7, 0,
              'confidence interval factors')
    raises(lambda: ts.tospecdata(L=L, method='nosuch'), 'unknown method', ValueError)
    return method
