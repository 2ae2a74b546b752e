"""C09 moments, bandwidths, characteristics, normalisation and resampling of 1D spectra."""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import simpson

import wafo.spectrum.models as sm
from wafo.spectrum import SpecData1D
from core import sub, check, close, same, arr, fail, known, unchanged, raises
from gens import fl, nice, rs, seeds

PI2 = 2 * np.pi
NAMES = ('Hm0', 'Tm01', 'Tm02', 'Tm24', 'Tm_10', 'Tp', 'Ss', 'Sp', 'Ka', 'Rs', 'Tp1', 'Alpha', 'Eps2', 'Eps4', 'Qp')


@st.composite
def spec_case(draw, nmin=4, nmax=60):
    return dict(seed=draw(seeds()), n=draw(st.integers(nmin, nmax)), kind=draw(st.sampled_from(['rand', 'peak', 'spikes'])),
                start=draw(st.sampled_from([0.0, 0.0, 0.1, 0.4])), end=draw(st.sampled_from([0.7, 1.0, 3.0, 5.0])),
                grid=draw(st.sampled_from(['uniform', 'uniform', 'uneven'])), freqtype=draw(st.sampled_from('wwf')),
                scale=draw(st.sampled_from([1.0, 1e-3, 50.0])))


def grid_of(c):
    """angular frequencies and angular density"""
    r = rs(c['seed'])
    n = c['n']
    w = np.linspace(c['start'], c['start'] + c['end'], n)
    if c['grid'] == 'uneven':
        w = c['start'] + c['end'] * np.concatenate(([0], np.cumsum(0.2 + r.rand(n - 1)))) / (0.7 * n)
    if c['kind'] == 'rand':
        s = r.rand(n) + 0.01
    elif c['kind'] == 'peak':
        wp = w[n // 3] if w[n // 3] > 0 else w[1]
        s = np.where(w > 0, np.exp(-1.25 * (wp / np.where(w > 0, w, 1)) ** 4) * (wp / np.where(w > 0, w, 1)) ** 5, 0) + 1e-4
    else:
        s = (r.rand(n) < 0.3) * r.rand(n) + 1e-3
    if w[0] == 0:
        s[0] = 0.0
    return w, s * c['scale']


def spec_of(c):
    w, s = grid_of(c)
    if c['freqtype'] == 'f':
        return SpecData1D(s * PI2, w / PI2, freqtype='f'), w, s
    return SpecData1D(s.copy(), w.copy(), freqtype='w'), w, s


@sub('C09', st.tuples(spec_case(), st.integers(0, 6), st.booleans(), st.integers(0, 1)), quick=500)
def moments(t):
    """a case counts when more than one moment is returned"""
    c, nr, even, j = t
    S, w, s = spec_of(c)
    with unchanged('moment', S.args, S.data):
        m, txt = S.moment(nr=nr, even=even, j=j)
    orders = list(range(0, nr + 1, 2 if even else 1))
    ref = [simpson(w ** i * s ** (j + 1), x=w) for i in orders]
    close(m, ref, 1e-9, 0, 'spectral moments %s' % orders)
    check(list(txt) == ['m%d' % j + 't' * i for i in orders], 'names %s of the moments of order %s', txt, orders)
    K = SpecData1D(s.copy(), w.copy(), type='k1d', freqtype='k')
    m, txt = K.moment(nr=nr, even=even, j=j)
    close(m, ref, 1e-9, 0, 'wave number moments')
    check(list(txt) == ['m%d' % j + 'x' * i for i in orders], 'names %s (wave number)', txt)
    close(S.nyquist_freq(), S.args[-1], 0, 0, 'nyquist_freq')
    close(S.sampling_period(), np.pi / w[-1], 1e-12, 0, 'sampling_period')
    # units: converting the frequency axis changes neither moments nor sampling period
    T = S.copy()
    T.freqtype = 'f' if c['freqtype'] == 'w' else 'w'
    close(T.args, w if T.freqtype == 'w' else w / PI2, 1e-12, 1e-15, 'converted frequencies')
    close(T.data, s if T.freqtype == 'w' else s * PI2, 1e-12, 0, 'converted density')
    close(T.moment(nr=nr, even=even, j=j)[0], ref, 1e-9, 0, 'moments after conversion')
    close(T.sampling_period(), np.pi / w[-1], 1e-12, 0, 'sampling_period after conversion')
    T.freqtype = c['freqtype']
    close(T.data, S.data, 1e-12, 0, 'density converted forth and back')
    return 'nr%d%s' % (nr, c['freqtype']) if len(orders) > 1 else None


def ref_chars(m, g):
    m_1, m0, m1, m2, m4 = m
    return np.array([4 * np.sqrt(m0), m0 / m1, np.sqrt(m0 / m2), np.sqrt(m2 / m4), m_1 / m0,
                     PI2 * 4 * np.sqrt(m0) / g * m2 / m0, m2 / np.sqrt(m0 * m4), np.sqrt(m0 * m2 / m1 ** 2 - 1),
                     np.sqrt(1 - m2 ** 2 / (m0 * m4))])


WHICH = [0, 1, 2, 3, 4, 6, 11, 12, 13]


def all_chars(w, s, T, g):
    f, sf = w / PI2, s * PI2
    k = f > 0
    I = lambda p, q: simpson((f[k] ** p * sf[k] ** q), x=f[k]) if p < 0 or (p, q) == (-1, 2) else simpson(f ** p * sf ** q, x=f)
    ks = [-1, 0, 1, 2, 4]
    m = np.array([I(i, 1) for i in ks])
    C = np.zeros((5, 5))
    for a, i in enumerate(ks):
        for b, j in enumerate(ks):
            C[a, b] = I(i + j, 2) / T
    G = np.array([ref_chars(m + 1e-30j * np.eye(5)[i], g).imag / 1e-30 for i in range(5)]).T
    R9 = G.dot(C).dot(G.T)
    ch = np.zeros(15)
    ch[WHICH] = ref_chars(m, g)
    i = int(np.argmax(s))
    ch[5] = PI2 / w[i]
    ch[7] = PI2 * ch[0] / g / ch[5] ** 2
    ch[8] = abs(simpson(s * np.cos(w * ch[2]), x=w) + 1j * simpson(s * np.sin(w * ch[2]), x=w)) / m[1]
    ch[9] = np.sum(np.interp(PI2 * np.array([0.0146, 0.0195, 0.0244]), w, s)) / (3 * s[i])
    ch[10] = PI2 * simpson(s ** 4, x=w) / simpson(w * s ** 4, x=w)
    ch[14] = 2 / m[1] ** 2 * simpson(w * s ** 2, x=w)
    R = np.full((15, 15), np.nan)
    for a, i in enumerate(WHICH):
        R[i, i] = R9[a, a]
    cov = {(0, 1): R9[0, 1], (0, 2): R9[0, 2], (1, 2): R9[1, 2]}
    return ch, R, cov


@sub('C09', st.tuples(spec_case(nmin=9), st.lists(st.integers(0, 14), min_size=1, max_size=6),
                      st.sampled_from(['int', 'name', 'lower', 'single']), st.sampled_from([1200.0, 60.0]),
                      st.sampled_from([9.81, 1.0])), quick=500)
def characteristics(t):
    """a case counts when a covariance or at least three characteristics are requested"""
    c, idx, how, T, g = t
    S, w, s = spec_of(c)
    if how == 'single':
        idx = idx[:1]
    fact = {'int': list(idx), 'name': [NAMES[i] for i in idx], 'lower': [NAMES[i].lower() for i in idx],
            'single': NAMES[idx[0]]}[how]
    with unchanged('characteristic', S.args, S.data):
        ch, R, txt = S.characteristic(fact, T=T, g=g)
    ref, RR, cov = all_chars(w, s, T, g)
    m0, m2, m4 = (simpson(w ** i * s, x=w) for i in (0, 2, 4))
    m1 = simpson(w * s, x=w)
    tol = np.full(15, 1e-8)
    with np.errstate(all='ignore'):
        tol[12] = 1e-8 + 1e-13 / ref[12] ** 2
        tol[13] = 1e-8 + 1e-13 / ref[13] ** 2
    if not (np.all(np.isfinite(ref)) and min(m0, m1, m2, m4) > 0 and simpson(w * s ** 4, x=w) > 0):
        return None      # Simpson's rule on a coarse grid may produce a negative "moment"
    ch = arr(ch, 'characteristics')
    check(ch.shape == (len(idx),) and list(txt) == [NAMES[i] for i in idx], 'names %s for factors %s', txt, fact)
    close(ch, ref[idx], tol[idx] * np.abs(ref[idx]).max() if False else 0, tol[idx] * np.abs(ref[idx]) + 1e-12 * (np.array(idx) == 9),
          'characteristics %s' % list(txt))
    R = arr(R, 'R')
    check(R.shape == (len(idx), len(idx)), 'shape of R %s', R.shape)
    bad = []
    for a, i in enumerate(idx):
        for b, j in enumerate(idx):
            if i == j:
                e = RR[i, i]
                if np.isnan(e):
                    check(np.isnan(R[a, b]), 'variance of %s is not available but %s', NAMES[i], R[a, b])
                elif i in (12, 13) and ref[i] < 1e-2:
                    continue
                else:
                    # sum of cancelling terms: compare relative to the size of the terms
                    size = abs(e) + abs(ref[i]) ** 2 * simpson(s ** 2, x=w) / m0 ** 2 * PI2 / T
                    check(abs(R[a, b] - e) <= 1e-6 * size / (ref[i] ** 4 if i in (12, 13) else 1), 'variance of %s: %s expected %s', NAMES[i], R[a, b], e)
            else:
                p = (min(i, j), max(i, j))
                e = cov.get(p, np.nan)
                listed = {(0, 1): np.nan, (0, 2): cov[0, 1], (0, 3): cov[0, 2]}
                tolr = 1e-6 * abs(e) + 1e-9 * abs(ref[p[0]] * ref[p[1]])
                ok = (np.isnan(e) and np.isnan(R[a, b])) or abs(R[a, b] - e) <= tolr
                if not ok:
                    q = listed.get(p, 'no')
                    if p in listed and ((np.isnan(q) and np.isnan(R[a, b])) or abs(R[a, b] - q) <= 1e-6 * abs(q) + 1e-9 * abs(ref[p[0]] * ref[p[1]])):
                        bad.append(p)
                        continue
                    fail('covariance of %s and %s: %s expected %s', NAMES[i], NAMES[j], R[a, b], e)
    raises(lambda: S.characteristic([15]), 'factor 15', ValueError)
    raises(lambda: S.characteristic('nosuch'), 'unknown characteristic', ValueError)
    b = [('alpha', 11), ('eps2', 12), ('eps4', 13), ('Qp', 14)]
    for k, (name, i) in enumerate(b):
        close(S.bandwidth(name), [ref[i]], tol[i], 0, 'bandwidth(%r)' % name)
        close(S.bandwidth(k), [ref[i]], tol[i], 0, 'bandwidth(%d)' % k)
    o = [i % 4 for i in idx]
    close(S.bandwidth(o), ref[11:][o], 0, (tol[11:] * np.abs(ref[11:]))[o], 'bandwidth(%s)' % o)
    if bad:
        known('C09-1', 'characteristic: covariances of Hm0 with Tm01 and Tm02 are stored one column too far: %s', bad)
    return how if len(idx) > 2 else None


@sub('C09', spec_case(nmin=9), quick=300)
def normalisation(c):
    """every case counts"""
    S, w, s = spec_of(c)
    m = [simpson(w ** i * s, x=w) for i in (0, 2)]
    if min(m) <= 0:
        return None
    a0, d0 = S.args.copy(), S.data.copy()
    S0 = S.copy()
    S.normalize()
    close(S.moment(nr=2, even=True)[0], [1.0, 1.0], 1e-9, 0, 'm0 and m2 of the normalised spectrum')
    A = np.sqrt(m[0] / m[1])
    close(S.args, a0 * A, 1e-9, 1e-15, 'normalised frequencies')
    close(S.data, d0 / (A * m[0]), 1e-9, 0, 'normalised density')
    check(S.norm and S.freqtype == c['freqtype'], 'norm flag %s', S.norm)
    same(S0.args, a0, 'a copy is independent')
    same(S0.data, d0, 'a copy is independent')
    return c['freqtype']


@st.composite
def res_case(draw):
    c = draw(spec_case(nmin=6))
    c['kind'] = 'peak'
    c['ratio'] = draw(st.sampled_from([None, 1.0, 0.5, 0.25, 0.83, 0.37, 1.5, 2.0]))
    c['method'] = draw(st.sampled_from(['linear', 'linear', 'stineman', 'cubic']))
    c['Nmin'] = draw(st.sampled_from([0, 0, 100, 513]))
    c['via'] = draw(st.sampled_from(['resample', 'interp']))
    return c


@sub('C09', res_case(), quick=200)
def resampling(c):
    """a case counts when the Nyquist frequency changes or the grid starts above zero"""
    S, w, s = spec_of(c)
    a0, d0 = S.args.copy(), S.data.copy()
    dt = None if c['ratio'] is None else c['ratio'] * np.pi / w[-1]
    if c['via'] == 'interp' and c['method'] == 'stineman' and c['Nmin'] == 0:
        R = S.interp(dt)
        same(S.args, a0, 'interp modified the spectrum')
        same(S.data, d0, 'interp modified the spectrum')
    else:
        R = S.copy()
        R.resample(dt, Nmin=c['Nmin'], method=c['method'])
    u = PI2 if c['freqtype'] == 'f' else 1.0
    x, y = arr(R.args) * u, arr(R.data) / u
    n = x.size
    wn = np.pi / (dt if dt else np.pi / w[-1])
    check(n == y.size and n >= 3 and (n - 1) & (n - 2) == 0, 'number of frequencies %d is not 2**k + 1', n)
    check(n >= c['Nmin'], 'number of frequencies %d < Nmin', n)
    close(x, np.linspace(0, wn, n), 1e-10, 1e-12, 'resampled frequencies')
    close(R.sampling_period(), np.pi / wn, 1e-10, 0, 'sampling period after resampling')
    check(n - 1 >= (w.size - 1) * wn / w[-1] * (1 - 1e-9) or n >= 2 ** 13 + 1, 'resampled grid %d is coarser', n)
    check(np.all(y >= 0) and np.all(np.isfinite(y)), 'resampled density negative or not finite')
    dw = np.min(np.diff(w))
    out = (x > w[-1] + dw * (1 + 1e-9)) | (x < w[0] - dw * (1 + 1e-9))
    if c['method'] != 'cubic':
        check(np.all(np.abs(y[out]) <= 1e-12 * s.max()), 'resampled density not zero outside the frequency range')
    ins = (x >= w[0]) & (x <= w[-1])
    if c['method'] == 'linear':
        close(y[ins], np.interp(x[ins], w, s), 1e-9, 1e-12 * s.max(), 'linearly resampled density')
    else:
        i = np.argmin(np.abs(x[:, None] - w[None, :]), axis=1)
        hit = np.abs(x - w[i]) <= 1e-12 * w[-1]
        close(y[hit], s[i][hit], 1e-6, 1e-8 * s.max(), 'density at an original frequency')
        if c['method'] == 'stineman':
            from wafo.interpolate import stineman_interp
            ww, ss = w, s
            if wn > w[-1] * (1 + 1e-11):
                z = [w[-1] + dw, wn] if wn - w[-1] > dw else [wn]
                ww, ss = np.r_[ww, z], np.r_[ss, np.zeros(len(z))]
            if w[0] > 0:
                z = [0, w[0] - dw] if w[0] > dw else [0]
                ww, ss = np.r_[z, ww], np.r_[np.zeros(len(z)), ss]
            close(y, np.maximum(stineman_interp(x / u, ww / u, ss * u), 0) / u, 1e-6, 1e-8 * s.max(), 'stineman resampled density')
    return c['method'] if c['ratio'] not in (None, 1.0) or c['start'] else None
