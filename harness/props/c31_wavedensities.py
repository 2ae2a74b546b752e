"""C31 densities of wave characteristics computed from a spectrum: half periods and lengths, (max, min), normalised spectra."""
import math
import os
import warnings
from contextlib import contextmanager

import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtr
from scipy.stats import qmc, norm

from wafo.spectrum import SpecData1D
from wafo.transform.core import TrData
import wafo.transform.models as tm
from core import sub, check, close, same, fail, unchanged, raises
from gens import fl, nice, rs, seeds


@contextmanager
def silent():
    """the compiled code prints its progress on file descriptor 1"""
    import sys
    sys.stdout.flush()
    keep, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        os.dup2(keep, 1)
        os.close(keep), os.close(null)


@st.composite
def spectra(draw):
    return dict(seed=draw(seeds()), scale=draw(nice(0.05, 6.0)), tscale=draw(nice(0.3, 4.0)), width=draw(fl(0.25, 0.7)), second=draw(st.booleans()))


def spectrum(case, n=257, **kw):
    R = rs(case['seed'])
    v = np.linspace(0, 3, n)
    d = np.exp(-0.5 * ((v - 1) / case['width'] / 0.7) ** 2) * (v / (v + 0.3)) ** 4
    if case['second']:
        d = d + 0.3 * R.rand() * np.exp(-0.5 * ((v - 1.9) / 0.2) ** 2)
    d = d * np.clip((3 - v) / 0.6, 0, 1) ** 2
    d = d / (np.sum((d[1:] + d[:-1]) / 2) * v[1])
    w = v / case['tscale']
    return SpecData1D(case['scale'] ** 2 * d * case['tscale'], w, **kw)


def moments(S):
    w, d = S.args, S.data
    return [np.trapz(w ** k * d, w) for k in (0, 2, 4)]


def transform(case, m0):
    """None or an increasing transformation given by a fine table, and the function y = g(x)"""
    kind, mean = case['tr'], case['mean']
    s = math.sqrt(m0)
    if kind is None:
        return None, lambda x: np.asarray(x) / s
    if kind == 'linear':
        return tm.TrLinear(mean=mean, sigma=1.3 * s), lambda x: (np.asarray(x) - mean) / (1.3 * s)
    y = np.linspace(-6.5, 6.5, 1301)
    x = mean + s * (y + 0.06 * y ** 2 * np.exp(-np.abs(y) / 9) * case['skew'])
    if not np.all(np.diff(x) > 0):
        return None, lambda q: np.asarray(q) / s
    xs = np.linspace(x[0], x[-1], 1501)
    ys = np.interp(xs, x, y)
    return TrData(ys, xs, mean=mean, sigma=s), lambda q: np.interp(q, xs, ys)


def inverse(g, y, lo, hi):
    for _ in range(80):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if g(mid) < y else (lo, mid)
    return (lo + hi) / 2


trs = dict(tr=st.sampled_from([None, None, 'linear', 'table']), mean=st.sampled_from([0.0, 0.4, -1.5]), skew=st.sampled_from([-1.0, 1.0, 0.5]))


@st.composite
def period_cases(draw, levels=fl(-0.8, 1.6)):
    c = draw(spectra())
    c.update({k: draw(v) for k, v in trs.items()})
    c.update(y=draw(st.one_of(st.just(None), levels)), kind=draw(st.sampled_from(['Tc', 'Tt', 'Lc', 'Lt', 'tt'])), n=draw(st.integers(5, 12)), start=draw(st.sampled_from([0, 0, 0.5])))
    return c


def set_up(case):
    space = case['kind'][0] in 'lL'
    S = spectrum(case, **(dict(type='k1d', freqtype='k') if space else {}))
    m = moments(S)
    tr, g = transform(case, m[0])
    if tr is not None:
        S.tr = tr
    s = math.sqrt(m[0])
    y = 0.0 if case['y'] is None else case['y']
    c = 0.0 if tr is None else case['mean']
    u = None if case['y'] is None else float(inverse(g, y, c - 9 * s, c + 9 * s))
    return S, m, y, u


@sub('C31', period_cases(), quick=60)
def half_period_values(case):
    """a level away from the most crossed one"""
    S, m, y, u = set_up(case)
    A = math.sqrt(m[0] / m[1])
    n = case['n']
    tn = 2.6 * math.pi * A * (0.55 if y * (1 if case['kind'][1] == 'c' else -1) > 0.7 else 0.8)
    t0 = case['start'] * tn
    w0, d0 = S.args.copy(), S.data.copy()
    with silent():
        f = S.to_t_pdf(u, kind=case['kind'], paramt=[t0, tn, n], seed=case['seed'] % 1000)
    same(S.args, w0, 'to_t_pdf changed the frequencies'), same(S.data, d0, 'to_t_pdf changed the spectrum')
    close(f.args, np.linspace(0, tn, n), 1e-9, 1e-9, 'times')
    check(np.all(np.asarray(f.data) >= 0), 'negative density %s', f.data)
    # by definition: X(0)=X(t)=y, X'(0)>0>X'(t), X>y at the n-2 times between; sampled conditionally
    y = y if case['kind'][1] == 'c' else -y
    w, d = S.args * A, S.data / A / m[0]
    dw = np.gradient(w)
    dw[0], dw[-1] = (w[1] - w[0]) / 2, (w[-1] - w[-2]) / 2
    c = d * dw
    t = np.linspace(0, tn / A, n)
    r0, r1, r2 = [np.array([np.sum(c * q(w, s)) for s in t]) for q in
                  (lambda w, s: np.cos(w * s), lambda w, s: -w * np.sin(w * s), lambda w, s: -w ** 2 * np.cos(w * s))]
    scale = 2 * math.pi * math.exp(y * y / 2)                  # one over the intensity of upcrossings
    k0 = max(int(round(t0 / tn * (n - 1))), 1)
    check(np.all(np.asarray(f.data)[:k0] == 0), 'density before the first time %s', f.data)
    for k in sorted({k0, n - 1, (k0 + n) // 2}):
        times = [(0, 0), (0, t[k]), (1, 0), (1, t[k])] + [(0, t[i]) for i in range(1, k)]
        idx = [0, k, 0, k] + list(range(1, k))
        der = [a for a, _ in times]
        N = len(idx)
        C = np.empty((N, N))
        for a in range(N):
            for b in range(N):
                lag = idx[b] - idx[a]
                q, sg = abs(lag), (1 if lag >= 0 else -1)
                C[a, b] = {(0, 0): r0[q], (1, 0): -sg * r1[q], (0, 1): sg * r1[q], (1, 1): -r2[q]}[der[a], der[b]]
        Scc, Sxc, Sxx = C[:2, :2], C[2:, :2], C[2:, 2:]
        inv = np.linalg.inv(Scc)
        mu = Sxc @ inv @ np.array([y, y])
        V = Sxx - Sxc @ inv @ Sxc.T
        fc = math.exp(-0.5 * np.array([y, y]) @ inv @ np.array([y, y])) / (2 * math.pi * math.sqrt(np.linalg.det(Scc)))
        ev, Q = np.linalg.eigh(V)
        L = Q * np.sqrt(np.maximum(ev, 0))
        z = norm.ppf(np.clip(qmc.Sobol(V.shape[0], seed=7).random(2 ** 13), 1e-12, 1 - 1e-12))
        X = mu + z @ L.T
        val = np.maximum(X[:, 0], 0) * np.maximum(-X[:, 1], 0) * np.all(X[:, 2:] > y, axis=1)
        ref, se = scale * fc * val.mean() / A, scale * fc * val.std() / A / math.sqrt(len(val))
        got = float(f.data[k])
        tol = 0.04 * ref + 6 * se + 4 * float(f.err[k]) + 2e-3 / A
        check(abs(got - ref) <= tol, '%s density at %.4g is %.6g, not %.6g (tolerance %.2g)', case['kind'], t[k] * A, got, ref, tol)
    return case['y'] is not None


@sub('C31', period_cases(fl(-0.3, 1.8)), quick=16)
def half_period_mean(case):
    """a level away from the most crossed one"""
    S, m, y, u = set_up(case)
    A = math.sqrt(m[0] / m[1])
    sgn = 1 if case['kind'][1] == 'c' else -1
    z = sgn * y
    if z < -0.3:
        z, sgn_u = -z, True
        case = dict(case, kind=case['kind'][0] + ('t' if case['kind'][1] == 'c' else 'c'))
    mean = 2 * math.pi * A * math.exp(z * z / 2) * ndtr(-z)      # Rice: fraction of time above over the intensity
    tn = 4.2 * mean
    with silent():
        f = S.to_t_pdf(u, kind=case['kind'], paramt=[0, tn, 71], seed=1)
    t, p = f.args, f.data
    total, first = np.trapz(p, t), np.trapz(p * t, t)
    if p[-8:].max() > 0.01 * p.max():
        return None
    close(total, 1, 0.05, 0, 'integral of the density of %s at level %s' % (case['kind'], u))
    close(first, mean, 0.08, 0, 'mean of %s at level %s' % (case['kind'], u))
    return case['y'] is not None


@st.composite
def mm_cases(draw):
    c = draw(spectra())
    c.update({k: draw(v) for k, v in trs.items()})
    c.update(nit=draw(st.sampled_from([1, 2, 2, 3])), n=draw(st.sampled_from([41, 56])), nt=draw(st.sampled_from([30, 43])), default=draw(st.booleans()))
    return c


@sub('C31', mm_cases(), quick=40)
def max_and_min(case):
    """a transformed process"""
    S = spectrum(case)
    m = moments(S)
    s = math.sqrt(m[0])
    tr, g = transform(case, m[0])
    if tr is not None:
        S.tr = tr
    lo, hi = -5 * s, 5 * s
    if tr is not None:
        lo, hi = [float(inverse(g, q, case['mean'] - 9 * s, case['mean'] + 9 * s)) for q in (-5, 5)]
    n = case['n']
    kw = {} if case['default'] and tr is None else dict(paramu=[lo, hi, n])
    if not kw:
        n = 41
    if case['nt'] != 43:
        kw['paramt'] = [0, 5 * math.pi * math.sqrt(m[1] / m[2]), case['nt']]
    w0, d0 = S.args.copy(), S.data.copy()
    with silent():
        f = S.to_mm_pdf(nit=case['nit'], **kw)
    same(S.args, w0, 'to_mm_pdf changed the frequencies'), same(S.data, d0, 'to_mm_pdf changed the spectrum')
    h = np.linspace(lo, hi, n)
    dh = h[1] - h[0]
    for a in f.args:
        close(a, h, 1e-6, 1e-6 * s, 'levels')
    P = np.asarray(f.data)
    check(P.shape == (n, n) and np.all(P >= 0), 'probabilities of shape %s, smallest %s', P.shape, P.min())
    i, j = np.nonzero(P)
    check(np.all(i < j), 'a minimum above its maximum')
    # distribution of maxima and minima of a Gaussian process (Rice), in the scale of the process
    alpha = m[1] / math.sqrt(m[0] * m[2])
    e = math.sqrt(1 - alpha ** 2)
    F = lambda y: ndtr(y / e) - alpha * np.exp(-y * y / 2) * ndtr(alpha * y / e)
    tol = 0.09 if case['nit'] > 1 else 0.12
    close(P.sum(), 1, 0, tol, 'sum of the probabilities')
    for name, q, ref in (('maxima', P.sum(axis=0), F(g(h + dh / 2))), ('minima', P.sum(axis=1), 1 - F(-g(h + dh / 2)))):
        dif = np.abs(np.cumsum(q) / P.sum() - ref).max()
        check(dif < 0.07, 'distribution of %s differs by %.3f', name, dif)
    # the mean range, in the scale of the Gaussian process
    Y = g(h)
    rng_ = np.sum(P * (Y[None, :] - Y[:, None])) / P.sum()
    close(rng_, math.sqrt(2 * math.pi) * m[1] / math.sqrt(m[2] * m[0]), 0.1, 0, 'mean of maximum minus minimum')
    return tr is not None


@sub('C31', st.tuples(spectra(), st.booleans(), st.booleans()), quick=100)
def normalised(t):
    """a spectrum in hertz or of the wave number"""
    case, hz, space = t
    kw = dict(type='k1d', freqtype='k') if space else dict(freqtype='f') if hz else {}
    S = spectrum(case, **kw)
    w0, d0 = S.args.copy(), S.data.copy()
    N = S.to_specnorm()
    same(S.args, w0, 'to_specnorm changed the frequencies'), same(S.data, d0, 'to_specnorm changed the spectrum')
    w = N.args * (2 * math.pi if hz and not space else 1)
    close(np.trapz(N.data, N.args), 1, 1e-4, 0, 'zeroth moment of the normalised spectrum')
    close(np.trapz(w ** 2 * N.data, N.args), 1, 1e-4, 0, 'second moment of the normalised spectrum')
    c = w0[-1] / N.args[-1]
    close(N.args, w0 / c, 1e-12, 0, 'frequencies'), close(N.data / N.data.max(), d0 / d0.max(), 1e-9, 1e-12, 'shape')
    return hz or space
