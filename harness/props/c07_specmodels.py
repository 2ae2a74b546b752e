"""C07 parametric wave spectra: density, energy and peak are those of the model."""
import numpy as np
from hypothesis import strategies as st
from scipy import integrate, optimize, special

import wafo.spectrum.models as sm
from core import sub, check, close, same, arr, fail, unchanged, raises
from gens import fl, nice

PI2 = 2 * np.pi


def gg(wn, N, M):
    """generalised gamma form, unit area over (0, inf), maximum at wn = 1"""
    wn = np.asarray(wn, dtype=float)
    out = np.zeros_like(wn)
    k = wn > 0
    C = (N - 1.0) / M
    lg = C * np.log(N / float(M)) + np.log(M) - special.gammaln(C)
    out[k] = np.exp(lg - N * np.log(wn[k]) - (N / float(M)) * wn[k] ** (-float(M)))
    return out


def peak(wn, gamma, sa, sb):
    s = np.where(wn > 1, sb, sa)
    return gamma ** np.exp(-0.5 * ((wn - 1) / s) ** 2)


def quad_split(f, pts):
    tot = 0.0
    for a, b in zip(pts[:-1], pts[1:]):
        if b > a:
            x, w = np.polynomial.legendre.leggauss(60)
            tot += 0.5 * (b - a) * np.sum(w * f(0.5 * (b - a) * x + 0.5 * (a + b)))
    return tot


def pts_for(lo, hi, sa, sb):
    p = [lo, 0.2, 0.35, 0.5, 0.7]
    p += [1 - 6 * sa, 1 - 3 * sa, 1 - sa, 1.0, 1 + sb, 1 + 3 * sb, 1 + 6 * sb, 1.5, 2, 3, 5, 8, 15, 30, 80, 300, hi]
    return sorted({min(max(v, lo), hi) for v in p})


def ref_gamma(Hm0, Tp):
    x = Tp / np.sqrt(Hm0)
    if x > 36.0 / 7:
        return 1.0
    D = 0.036 - 0.0056 * x
    return min(np.exp(3.484 * (1 - 0.1975 * D * Tp ** 4 / Hm0 ** 2)), 7.0)


def ref_jonswap(w, Hm0, Tp, gamma, sa=0.07, sb=0.09, N=5, M=4, wnc=6.0, Ag=None, method='i'):
    w = np.asarray(w, dtype=float)
    wp = PI2 / Tp
    if gamma == 1:
        Ag = 1.0
    elif Ag is None:
        if method == 'i':
            Ag = 1 / quad_split(lambda x: peak(x, gamma, sa, sb) * gg(x, N, M), pts_for(0, wnc, sa, sb))
        else:
            f1 = 4.1 * (N - 2 * M ** 0.28 + 5.3) ** (-1.45 * M ** 0.1 + 0.96)
            f2 = (2.2 * M ** (-3.3) + 0.57) * N ** (-0.58 * M ** 0.37 + 0.53) - 1.04 * M ** (-1.9) + 0.94
            Ag = (1 + f1 * np.log(gamma) ** f2) / gamma
    return (Hm0 / 4.0) ** 2 / wp * Ag * peak(w / wp, gamma, sa, sb) * gg(w / wp, N, M)


def freqs(wp, extra=()):
    return np.array([0.0] + [wp * f for f in (0.02, 0.3, 0.5, 0.8, 0.93, 0.99, 1.0, 1.01, 1.09, 1.3, 2.0, 3.7, 5.9, 6.5, 20)]
                    + list(extra))


sea = st.fixed_dictionaries({'Hm0': nice(0.1, 15), 'Tp': nice(2.0, 25)})


@sub('C07', st.fixed_dictionaries({'Hm0': st.just(0.0) | nice(0.1, 15), 'Tp': nice(2.0, 25), 'N': st.sampled_from([5, 4, 6.5]) | fl(2.5, 15),
                                   'M': st.sampled_from([4, 2]) | fl(1.5, 8), 'w': st.lists(fl(-1, 30), max_size=5)}),
     quick=600)
def bretschneider_formula(case):
    """S(w) == documented density, zero for w <= 0; its integral is Hm0**2/16; its maximum is at 2*pi/Tp"""
    S = sm.Bretschneider(Hm0=case['Hm0'], Tp=case['Tp'], N=case['N'], M=case['M'])
    wp = PI2 / case['Tp']
    w = freqs(wp, case['w'])
    with unchanged('Bretschneider', w):
        got = S(w)
    ref = (case['Hm0'] / 4.) ** 2 / wp * gg(w / wp, case['N'], case['M'])
    close(got, ref, 1e-9, 1e-300, 'S(w)')
    wi = np.arange(0, 5)
    close(S(wi), (case['Hm0'] / 4.) ** 2 / wp * gg(wi / wp, case['N'], case['M']), 1e-9, 1e-300, 'integer w')
    if case['Hm0'] == 0:
        return 'calm'
    m0 = quad_split(lambda x: S(x), [wp * p for p in pts_for(0, 3000, .1, .1)])
    C = (case['N'] - 1.) / case['M']
    tail = special.gammainc(C, case['N'] / case['M'] * 3000. ** (-case['M']))
    close(m0, case['Hm0'] ** 2 / 16 * (1 - tail), 1e-6, 0, 'area')
    fine = wp * np.linspace(0.9, 1.1, 201)
    v = arr(S(fine))
    check(np.argmax(v) in (99, 100, 101), 'the peak is at %s*wp', fine[np.argmax(v)] / wp)
    return True


@sub('C07', st.fixed_dictionaries({
    'Hm0': nice(0.2, 15), 'Tp': nice(2.0, 25), 'gamma': st.none() | st.just(1) | fl(1.0, 9) | st.sampled_from([3.3, 0.5]),
    'sa': st.sampled_from([0.07]) | fl(0.04, 0.2), 'sb': st.sampled_from([0.09]) | fl(0.04, 0.2),
    'N': st.sampled_from([5, 4]) | fl(3, 8), 'M': st.sampled_from([4]) | fl(2.1, 6), 'wnc': st.sampled_from([6, 4.0, 10, 1.5]),
    'method': st.sampled_from(['integration', 'integration', 'parametric']), 'Ag': st.none() | fl(0.3, 1.5)}),
    quick=600)
def jonswap_formula(case):
    """S(w) == documented density with the requested normalisation; area up to wnc*wp is Hm0**2/16 when normalised by
    integration; gamma=1 is Bretschneider"""
    H, T = case['Hm0'], case['Tp']
    custom = case['Ag'] is not None and case['method'] == 'integration' and case['wnc'] == 10
    kw = dict(Hm0=H, Tp=T, gamma=case['gamma'], sigmaA=case['sa'], sigmaB=case['sb'], N=case['N'], M=case['M'],
              wnc=case['wnc'], method=case['method'])
    if custom:
        kw['Ag'] = case['Ag']
    S = sm.Jonswap(**kw)
    g = case['gamma'] if case['gamma'] is not None and case['gamma'] >= 1 else ref_gamma(H, T)
    close(np.ravel(S.gamma), [g], 1e-9, 1e-9, 'gamma')
    g = float(np.ravel(S.gamma)[0])
    wp = PI2 / T
    w = freqs(wp)
    ref = ref_jonswap(w, H, T, g, case['sa'], case['sb'], case['N'], case['M'], case['wnc'],
                      case['Ag'] if custom else None, case['method'][0])
    close(S(w), ref, 1e-6, 1e-300, 'S(w)')
    check(np.all(arr(S(-w)) == 0), 'S is not zero for negative frequencies')
    if case['method'][0] == 'i' and not custom and g > 1:
        m0 = quad_split(lambda x: arr(S(x)), [wp * p for p in pts_for(0, case['wnc'], case['sa'], case['sb'])])
        close(m0, H ** 2 / 16, 1e-6, 0, 'area')
    if g == 1:
        close(S(w), sm.Bretschneider(H, T, case['N'], case['M'])(w), 1e-12, 0, 'gamma = 1')
        return 'gamma1'
    return case['method'] if not custom else 'custom'


@sub('C07', st.fixed_dictionaries({'H': st.lists(fl(0.1, 15), min_size=1, max_size=6), 'T': fl(2, 25),
                                   'u10': fl(1, 40), 'fetch': fl(1e3, 1e6), 'g': st.sampled_from([9.81, 9.5]),
                                   'method': st.sampled_from(['lewis', 'hasselman73', 'hasselman76'])}), quick=400)
def jonswap_parameters(case):
    """peakedness factor in [1, 7] == documented formula element-wise; sea state from wind and fetch == cited formulas"""
    H = np.array(case['H'])
    got = sm.jonswap_peakfact(H, case['T'])
    close(got, [ref_gamma(h, case['T']) for h in case['H']], 1e-9, 1e-6, 'peakfact')
    check(np.all((arr(got) >= 1 - 1e-6) & (arr(got) <= 7)), 'gamma outside [1, 7]')
    u, F, g, m = case['u10'], case['fetch'], case['g'], case['method']
    ss = sm.jonswap_seastate(u, F, method=m, g=g)
    lst = sm.jonswap_seastate(u, F, method=m, g=g, output='list')
    z = g * F / u ** 2
    if m == 'lewis':
        A, ny = 0.074 * z ** -0.22, 3.57 * z ** -0.33
        eps = 3.512e-4 * A * ny ** -4 * z ** -0.1
        rest = (max(17.54 * z ** -0.28384, 1), 0.05468 * ny ** -0.32, 0.078314 * ny ** -0.16)
    elif m == 'hasselman73':
        A, ny, eps = 0.076 * z ** -0.22, 3.5 * z ** -0.33, 9.91e-8 * z ** 1.1
        rest = (3.3, 0.07, 0.09)
    else:
        A, ny, eps = 0.0662 * z ** -0.2, 2.84 * z ** -0.3, 1.6e-7 * z
        rest = (3.3, 0.07, 0.09)
    want = (4 * np.sqrt(eps) * u ** 2 / g, u / (ny * g)) + rest + (A,)
    close(np.array(lst, dtype=float), want, 1e-10, 0, 'seastate list')
    close(np.array([ss[k] for k in ('Hm0', 'Tp', 'gamma', 'sigmaA', 'sigmaB', 'Ag')], dtype=float), want, 1e-10, 0, 'dict')
    return m


def ref_k(w, h, g):
    if w == 0:
        return 0.0
    k0 = w * w / g
    if not np.isfinite(h):
        return k0
    return optimize.brentq(lambda k: g * k * np.tanh(k * h) - w * w, 0.5 * k0, k0 + w / np.sqrt(g * h) + 1e-12, xtol=1e-15,
                           rtol=1e-14)


@sub('C07', st.fixed_dictionaries({'Hm0': nice(0.5, 12), 'Tp': nice(3, 20), 'h': fl(2, 200) | st.sampled_from([42.0, 10.0]),
                                   'h2': st.none() | fl(2, 100), 'g': st.sampled_from([9.81, 9.5])}), quick=400)
def tma_is_depth_limited_jonswap(case):
    """Tmaspec == Jonswap * tanh(kh)^2/(1+2kh/sinh(2kh)), also for the depth given in the call"""
    S = sm.Tmaspec(Hm0=case['Hm0'], Tp=case['Tp'], h=case['h'], g=case['g'])
    w = freqs(PI2 / case['Tp'])
    w = w[w < 8]
    h = case['h2'] or case['h']
    k = np.array([ref_k(v, h, case['g']) for v in w])
    kh = k * h
    with np.errstate(all='ignore'):
        phi = np.where(kh > 0, np.tanh(kh) ** 2 / (1 + np.where(kh < 300, 2 * kh / np.sinh(np.minimum(2 * kh, 600)), 0)), 0)
    j = arr(sm.Jonswap(Hm0=case['Hm0'], Tp=case['Tp'])(w))
    got = S(w) if case['h2'] is None else S(w, h=case['h2'])
    close(got, j * phi, 1e-6, 1e-300, 'TMA')
    close(sm.phi1(w, h, case['g']), phi, 1e-6, 1e-12, 'phi1')
    same(sm.phi1(w, np.inf), np.ones_like(w), 'phi1 at infinite depth')
    d = S.tospecdata(w)
    check(d.h == case['h'], 'the depth of the spectrum object is %s', d.h)
    return 'call depth' if case['h2'] else 'own depth'


def ref_torsethaugen(Hm0, Tp, g):
    Tf, Tl, Tu = 6.6 * Hm0 ** (1 / 3.), 2 * np.sqrt(Hm0), 25.0
    N = 0.5 * np.sqrt(Hm0) + 3.2
    kg = 35 * (1 + 3.5 * np.exp(-Hm0))
    if Tp < Tf:
        e = min(max((Tf - Tp) / (Tf - Tl), 0), 1)
        r = 0.7 + 0.3 * np.exp(-(e / 0.5) ** 2)
        gam = max(kg * (PI2 / g * r * Hm0 / Tp ** 2) ** 0.857, 1)
        return dict(Hm0=r * Hm0, Tp=Tp, gamma=gam, N=N, M=4), dict(Hm0=np.sqrt(1 - r * r) * Hm0, Tp=Tf + 2, gamma=1, N=N, M=4)
    e = min(max((Tp - Tf) / (Tu - Tf), 0), 1)
    r = 0.6 + 0.4 * np.exp(-(e / 0.3) ** 2)
    gam = max(kg * (PI2 / g * Hm0 / Tf ** 2) ** 0.857 * (1 + 6 * e), 1)
    swell = dict(Hm0=r * Hm0, Tp=Tp, gamma=gam, N=N, M=4)
    M = 4 * (1 - 0.7 * np.exp(-Hm0 / 3))
    Hw = np.sqrt(max(1 - r * r, 0)) * Hm0
    G0 = (N / M) ** ((N - 1) / M) * M / special.gamma((N - 1) / M)
    Tw = (16 * 0.08 * (1 - np.exp(-Hm0 / 3)) * 0.4 ** N / (G0 * Hw ** 2)) ** (-1 / (N - 1)) if Hw > 0 else np.inf
    return dict(Hm0=Hw, Tp=Tw, gamma=1, N=N, M=M), swell


@sub('C07', st.fixed_dictionaries({'Hm0': nice(0.5, 12), 'Tp': nice(3, 24), 'g': st.sampled_from([9.81, 9.6]),
                                   'method': st.sampled_from(['integration', 'parametric'])}), quick=500)
def torsethaugen_two_peaks(case):
    """total = wind + swell, each the modified Jonswap with the published parameters; the energies add up to Hm0**2/16"""
    H, T = case['Hm0'], case['Tp']
    S = sm.Torsethaugen(Hm0=H, Tp=T, gravity=case['g'], method=case['method'])
    w = freqs(PI2 / T, [0.5, 1.0, 2.0])
    parts = ref_torsethaugen(H, T, case['g'])
    tot = 0
    lab = 'wind' if T < 6.6 * H ** (1 / 3.) else 'swell'
    e = 0
    for name, p, fun in (('wind', parts[0], S.wind), ('swell', parts[1], S.swell)):
        got = arr(fun(w))
        if p['Hm0'] <= 1e-6 or not np.isfinite(p['Tp']):
            check(np.all(np.abs(got) < 1e-9), '%s part is not zero', name)
            continue
        ref = ref_jonswap(w, p['Hm0'], p['Tp'], p['gamma'], N=p['N'], M=p['M'], method=case['method'][0])
        close(got, ref, 2e-5, 1e-10, name)
        close(fun.Hm0, p['Hm0'], 1e-6, 1e-9, name + ' Hm0')
        e += p['Hm0'] ** 2
    close(e, H ** 2, 1e-6, 0, 'energy split')
    close(S(w), arr(S.wind(w)) + arr(S.swell(w)), 1e-13, 0, 'total')
    return lab


OH = [(.84, .54, .70, 1.15, .046, .039, 3.00, 1.54, -.062), (.84, .54, .93, 1.50, .056, .046, 3.00, 2.77, -.112),
      (.84, .54, .41, .88, .016, .026, 2.55, 1.82, -.089), (.84, .54, .74, 1.30, .052, .039, 2.65, 3.90, -.085),
      (.84, .54, .62, 1.03, .039, .030, 2.60, .53, -.069), (.95, .31, .70, 1.50, .046, .046, 1.35, 2.48, -.102),
      (.65, .76, .61, .94, .039, .036, 4.95, 2.48, -.102), (.90, .44, .81, 1.60, .052, .033, 1.80, 2.95, -.105),
      (.77, .64, .54, .61, .039, .000, 4.50, 1.95, -.082), (.73, .68, .70, .99, .046, .039, 6.40, 1.78, -.069),
      (.92, .39, .70, 1.37, .046, .039, .70, 1.78, -.069)]


@sub('C07', st.fixed_dictionaries({'Hm0': nice(0.5, 15), 'par': st.integers(0, 10)}), quick=300)
def ochihubble_two_peaks(case):
    """swell + wind Bretschneider parts of the published family member; members outside 0..10 are rejected"""
    H, p = case['Hm0'], case['par']
    S = sm.OchiHubble(Hm0=H, par=p)
    hs, hw, ws, ww, bs, bw, ls, lw, le = OH[p]
    w = np.array([0.0, 0.1, 0.3, 0.45, 0.6, 0.8, 1, 1.2, 1.6, 2.5, 4, 7])
    lam = (ls, lw * np.exp(le * H))
    ref = []
    for h_, w_, b, l in ((hs, ws, bs, lam[0]), (hw, ww, bw, lam[1])):
        wp = w_ * np.exp(-b * H)
        ref.append((h_ * H / 4) ** 2 / wp * gg(w / wp, 4 * l + 1, 4))
    close(S.swell(w), ref[0], 1e-9, 1e-300, 'swell')
    close(S.wind(w), ref[1], 1e-9, 1e-300, 'wind')
    close(S(w), ref[0] + ref[1], 1e-9, 1e-300, 'total')
    for bad in (-1, 11, 20):
        raises(lambda: sm.OchiHubble(Hm0=H, par=bad), 'par=%d' % bad, ValueError)
    return 'par%d' % p


@sub('C07', st.fixed_dictionaries({'Hm0': nice(0.5, 12), 'Tp': nice(3, 20), 'M': st.none() | fl(1.0, 9),
                                   'rel': st.none() | fl(1.5, 8)}), quick=400)
def mccormick_wallop(case):
    """McCormick: N = M+1 with M solving Tp/Tz = (1+1/M)**(1/M)/gamma(1+1/M); Wallop: documented N; rest Bretschneider"""
    H, T = case['Hm0'], case['Tp']
    w = freqs(PI2 / T)
    wp = PI2 / T

    def mc(M):
        return (M + 1) * (H / 4) ** 2 / wp * np.where(w > 0, (wp / np.maximum(w, 1e-300)) ** (M + 1) *
                                                      np.exp(-(M + 1) / M * (wp / np.maximum(w, 1e-300)) ** M), 0)
    if case['M']:
        S = sm.McCormick(Hm0=H, Tp=T, M=case['M'])
        close(S(w), mc(case['M']), 1e-9, 1e-300, 'McCormick(M)')
        lab = 'M'
    else:
        f = lambda m: (1 + 1 / m) ** (1 / m) / special.gamma(1 + 1 / m)
        Tz = T / f(case['rel']) if case['rel'] else 0.8143 * T
        S = sm.McCormick(Hm0=H, Tp=T, Tz=Tz) if case['rel'] else sm.McCormick(Hm0=H, Tp=T)
        close(f(S.M), T / Tz, 1e-3, 0, 'Tp/Tz')
        close(S(w), mc(S.M), 1e-9, 1e-300, 'McCormick')
        lab = 'Tz'
    S = sm.Wallop(Hm0=H, Tp=T)
    Lp = PI2 * 9.81 / wp ** 2
    N = abs(np.log2(2 * np.pi ** 2 * (H / 4) ** 2 / Lp ** 2))
    close(np.ravel(S.N), [N], 2e-4, 1e-3, 'Wallop N')
    N = float(np.ravel(S.N)[0])
    if N > 1.5:
        close(np.ravel(S(w)), (H / 4) ** 2 / wp * gg(w / wp, N, 4), 1e-8, 1e-300, 'Wallop')
    S = sm.Wallop(Hm0=H, Tp=T, N=6)
    close(S(w), (H / 4) ** 2 / wp * gg(w / wp, 6, 4), 1e-9, 1e-300, 'Wallop(N=6)')
    return lab


MODELS = ['Bretschneider', 'Jonswap', 'Tmaspec', 'Torsethaugen', 'McCormick', 'Wallop', 'OchiHubble']


@sub('C07', st.fixed_dictionaries({'model': st.sampled_from(MODELS), 'Hm0': nice(0.5, 10), 'Tp': nice(3, 20),
                                   'nw': st.integers(3, 300), 'wc': st.none() | fl(1, 10), 'own': st.booleans()}), quick=400)
def models_as_spectrum_objects(case):
    """tospecdata samples the model at exactly the requested frequencies; invalid sea states are rejected"""
    cls = getattr(sm, case['model'])
    kw = {'Hm0': case['Hm0']}
    if case['model'] != 'OchiHubble':
        kw['Tp'] = case['Tp']
    S = cls(**kw)
    Tp = S.Tp
    if case['own']:
        w = np.linspace(0.1, 4, case['nw']) ** 1.3
        d = S.tospecdata(w)
    else:
        wc = case['wc'] or 33. / Tp
        w = np.linspace(0, wc, case['nw'])
        d = S.tospecdata(wc=case['wc'], nw=case['nw'])
    close(d.args, w, 1e-12, 1e-14, 'frequencies')
    close(d.data, S(w), 1e-12, 0, 'densities')
    check(d.freqtype == 'w' and d.type == 'freq', 'types %s %s', d.freqtype, d.type)
    check(np.all(arr(d.data) >= 0) and np.all(np.isfinite(arr(d.data))), 'negative or non-finite density')
    raises(lambda: cls(**dict(kw, Hm0=-1.0)), 'negative Hm0')
    if 'Tp' in kw:
        raises(lambda: cls(**dict(kw, Tp=-1.0)), 'negative Tp')
    return case['model']
