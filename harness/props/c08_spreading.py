"""C08 directional spreading functions and directional spectra."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import integrate, optimize, special

import wafo.spectrum.models as sm
from wafo.spectrum import SpecData1D, SpecData2D
from core import sub, check, close, same, arr, fail, known, unchanged, raises
from gens import fl, nice, rs, seeds

PI = np.pi


def s_ref(p, wn):
    """cos-2s equivalent spreading parameter at normalised frequency wn > 0 (not on one of the limits)"""
    m = p['method']
    if m in (None, 0, 'none'):
        return p['s_a']
    if wn <= p['wn_lo']:
        s = 0.0
    elif wn <= p['wn_c']:
        s = p['s_a'] * wn ** p['m_a']
    else:
        s = p['s_b'] * wn ** p['m_b']
    up = p['wn_up']
    if wn > up:
        top = p['s_b'] * up ** p['m_b']
        F = lambda x: 10 ** (-0.4 + 0.8393 * np.exp(-0.567 * np.log(x ** 2)))
        s = {'m': 0.0, 'd': top, 'b': top * F(wn) / F(up)}[{1: 'm', 2: 'd', 3: 'b'}.get(m, str(m)[0])]
    if m in (1, 'mitsuyasu'):
        return s
    if s == 0:
        return 0.0
    x = PI / (2 * s)
    r1 = x / np.sinh(x) if x < 700 else 0.0
    return r1 / (1 - r1)


def d_ref(typ, S, th, nt):
    """spreading density at angle th (array, in [-pi, pi]); None where the definition is not decidable"""
    r1 = S / (S + 1.0)
    if S == 0:
        return np.full(th.shape, 0.5 / PI)
    if typ == 'c':
        return np.exp(special.gammaln(S + 1) - special.gammaln(S + 0.5)) / (2 * np.sqrt(PI)) * np.abs(np.cos(th / 2)) ** (2 * S)
    if typ == 'p':
        return (1 - r1 ** 2) / (1 - 2 * r1 * np.cos(th) + r1 ** 2) / (2 * PI)
    if typ == 'b':
        A = optimize.brentq(lambda a: np.sinc(a / PI) - r1, 1e-9, PI)
        d = (np.abs(th) <= A) / (2 * A)
        d[np.abs(np.abs(th) - A) < 1e-5] = np.nan
        return d
    if typ in 'mv':
        K = optimize.brentq(lambda k: special.ive(1, k) / special.ive(0, k) - r1, 0, 1e4, xtol=1e-13)
        return np.exp(K * (np.cos(th) - 1)) / (2 * PI * special.ive(0, K))
    if typ == 's':
        x = optimize.brentq(lambda x: x / np.sinh(x) - r1, 1e-6, 600, xtol=1e-13)
        B = PI / (2 * x)
        return 0.5 * B / np.cosh(B * th) ** 2 / np.tanh(PI * B)
    D1 = np.sqrt(-2 * np.log(r1))
    n = np.arange(-8, 9)[:, None]
    return np.sum(np.exp(-0.5 * ((th[None, :] + 2 * PI * n) / D1) ** 2), axis=0) / (D1 * np.sqrt(2 * PI)) \
        if D1 < 3 else (1 + 2 * r1 * np.cos(th) + 2 * r1 ** 4 * np.cos(2 * th) + 2 * r1 ** 9 * np.cos(3 * th)) / (2 * PI)


@st.composite
def spreading_case(draw):
    method = draw(st.sampled_from([None, 0, 'mitsuyasu', 1, 'donelan', 2, 'banner', 3]))
    typ = draw(st.sampled_from(['cos-2s', 'cos2s', 'c', 'box', 'b', 'mises', 'von-mises', 'poisson', 'p', 'sech2', 's',
                                'wrap_norm', 'w']))
    bl = method in ('donelan', 2, 'banner', 3)
    smax = 3.0 if bl else 60.0
    p = dict(type=typ, method=method, s_a=draw(nice(0.3, smax)), s_b=draw(nice(0.3, smax)), m_a=draw(nice(0.5, 5)),
             m_b=draw(nice(-3, -0.3)), wn_lo=draw(st.sampled_from([0.0, 0.0, 0.3, 0.56])),
             wn_c=draw(st.sampled_from([1.0, 0.95, 1.05])), wn_up=draw(st.sampled_from([3.0, 1.6, 1e9])))
    nw = draw(st.integers(1, 6))
    p['w'] = sorted(draw(st.lists(st.one_of(fl(0.02, 4.0), st.sampled_from([0.0, 0.2, 0.5, 0.9, 1.2, 2.0, 3.5])),
                                  min_size=nw, max_size=nw, unique=True)))
    p['wc'] = draw(st.sampled_from([1.0, 0.52, 0.8]))
    k = draw(st.sampled_from(['scalar', 'scalar', 'array', 'fun']))
    p['th0kind'] = k
    p['th0'] = [draw(st.one_of(st.sampled_from([0.0, PI / 2, -PI / 4, 3.0]), fl(-7, 7)))
                for _ in range(nw if k == 'array' else 1)]
    p['nt'] = draw(st.sampled_from([41, 81, 101]))
    p['lo'] = draw(st.sampled_from([-PI, 0.0]))
    return p


def build(p):
    th0 = {'scalar': p['th0'][0], 'array': np.array(p['th0']), 'fun': lambda w: p['th0'][0] * w}[p['th0kind']]
    up = np.inf if p['wn_up'] > 1e8 else p['wn_up']
    return sm.Spreading(p['type'], theta0=th0, method=p['method'], s_a=p['s_a'], s_b=p['s_b'], m_a=p['m_a'],
                        m_b=p['m_b'], wn_lo=p['wn_lo'], wn_c=p['wn_c'], wn_up=up)


def expected(p, theta):
    w = np.array(p['w'])
    wn = w / p['wc']
    th0 = {'scalar': np.repeat(p['th0'][0], len(w)), 'array': np.array(p['th0']), 'fun': p['th0'][0] * wn}[p['th0kind']]
    D = np.zeros((len(theta), len(w)))
    lim = [p['wn_lo'], p['wn_c'], p['wn_up']]
    q = dict(p, wn_up=np.inf if p['wn_up'] > 1e8 else p['wn_up'])
    nontrivial = False
    for i in range(len(w)):
        TH = np.mod(theta - th0[i] + PI, 2 * PI) - PI
        S = s_ref(q, wn[i]) if wn[i] > 0 or p['method'] in (None, 0) else 0.0
        S = float(S)
        if any(abs(wn[i] - v) < 1e-9 for v in lim if v > 0) or (0 < S < 1e-3) or S > 120:
            D[:, i] = np.nan
            continue
        typ = p['type'][0]
        if typ == 'w' and S > 0 and np.exp(-(p['nt'] - 1) ** 2 * -np.log(S / (S + 1.0))) > 1e-9:
            D[:, i] = np.nan
            continue
        nontrivial = nontrivial or S > 0
        D[:, i] = d_ref(typ, S, TH, p['nt'])
        if typ == 's':   # +-pi is one angle, the density is even
            pass
    return D, nontrivial


def cmp(d, D, what):
    ok = ~np.isnan(D)
    check(d.shape == D.shape, '%s: shape %s expected %s', what, d.shape, D.shape)
    check(np.all(np.isfinite(d)) and np.all(d >= 0), '%s: not finite and non-negative', what)
    scale = np.nanmax(np.where(ok, D, 0))
    close(np.where(ok, d, 0), np.where(ok, D, 0), 2e-4, 1e-6 * scale + 1e-9, what)


@sub('C08', spreading_case(), quick=500, shards=2)
def spreading_density(p):
    """a case counts when at least one frequency has a spreading parameter > 0"""
    theta = np.linspace(p['lo'], p['lo'] + 2 * PI, p['nt'])
    sp = build(p)
    w = np.array(p['w'])
    with unchanged('Spreading', theta, w):
        d, phi0 = sp(theta, w, p['wc'])
    d = arr(d, 'D')
    check(float(phi0) == 0.0, 'phi0 = %s', phi0)
    D, nt = expected(p, theta)
    if p['method'] in (None, 0) and p['th0kind'] == 'scalar':
        check(d.shape == (p['nt'], 1), 'frequency independent spreading: shape %s', d.shape)
        d = np.repeat(d, len(w), axis=1)
    cmp(d, D, 'spreading %s method %s' % (p['type'], p['method']))
    if p['type'][0] != 'b':
        # total probability one (trapezoid rule on the circle; spectrally accurate for resolved densities)
        a = np.sum(d[:-1], axis=0) * 2 * PI / (p['nt'] - 1)
        S = [1.0 if np.isnan(D[0, i]) else np.max(D[:, i]) for i in range(len(w))]
        for i in range(len(w)):
            if not np.isnan(D[0, i]) and S[i] < p['nt'] / 60.0 and p['type'][0] != 's':
                ref = np.sum(D[:-1, i]) * 2 * PI / (p['nt'] - 1)
                check(abs(a[i] - ref) < 1e-3, 'integral over all directions %.6f at w=%g', a[i], w[i])
    return p['type'][0] + str(p['method'])[:1] if nt else None


@sub('C08', spreading_case(), quick=250)
def directional_spectrum(p):
    """a case counts when at least one frequency has a spreading parameter > 0"""
    theta = np.linspace(p['lo'], p['lo'] + 2 * PI, p['nt'])
    w = np.array(p['w'])
    sp = build(p)
    r = rs(p['nt'] + len(w))
    S1 = SpecData1D(0.1 + r.rand(len(w)), w, h=r.choice([10.0, np.inf]), norm=0)
    S1.tr = 'transform'
    spec = S1.data.copy()
    default = p['lo'] == -PI and p['th0kind'] != 'array'
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with unchanged('tospecdata2d', S1.data, S1.args):
            SD = sp.tospecdata2d(S1, nt=p['nt'], wc=p['wc']) if default else sp.tospecdata2d(S1, theta, p['wc'])
    same(SD.args[0], w, 'frequency axis')
    close(SD.args[1], theta, 1e-14, 1e-14, 'direction axis')
    D, nt = expected(p, theta)
    cmp(arr(SD.data), D * spec[None, :], 'S(w, theta) = S(w) D(w, theta)')
    check(SD.type == 'dir' and SD.freqtype == 'w' and SD.h == S1.h and SD.tr == 'transform' and SD.phi == 0
          and SD.norm == S1.norm, 'attributes h, tr, phi, norm, type, freqtype of the spectrum are not kept')
    raises(lambda: sp.tospecdata2d(S1, np.linspace(-PI, PI - 0.2, 60)), 'theta that does not cover the circle',
           ValueError)
    return 'dir' if nt else None


@st.composite
def mom_case(draw):
    return dict(seed=draw(seeds()), nw=2 * draw(st.integers(1, 10)) + 1, nt=2 * draw(st.integers(1, 12)) + 1,
                phi=draw(st.one_of(st.just(0.0), fl(-3, 3))), nr=draw(st.sampled_from([0, 1, 2, 2, 4, 4])),
                vari=''.join(draw(st.lists(st.sampled_from('xyt'), min_size=1, max_size=3, unique=True))),
                g=draw(st.sampled_from([None, None, 9.81, [9.0, 4.0]])), uneven=draw(st.booleans()))


@sub('C08', mom_case(), quick=300)
def directional_moments(c):
    """a case counts when moments of order >= 1 are computed"""
    r = rs(c['seed'])
    w = np.linspace(0, 1 + 2 * r.rand(), c['nw'])
    if c['uneven']:
        w = np.sort(r.rand(c['nw'])) * 3 + 0.01 * np.arange(c['nw'])
    theta = np.linspace(-PI, PI, c['nt'])
    S = r.rand(c['nt'], c['nw']) ** 2
    kw = dict(phi=c['phi'])
    sd = SpecData2D(S.copy(), (w, theta), type='dir', freqtype='w', phi=c['phi'])
    gx = gy = None
    if c['g'] is not None:
        g = np.atleast_1d(c['g'])
        sd.g = g if g.size > 1 else float(g[0])
        gx, gy = g[0], g[-1]
    with unchanged('moment', sd.data, w, theta):
        try:
            m, txt = sd.moment(nr=c['nr'], vari=c['vari'])
        except UnboundLocalError as e:
            if sorted(c['vari']) == ['t', 'y'] and c['nr'] >= 2:
                known('C08-1', "SpecData2D.moment: 'myt' raises for vari='yt': %s" % e)
            raise
    m = arr(m, 'moments')
    check(len(m) == len(txt) and len(set(txt)) == len(txt), 'moments %s names %s', m, txt)
    var = [v for v in 'xyt' if v in c['vari']]
    want = {''}
    if c['nr'] >= 1:
        want |= set(var)
    if c['nr'] >= 2:
        want |= {a + b for a in var for b in var if 'xyt'.index(a) <= 'xyt'.index(b)}
    if c['nr'] >= 4:
        want |= {''.join(q) for q in __import__('itertools').combinations_with_replacement(var, 4)}
    got = {t[1:].replace('0', '') for t in txt}
    check(got == want, 'moments returned %s, expected those of %s', sorted(txt), sorted(want))
    if gx is None:
        gx = gy = standard_gravity()
    for v, t in zip(m, txt):
        t = t[1:].replace('0', '')
        f = S * (w ** 2 / gx * np.cos(theta - c['phi'])[:, None]) ** t.count('x') \
            * (w ** 2 / gy * np.sin(theta - c['phi'])[:, None]) ** t.count('y') * w ** t.count('t')
        ref = integrate.simpson(integrate.simpson(f, x=theta, axis=0), x=w)
        sc = integrate.simpson(integrate.simpson(np.abs(f), x=theta, axis=0), x=w)
        if abs(v - ref) > 1e-9 * abs(sc) + 1e-13:
            if t == 'yt':
                f2 = S * (w ** 2 / gy * np.cos(theta - c['phi'])[:, None]) * w
                if abs(v - integrate.simpson(integrate.simpson(f2, x=theta, axis=0), x=w)) <= 1e-9 * abs(v) + 1e-13:
                    continue    # the listed finding C08-1 (re-demonstrated by known_defects)
            fail('moment m%s = %.12g, expected %.12g (vari=%r nr=%d phi=%g)', t, v, ref, c['vari'], c['nr'], c['phi'])
    return 'nr%d' % c['nr'] if c['nr'] else None


def standard_gravity():
    from wafo.misc import gravity
    return float(np.atleast_1d(gravity())[0])


@sub('C08', st.integers(0, 3), quick=4, thorough=4)
def known_defects(i):
    """re-demonstrates the listed findings of this property"""
    w = np.linspace(0, 2, 33)
    S1 = sm.Jonswap(Hm0=3 + i, Tp=8).tospecdata(w)
    SD = sm.Spreading('cos2s', theta0=0.3).tospecdata2d(S1, nt=101)
    m, txt = SD.moment(nr=2, vari='xyt')
    v = m[txt.index('myt')]
    th = SD.args[1]
    g = standard_gravity()
    I = lambda f: integrate.simpson(integrate.simpson(SD.data * f(th)[:, None] * w ** 3 / g, x=th, axis=0), x=w)
    if i % 2 == 0:
        if abs(v - I(np.sin)) > 1e-8 * abs(v):
            if abs(v - I(np.cos)) <= 1e-8 * abs(v):
                known('C08-1', "SpecData2D.moment: 'myt' is computed with cos(theta) instead of sin(theta)")
            fail('myt = %g, expected %g', v, I(np.sin))
        return 'myt'
    m0 = SD.moment(nr=1, vari='xy')[0]
    try:
        SD.rotate(0.5)
        m1 = SD.moment(nr=1, vari='xy')[0]
        c, s = np.cos(0.5), np.sin(0.5)
        close(m1, [m0[0], c * m0[1] + s * m0[2], c * m0[2] - s * m0[1]], 1e-6, 1e-6 * m0[0], 'moments after rotate')
    except (TypeError, AttributeError, IndexError, ValueError) as e:
        known('C08-2', 'SpecData2D.rotate fails: %s' % e)
    return 'rotate'
