"""C13 linear wave theory: transfer functions from surface elevation to sensors, pressure amplitude."""
import numpy as np
import mpmath as mp
from hypothesis import strategies as st

import wafo.wave_theory.core as wt
from wafo.wave_theory.core import TransferFunction, sensor_type, sensor_typeid, hyperbolic_ratio, wave_pressure
from core import sub, check, close, same, arr, fail, unchanged
from gens import fl, nice, rs, seeds
from props.c12_dispersion import ref_k

NAMES = ['n', 'n_t', 'n_tt', 'n_x', 'n_y', 'n_xx', 'n_yy', 'n_xy', 'p', 'u', 'v', 'w', 'u_t', 'v_t', 'w_t',
         'x_p', 'y_p', 'z_p']


def ratio(a, b, fa, fb):
    """fa(a)/fb(b) with fa, fb in ('c', 's'), a, b >= 0 and b > 0, in extended precision."""
    f = dict(c=mp.cosh, s=mp.sinh)
    return float(f[fa](mp.mpf(float(a))) / f[fb](mp.mpf(float(b))))


def depth_factor(k, h, z, fa, fb):
    """cosh|sinh(k*(h+z)) / cosh|sinh(k*h), z measured upward from the mean water level."""
    if np.isinf(h):
        return np.exp(k * z)
    return ratio(k * (h + z), k * h, fa, fb)


@st.composite
def tf_case(draw):
    h = draw(st.one_of(st.just(np.inf), nice(1, 80), st.just(1000.0)))
    zmax = h if h <= 80 else 60.0
    return dict(sensor=draw(st.sampled_from(NAMES)), form=draw(st.sampled_from(['lower', 'upper', 'int'])),
                x=draw(nice(-40, 40)), y=draw(nice(-40, 40)), zrel=draw(st.one_of(st.just(0.0), nice(0, 1))), zmax=zmax,
                h=h, g=draw(st.one_of(st.just(9.81), nice(2, 15))), rho=draw(st.one_of(st.just(1028), nice(900, 1100))),
                bet=draw(st.sampled_from([1, 1, -1])), igam=draw(st.sampled_from([1, 1, 2, 3])),
                w=draw(st.lists(st.one_of(nice(0.1, 3), st.just(0.0), nice(-2, -0.1), fl(0.05, 8)), min_size=1, max_size=6)),
                theta=draw(st.lists(nice(-4, 4), min_size=1, max_size=4)), kgiven=draw(st.booleans()),
                delta=draw(nice(-200, 200)), call=draw(st.booleans()))


def make(c, **kw):
    z = -c['zrel'] * c['zmax']             # upward from the mean water level, <= 0
    igam = c['igam']
    if igam == 3 and np.isinf(c['h']):
        igam = 1
    zz = {1: z, 2: -z, 3: c['h'] + z}[igam]
    name = c['sensor']
    if c['form'] == 'int':
        s = NAMES.index(name)
    elif c['form'] == 'upper' and not name.startswith('n'):
        s = name[0].upper() + name[1:]
    else:
        s = name
    d = dict(pos=(c['x'], c['y'], zz), sensortype=s, h=c['h'], g=c['g'], rho=c['rho'], bet=c['bet'], igam=igam)
    d.update(kw)
    return TransferFunction(**d), z, igam


def response(name, w, k, th, x, y, z, h, g, rho):
    """Response of the sensor to eta = exp(i*(k*cos(th)*x0 + k*sin(th)*y0 - w*t)) at x0 = y0 = t = 0 (w > 0)."""
    c, s = np.cos(th), np.sin(th)
    e = np.exp(1j * k * (x * c + y * s))
    d = lambda fa, fb: depth_factor(k, h, z, fa, fb)
    if name == 'n':
        return e
    if name == 'n_t':
        return -1j * w * e
    if name == 'n_tt':
        return -w ** 2 * e
    if name == 'n_x':
        return 1j * k * c * e
    if name == 'n_y':
        return 1j * k * s * e
    if name == 'n_xx':
        return -(k * c) ** 2 * e
    if name == 'n_yy':
        return -(k * s) ** 2 * e
    if name == 'n_xy':
        return -k * c * k * s * e
    if name == 'p':
        return rho * g * d('c', 'c') * e
    # velocity components from the velocity potential; d/dt = -i*w
    vel = dict(u=lambda: w * d('c', 's') * c, v=lambda: w * d('c', 's') * s, w=lambda: -1j * w * d('s', 's'),
               x=lambda: w * d('c', 's') * c, y=lambda: w * d('c', 's') * s, z=lambda: -1j * w * d('s', 's'))[name[0]]() * e
    if name in 'uvw':
        return vel
    if name.endswith('_t'):
        return -1j * w * vel
    return vel / (-1j * w)


@sub('C13', tf_case(), quick=900)
def transfer_functions(c):
    """counts when some frequency is non-zero"""
    tf, z, igam = make(c)
    w, th = np.array(c['w']), np.array(c['theta'])
    K = np.array([ref_k(v, c['h'], c['g']) for v in w])
    fun = tf if c['call'] else tf.tran
    with unchanged('tran', w, th, K):
        H, G = fun(w, th, K) if c['kgiven'] else fun(w, th)
    H, G = np.asarray(H), np.asarray(G)
    check(H.shape == w.shape and G.shape == (th.size, w.size), 'shapes of Hw and Gwt', H.shape, G.shape)
    check(np.isrealobj(H) and np.all(H >= 0), 'Hw is not a non-negative real function', H)
    Y = H * G
    sgn = -1 if igam == 2 else 1            # documented: igam=2 acts as changing eta by -eta
    for j, wj in enumerate(w):
        if wj == 0:
            if c['sensor'] == 'n':
                close(Y[:, j], sgn * np.ones(th.size), 1e-12, 0, 'elevation response at zero frequency')
            elif c['sensor'] == 'p':
                close(Y[:, j], sgn * c['rho'] * c['g'] * np.ones(th.size), 1e-12, 0, 'pressure at zero frequency')
            elif c['sensor'][0] in 'nuvw' and c['sensor'] != 'n':
                fin = np.isfinite(Y[:, j])
                check(np.all(fin) and (c['sensor'][0] in 'uv' or np.all(Y[:, j] == 0)),
                      'response at zero frequency', c['sensor'], Y[:, j])
            continue
        for i, t in enumerate(th):
            tt = t if c['bet'] == 1 else t + np.pi
            ref = response(c['sensor'], abs(wj), abs(K[j]), tt, c['x'], c['y'], z, c['h'], c['g'], c['rho'])
            # eta with negative frequency is the complex conjugate of that with positive frequency
            ref = sgn * (ref if wj > 0 else np.conj(ref))
            scale = abs(response(c['sensor'], abs(wj), abs(K[j]), np.pi / 4, 0, 0, z, c['h'], c['g'], c['rho']))
            d = abs(Y[i, j] - ref)
            ph = 1e-6 * abs(K[j]) * (abs(c['x']) + abs(c['y'])) + 3e-6
            check(d <= ph * abs(ref) + 1e-7 * scale + 1e-300, 'transfer function', c['sensor'], 'w=%r theta=%r got %r expected %r'
                  % (wj, t, Y[i, j], ref))
    return bool(np.any(w != 0)) and c['sensor']


@sub('C13', tf_case(), quick=300)
def rotation_of_the_axes(c):
    """counts when the rotation is not a multiple of a full turn: turning both axes equals turning the waves back"""
    d = c['delta']
    tf0, z, igam = make(c)
    tf1 = make(c, thetax=90 + d, thetay=d)[0]
    w, th = np.abs(np.array(c['w'])), np.array(c['theta'])
    H0, G0 = tf0.tran(w, th - np.radians(d))
    H1, G1 = tf1.tran(w, th)
    close(H1, H0, 1e-12, 0, 'Hw depends on the axes')
    sc = np.max(np.abs(G0)) + 1e-3
    kx = np.max(np.abs(ref_k(np.max(w), c['h'], c['g'])) * (abs(c['x']) + abs(c['y'])))
    check(np.max(np.abs(G1 - G0)) <= 1e-9 * sc * (1 + kx), 'rotated axes', c['sensor'], d)
    # explicit defaults
    H2, G2 = make(c, thetax=90, thetay=0)[0].tran(w, th)
    H3, G3 = tf0.tran(w, th)
    same(H2, H3, 'explicit default thetax/thetay')
    same(G2, G3, 'explicit default thetax/thetay')
    return d % 360 != 0


@sub('C13', st.tuples(st.lists(st.one_of(nice(-5, 5), st.just(0.0), fl(-900, 900), st.sampled_from([1e-9, 1e3, -1e3])),
                               min_size=1, max_size=8), st.one_of(nice(-5, 5), fl(-900, 900), st.just(1.0)), st.sampled_from([1, -1]),
                      st.sampled_from([1, -1]), st.booleans()), quick=600)
def hyperbolic_ratios(t):
    """counts when no argument is zero"""
    x, b, sa, sb, swap = t
    x = np.array([0.0 if abs(v) < 1e-10 else v for v in x])
    b = 0.0 if abs(b) < 1e-10 else b
    f = {1: mp.cosh, -1: mp.sinh}
    a_, b_ = (x, np.full_like(x, b)) if not swap else (np.full_like(x, b), x)
    with np.errstate(all='ignore'):
        r = np.asarray(hyperbolic_ratio(x, b, sa, sb) if not swap else hyperbolic_ratio(b, x, sa, sb))
    check(r.shape == x.shape, 'shape of hyperbolic_ratio', r.shape)
    for p, q, got in zip(a_, b_, r):
        den = f[sb](mp.mpf(float(q)))
        if den == 0:
            # sinh(0)/sinh(0): the limit (equal arguments), as the shallow water transfer functions need it
            if p == 0 and sa == sb:
                check(got == 1, 'hyperbolic_ratio(0,0,-1,-1)', got)
            continue
        ref = f[sa](mp.mpf(float(p))) / den
        if abs(ref) > 1e300 or (ref != 0 and abs(ref) < 1e-290):
            continue
        check(abs(mp.mpf(float(got)) - ref) <= 1e-11 * abs(ref), 'hyperbolic_ratio(%r,%r,%d,%d)' % (p, q, sa, sb), got,
              float(ref))
    return bool(np.all(x != 0) and b != 0)


@sub('C13', st.tuples(st.lists(st.integers(-3, 22), min_size=1, max_size=6), st.lists(st.sampled_from(NAMES), min_size=1, max_size=6),
                      st.booleans(), st.text('abcxyz_', min_size=1, max_size=5)), quick=150)
def sensor_ids_and_names(t):
    """every case counts: names and numbers of sensors are inverse to each other, unknown ones give nan"""
    ids, names, up, junk = t
    got = sensor_type(*ids)
    for i, s in zip(ids, got):
        check((s == NAMES[i]) if 0 <= i < 18 else s != s, 'sensor_type(%d)' % i, s)
    check(len(got) == len(ids), 'length of sensor_type')
    g2 = sensor_type(ids)
    check([str(s) for s in g2] == [str(s) for s in got], 'sensor_type of a list', g2)
    nn = [s.upper() if up else s for s in names]
    check(sensor_typeid(*nn) == [NAMES.index(s) for s in names], 'sensor_typeid', nn, sensor_typeid(*nn))
    if junk not in NAMES:
        v = sensor_typeid(junk)[0]
        check(v != v, 'sensor_typeid of unknown name', junk, v)
    return True


@sub('C13', st.tuples(st.lists(nice(0, 1), min_size=1, max_size=8), nice(0.1, 15), st.one_of(nice(2, 200), st.just(1e4)),
                      st.one_of(st.just(None), nice(5, 15)), st.one_of(st.just(None), nice(900, 1100))), quick=300)
def pressure_amplitude(t):
    """every case counts: wave_pressure is the linear theory pressure for the mean period of the sea state"""
    zrel, Hm0, h, g, rho = t
    z = -np.array(zrel) * min(h, 300.0)
    kw = {}
    if g is not None:
        kw['g'] = g
    if rho is not None:
        kw['rho'] = rho
    with unchanged('wave_pressure', z):
        p = np.asarray(wave_pressure(z, Hm0, h=h, **kw))
    g, rho = g or 9.81, rho or 1028
    check(p.shape == z.shape, 'shape of wave_pressure', p.shape)
    # Tp = 4*sqrt(Hm0) gives x = Tp/sqrt(Hm0) = 4 in the peakedness formula of Torsethaugen
    x = 4.0
    D = 0.036 - 0.0056 * x
    gam = max(min(np.exp(3.484 * (1 - 0.1975 * D * x ** 4)), 7.0), 1.0)
    Tm02 = x * np.sqrt(Hm0) / (1.30301 - 0.01698 * gam + 0.12102 / gam)
    k = ref_k(2 * np.pi / Tm02, h, g)
    ref = np.array([rho * g * Hm0 / 2 * ratio(k * (h + v), k * h, 'c', 'c') for v in z])
    close(p, ref, 1e-6, 0, 'wave_pressure')
    o = np.argsort(z)
    check(np.all(np.diff(p[o]) >= -1e-12 * p.max()), 'pressure amplitude decreases towards the surface')
    if np.any(z == 0):
        close(p[z == 0], rho * g * Hm0 / 2 * np.ones((z == 0).sum()), 1e-12, 0, 'pressure at the surface')
    return True
