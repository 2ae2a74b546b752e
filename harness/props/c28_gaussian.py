"""C28 multivariate normal probabilities and expectations: bivariate cdf, product correlation, Genz, RIND, local maxima."""
import itertools
import math
import warnings

import numpy as np
from scipy.special import ndtr, owens_t, gamma
from hypothesis import strategies as st

import wafo.gaussian as wg
from core import sub, check, close, same, arr, fail, unchanged, raises, known
from gens import nice, rs, seeds

INF = float('inf')
GLX, GLW = np.polynomial.legendre.leggauss(24)


def quiet(fun, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fun(*a, **kw)


def bvn(h, k, r):
    """P(X<=h, Y<=k), standard normal with correlation r, by Owen's T (arrays broadcast)."""
    h, k, r = [np.array(v, dtype=float) for v in np.broadcast_arrays(h, k, r)]
    h, k = np.clip(h, -40, 40), np.clip(k, -40, 40)
    out = np.empty(h.shape)
    p1, m1 = r >= 1, r <= -1
    out[p1] = ndtr(np.minimum(h, k)[p1])
    out[m1] = np.maximum(0, ndtr(h[m1]) - ndtr(-k[m1]))
    g = ~(p1 | m1)
    h, k, r = h[g], k[g], r[g]
    s = np.sqrt((1 - r) * (1 + r))
    with np.errstate(all='ignore'):
        # k - r*h and h - r*k without cancellation for |r| close to one
        ah = np.where(r > 0, (k - h) + (1 - r) * h, (k + h) - (1 + r) * h) / (h * s)
        ak = np.where(r > 0, (h - k) + (1 - r) * k, (h + k) - (1 + r) * k) / (k * s)
        th = np.where(h == 0, np.where(k == 0, 0, np.sign(k)) * 0.25, owens_t(h, ah))
        tk = np.where(k == 0, np.where(h == 0, 0, np.sign(h)) * 0.25, owens_t(k, ak))
    half = np.where((h * k < 0) | ((h * k == 0) & (h + k < 0)), 0.5, 0.0)
    val = 0.5 * (ndtr(h) + ndtr(k)) - th - tk - half
    both = (h == 0) & (k == 0)
    val = np.where(both, 0.25 + np.arcsin(r) / (2 * np.pi), val)
    out[g] = val
    return out


def bvrect(a1, b1, a2, b2, r):
    return bvn(b1, b2, r) - bvn(a1, b2, r) - bvn(b1, a2, r) + bvn(a1, a2, r)


def panels(lo, hi, breaks, width=0.5):
    """Composite Gauss-Legendre nodes on [lo, hi] with the given break points."""
    pts = [lo] + sorted(x for x in set(breaks) if lo < x < hi) + [hi]
    xs, ws = [], []
    for p, q in zip(pts[:-1], pts[1:]):
        n = max(1, int(math.ceil((q - p) / width)))
        e = np.linspace(p, q, n + 1)
        for c, d in zip(e[:-1], e[1:]):
            xs.append(0.5 * (d - c) * GLX + 0.5 * (c + d))
            ws.append(0.5 * (d - c) * GLW)
    return np.concatenate(xs), np.concatenate(ws)


def pcprob(rho, a, b):
    """P(a<X<b) with corr(i,j)=rho_i rho_j: one dimensional integral over the common factor."""
    rho, a, b = [np.asarray(v, dtype=float) for v in (rho, a, b)]
    lo, hi = -9.5, 9.5
    br = []
    one = np.abs(rho) >= 1
    for r, p, q in zip(rho, a, b):
        if abs(r) >= 1:
            e = sorted([p / r, q / r])
            lo, hi = max(lo, e[0]), min(hi, e[1])
        elif r != 0:
            s = math.sqrt(1 - r * r)
            for e in (p, q):
                if abs(e) < 37:
                    br += [e / r + c * s / abs(r) for c in (-8, -5, -3, -2, -1, -.5, 0, .5, 1, 2, 3, 5, 8)]
    if hi <= lo:
        return 0.0
    z, w = panels(lo, hi, br)
    f = np.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)
    for r, p, q in zip(rho[~one], a[~one], b[~one]):
        s = math.sqrt(1 - r * r)
        u, v = (p - r * z) / s, (q - r * z) / s
        f = f * np.where(u > 0, ndtr(-u) - ndtr(-v), ndtr(v) - ndtr(u))
    return float(np.dot(f, w))


def rindref(S, m, lo, hi, nt, xc):
    """E[prod|Xd| 1{lo<X<hi} | Xc=xc] f(xc) for X=[Xt, Xd, Xc], by conditioning and Gauss-Legendre quadrature."""
    S, m, xc = np.array(S, float), np.array(m, float), np.array(xc, float)
    N, nc = len(m), len(xc)
    n = N - nc
    dens = 1.0
    if nc:
        Scc = S[n:, n:]
        d = xc - m[n:]
        sol = np.linalg.solve(Scc, d)
        dens = math.exp(-0.5 * d.dot(sol)) / math.sqrt(np.linalg.det(2 * math.pi * Scc))
        K = S[:n, n:]
        mu = m[:n] + K.dot(sol)
        V = S[:n, :n] - K.dot(np.linalg.solve(Scc, K.T))
    else:
        mu, V = m, S
    nd = n - nt
    q = list(range(nt, n)) + list(range(max(0, nt - 2)))      # variables integrated by quadrature
    p = [i for i in range(n) if i not in q]                    # <= 2 variables integrated analytically
    nodes = []
    for i in q:
        sd = math.sqrt(V[i, i])
        l, h = max(lo[i], mu[i] - 9 * sd), min(hi[i], mu[i] + 9 * sd)
        if h <= l:
            return 0.0
        nodes.append(panels(l, h, [0.0], width=sd * (0.5 if len(q) == 1 else 0.9)))
    if q:
        G = np.meshgrid(*[x for x, w in nodes], indexing='ij')
        W = np.meshgrid(*[w for x, w in nodes], indexing='ij')
        X = np.array([g.ravel() for g in G])
        w = np.prod([g.ravel() for g in W], axis=0)
        Vq = V[np.ix_(q, q)]
        D = X - mu[q][:, None]
        sol = np.linalg.solve(Vq, D)
        w = w * np.exp(-0.5 * (D * sol).sum(axis=0)) / math.sqrt(np.linalg.det(2 * math.pi * Vq))
        for j in range(nd):
            w = w * np.abs(X[j])
        mp = mu[p][:, None] + V[np.ix_(p, q)].dot(sol)
        Vp = V[np.ix_(p, p)] - V[np.ix_(p, q)].dot(np.linalg.solve(Vq, V[np.ix_(q, p)]))
    else:
        w = np.ones(1)
        mp, Vp = mu[p][:, None], V[np.ix_(p, p)]
    if len(p) == 1:
        s = math.sqrt(Vp[0, 0])
        w = w * (ndtr((hi[p[0]] - mp[0]) / s) - ndtr((lo[p[0]] - mp[0]) / s))
    elif len(p) == 2:
        s = np.sqrt(np.diag(Vp))
        r = min(1, max(-1, Vp[0, 1] / s[0] / s[1]))
        w = w * bvrect((lo[p[0]] - mp[0]) / s[0], (hi[p[0]] - mp[0]) / s[0], (lo[p[1]] - mp[1]) / s[1], (hi[p[1]] - mp[1]) / s[1], r)
    return float(w.sum()) * dens


def tprob(rho, a, b, df):
    """Multivariate t: the normal probability mixed over the chi distribution of the scale."""
    hi = 1 + 12 / math.sqrt(2.0 * df) + (6 if df < 5 else 0)
    s, w = panels(0, hi, [], 0.4)
    dens = np.exp(math.log(2) + df / 2. * math.log(df / 2.) - math.lgamma(df / 2.) + (df - 1) * np.log(s) - df * s * s / 2) * w
    keep = dens > 1e-12
    return sum(d * pcprob(rho, np.asarray(a) * x, np.asarray(b) * x) for x, d in zip(s[keep], dens[keep]))


# ------------------------------------------------------------------------------------------- bivariate
LIM = st.one_of(nice(-4, 4), st.sampled_from([0.0, -INF, INF, 37.0, -37.0, 9.0, -9.0, 1e6, -1e6, 12.0, -12.0]))
COR = st.one_of(nice(-1, 1), st.sampled_from([0.0, 1.0, -1.0, 0.3, 0.75, 0.925, -0.3, -0.75, -0.925, 0.999999, -0.999999, 1 - 1e-10, -1 + 1e-10, 0.9, -0.9, 0.95, -0.95]))


@st.composite
def cdf2_cases(draw):
    n = draw(st.integers(1, 12))
    return dict(b1=draw(st.lists(LIM, min_size=n, max_size=n)), b2=draw(st.lists(LIM, min_size=n, max_size=n)),
                r=draw(st.lists(COR, min_size=n, max_size=n)), how=draw(st.sampled_from(['vector', 'scalar', 'one r', 'grid'])),
                shape=draw(st.booleans()))


@sub('C28', cdf2_cases(), quick=600)
def bivariate_cdf(case):
    """a finite pair of limits with r != 0"""
    b1, b2, r = [np.array(case[k], dtype=float) for k in ('b1', 'b2', 'r')]
    how = case['how']
    with unchanged('cdfnorm2d', b1, b2, r):
        if how == 'scalar':
            for x, y, c in zip(b1, b2, r):
                v = quiet(wg.cdfnorm2d, float(x), float(y), float(c))
                close(v, bvn(x, y, c), 0, 1e-13, 'cdfnorm2d(%r, %r, %r)' % (x, y, c), shape=False)
        elif how == 'one r':
            close(quiet(wg.cdfnorm2d, b1, b2, r[0]), bvn(b1, b2, r[0]), 0, 1e-13, 'cdfnorm2d with r=%r' % r[0])
        elif how == 'grid':
            X, Y = np.meshgrid(b1, b2)
            close(quiet(wg.cdfnorm2d, X, Y, r[0]), bvn(X, Y, r[0]), 0, 1e-13, 'cdfnorm2d on a grid, r=%r' % r[0])
            close(quiet(wg.cdfnorm2d, b1[:, None], b2, r), bvn(b1[:, None], b2, r), 0, 1e-13, 'cdfnorm2d broadcasting')
        else:
            close(quiet(wg.cdfnorm2d, b1, b2, r), bvn(b1, b2, r), 0, 1e-13, 'cdfnorm2d with r=%s' % r)
            close(quiet(wg.cdfnorm2d, list(b2), list(b1), list(r)), bvn(b1, b2, r), 0, 1e-13, 'cdfnorm2d of lists, swapped')
            bad = quiet(wg.cdfnorm2d, b1, b2, np.where(np.arange(len(r)) == 0, 1.5, r))
            check(np.isnan(bad[0]), 'cdfnorm2d with correlation 1.5 gives %r, not nan', bad[0])
            close(bad[1:], bvn(b1[1:], b2[1:], r[1:]), 0, 1e-13, 'cdfnorm2d next to an invalid correlation')
    return bool(np.any((np.abs(b1) < 9) & (np.abs(b2) < 9) & (r != 0)))


@st.composite
def rect2_cases(draw):
    def limits():
        lo = draw(st.one_of(nice(-4, 4), st.sampled_from([-INF, -37.0, -50.0, 0.0])))
        up = draw(st.one_of(nice(-4, 4), st.sampled_from([INF, 37.0, 50.0, 0.0])))
        if lo > up and draw(st.booleans()):
            lo, up = up, lo
        return lo, up
    (a1, b1), (a2, b2) = limits(), limits()
    return dict(a=[a1, a2], b=[b1, b2], r=draw(COR), arr=draw(st.booleans()))


@sub('C28', rect2_cases(), quick=600)
def bivariate_rectangle(case):
    """probability strictly between 0 and 1"""
    a, b, r = np.array(case['a']), np.array(case['b']), case['r']
    args = (a, b) if case['arr'] else (list(a), list(b))
    v = quiet(wg.prbnorm2d, args[0], args[1], r)
    ref = 0.0 if np.any(a >= b) else float(bvrect(a[0], b[0], a[1], b[1], r))
    close(v, ref, 0, 3e-13, 'prbnorm2d(%s, %s, %r)' % (a, b, r), shape=False)
    return 1e-9 < ref < 1 - 1e-9


# ---------------------------------------------------------------------------------- product correlation
@st.composite
def pc_cases(draw, one=True, nmax=7):
    n = draw(st.integers(1, nmax))
    vals = [0.0, 0.5, -0.3, 0.9, -0.99, 0.999, 0.1] + ([1.0, -1.0] if one else [])
    rho = draw(st.lists(st.one_of(nice(-0.99, 0.99), st.sampled_from(vals)), min_size=n, max_size=n))
    a, b = [], []
    for i in range(n):
        lo = draw(st.one_of(st.just(-INF), nice(-3, 2), nice(-3, 0)))
        up = draw(st.one_of(st.just(INF), st.just(None)))
        a.append(lo)
        b.append(INF if up is not None else ((lo if lo > -INF else -1.0) + draw(nice(0.05, 4))))
    return dict(rho=rho, a=a, b=b, eps=draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-6])), rel=draw(st.sampled_from([1e-3, 1e-4, 1e-8])),
                simpson=draw(st.booleans()), brk=draw(st.booleans()), ierc=draw(st.integers(0, 1)), default=draw(st.booleans()),
                df=draw(st.sampled_from([1, 2, 3, 5, 10, 20, 60])), mean=draw(nice(-1, 1)), empty=draw(st.integers(0, 7)) == 0)


@sub('C28', pc_cases(), quick=500)
def product_correlation(case):
    """at least two bounded correlated variables"""
    rho, a, b = [np.array(case[k], dtype=float) for k in ('rho', 'a', 'b')]
    if case['empty']:
        b[0] = a[0] = 0.3
    ref = pcprob(rho, a, b)
    kw = {} if case['default'] else dict(abserr=case['eps'], relerr=case['rel'], usesimpson=case['simpson'], usebreakpoints=case['brk'])
    eps, rel = (1e-4, 1e-4) if case['default'] else (case['eps'], case['rel'])
    with unchanged('prbnormndpc', rho, a, b):
        val, err, ier = quiet(wg.prbnormndpc, rho, a, b, **kw)
    if ier == 0:
        tol = max(eps, rel * ref) + 1e-10
        close(val, ref, 0, tol, 'prbnormndpc(%s, %s, %s, %s)' % (rho, a, b, kw), shape=False)
        check(err <= tol * 1.01, 'prbnormndpc reports error %r, above the tolerance %r, with ier=0', err, tol)
    else:
        fail('prbnormndpc(%s, %s, %s, %s) ended with ier=%d', rho, a, b, kw, ier)
    return int(np.sum((rho != 0) & ((a > -37) | (b < 37)))) > 1 and 1e-6 < ref < 1 - 1e-6


@sub('C28', pc_cases(one=False, nmax=6), quick=500)
def dunnett_normal(case):
    """at least two bounded correlated variables"""
    rho, a, b = [np.array(case[k], dtype=float) for k in ('rho', 'a', 'b')]
    n = len(rho)
    mean = np.where(np.arange(n) % 2, case['mean'], 0.0)
    shift = case['default']
    ref = pcprob(rho, a - mean, b - mean) if shift else pcprob(rho, a, b)
    with unchanged('prbnormtndpc', rho, a, b, mean):
        if shift:
            val, bound, ift = wg.prbnormtndpc(rho, a, b, d=mean, abseps=min(case['eps'], 1e-4), ierc=case['ierc'])
        else:
            val, bound, ift = wg.prbnormtndpc(rho, a, b, abseps=min(case['eps'], 1e-4), ierc=case['ierc'])
    check(ift in (0, 5, 7, 8), 'prbnormtndpc(%s, %s, %s) gave ift=%d for valid input', rho, a, b, ift)
    if ift == 0:
        close(val, ref, 0, {1e-6: 1e-4}.get(case['eps'], 5e-3), 'prbnormtndpc(%s, %s, %s)' % (rho, a, b), shape=False)
    c = a.copy()
    c[0] = b[0] = 0.5
    check(wg.prbnormtndpc(rho, c, b)[2] == 4, 'prbnormtndpc with a=b does not report inform 4')
    return ift == 0 and int(np.sum((rho != 0) & ((a > -37) | (b < 37)))) > 1 and 1e-6 < ref < 1 - 1e-6


@sub('C28', pc_cases(one=False, nmax=4), quick=60)
def dunnett_student(case):
    """probability strictly between 0 and 1"""
    rho, a, b = [np.array(case[k], dtype=float) for k in ('rho', 'a', 'b')]
    eps = min(case['eps'], 1e-3)
    val, bound, ift = wg.prbnormtndpc(rho, a, b, df=case['df'], abseps=eps, ierc=case['ierc'])
    if ift:
        return False
    ref = tprob(rho, a, b, case['df'])
    close(val, ref, 0, 10 * eps + 2e-5, 'prbnormtndpc(%s, %s, %s, df=%d)' % (rho, a, b, case['df']), shape=False)
    return 1e-4 < ref < 1 - 1e-4


# ------------------------------------------------------------------------------------- general matrices
@st.composite
def cov_cases(draw, nmax_t=3, nmax_d=0, nmax_c=0):
    nd = draw(st.integers(0, nmax_d))
    nt = draw(st.integers(0 if nd else 1, nmax_t if nd < 2 else 2))
    nc = draw(st.integers(0, nmax_c))
    n = nt + nd
    lo, up = [], []
    for i in range(n):
        l = draw(st.one_of(st.just(-INF), nice(-2.5, 1.5)))
        lo.append(l)
        up.append(draw(st.one_of(st.just(INF), nice(0.2, 4).map(lambda w, l=l: (l if l > -INF else -1.0) + w))))
    return dict(nt=nt, nd=nd, nc=nc, lo=lo, up=up, seed=draw(seeds()), mean=draw(st.sampled_from([0.0, 0.0, 1.0, 30.0])),
                scale=draw(st.sampled_from([0.0, 1.0])), z=draw(st.lists(nice(-2, 2), min_size=nc, max_size=nc)),
                method=draw(st.integers(1, 7)), triu=draw(st.booleans()), rseed=draw(st.integers(0, 10 ** 6)))


def matrix(case, N, unit=False):
    R = rs(case['seed'])
    A = R.randn(N, N + 1)
    S = A.dot(A.T)
    sd = np.sqrt(np.diag(S))
    C = S / np.outer(sd, sd)
    C = 0.97 * C + 0.03 * np.eye(N)           # bounded away from singular
    C[np.diag_indices(N)] = 1.0
    if unit:
        return C, np.ones(N), np.zeros(N)
    s = np.exp(case['scale'] * R.randn(N))
    m = case['mean'] * R.randn(N) * s
    return C * np.outer(s, s), s, m


@sub('C28', cov_cases(nmax_t=3), quick=250)
def genz(case):
    """three variables and a probability strictly between 0 and 1"""
    n = case['nt']
    C, s, m = matrix(case, n, unit=True)
    a, b = np.array(case['lo']), np.array(case['up'])
    ref = rindref(C, m, a, b, n, [])
    with unchanged('prbnormnd', C, a, b):
        v = wg.prbnormnd(C, a, b, abseps=1e-5, releps=1e-4)
    close(v, ref, 1e-3, 1e-4, 'prbnormnd(%s, %s, %s)' % (C.tolist(), a, b), shape=False)
    raises(lambda: wg.prbnormnd(2 * C, a, b), 'prbnormnd of a covariance matrix', ValueError)
    raises(lambda: wg.prbnormnd(C, a, np.append(b, 1)), 'prbnormnd with inconsistent sizes', ValueError)
    # a variable that occurs twice: only with allow_singular
    i = np.append(np.arange(n), 0)
    v2 = wg.prbnormnd(C[np.ix_(i, i)], np.append(a, -INF), np.append(b, INF), abseps=1e-5, releps=1e-4, allow_singular=True)
    close(v2, ref, 2e-3, 2e-4, 'prbnormnd with a repeated variable', shape=False)
    return n == 3 and 1e-6 < ref < 1 - 1e-6


def rtol(ref, err, terr, scale):
    return 0.02 * ref + 8 * abs(err) + abs(terr) + 2e-5 * scale


@sub('C28', cov_cases(nmax_t=3, nmax_d=2, nmax_c=2), quick=500)
def rind_expectation(case):
    """at least two variables, value not negligible"""
    nt, nd, nc = case['nt'], case['nd'], case['nc']
    n = nt + nd
    S, s, m = matrix(case, n + nc)
    lo, up = m[:n] + np.array(case['lo']) * s[:n], m[:n] + np.array(case['up']) * s[:n]
    xc = m[n:] + np.array(case['z']) * s[n:]
    ref = rindref(S, m, lo, up, nt, xc)
    scale = float(np.prod(s[nt:n] + np.abs(m[nt:n])) / np.prod(s[n:]))
    big = np.triu(S) if case['triu'] else S
    rind = wg.Rind(method=case['method'], seed=case['rseed'])
    with unchanged('Rind', big, m, lo, up, xc):
        val, err, terr = rind(big, m, lo, up, None, xc[:, None] if nc else None, nt)
    arr(val)
    check(val.shape == (1,), 'Rind gives values of shape %s for one point', val.shape)
    close(val[0], ref, 0, rtol(ref, err[0], terr[0], scale),
          'Rind(method=%d) of cov %s, mean %s, limits %s %s, xc %s, nt %d (err %.2g)' % (case['method'], S.tolist(), m, lo, up, xc, nt, err[0]), shape=False)
    val2 = wg.Rind(method=case['method'], seed=case['rseed'])(S, m, lo, up, np.arange(-1, n), xc[:, None] if nc else None, nt)[0]
    close(val2, val, 1e-9, 0, 'Rind with the same seed')
    return n > 1 and ref > 1e-3 * scale and 'nd=%d nc=%d' % (nd, nc)


@st.composite
def block_cases(draw):
    n1, n2 = draw(st.integers(1, 2)), draw(st.integers(0, 1))
    nc = draw(st.integers(1, 2))
    return dict(n1=n1, n2=n2, nc=nc, seed=draw(seeds()), scale=draw(st.sampled_from([0.0, 1.0])), mean=draw(st.sampled_from([0.0, 1.0])),
                lo=[draw(st.one_of(st.just(-INF), nice(-2, 1))) for _ in range(2)], w=[draw(nice(0.3, 4)) for _ in range(2)],
                up=[draw(st.booleans()) for _ in range(2)], slope=draw(st.lists(nice(-1, 1), min_size=4, max_size=4)),
                rows=draw(st.integers(1, nc + 1)), nx=draw(st.integers(1, 4)), nd=draw(st.integers(0, 1)), rseed=draw(st.integers(0, 10 ** 6)))


@sub('C28', block_cases(), quick=250)
def rind_barriers(case):
    """barriers depend on the conditioning values, or several variables per barrier"""
    n, nc = case['n1'] + case['n2'], case['nc']
    S, s, m = matrix(case, n + nc)
    R = rs(case['seed'] + 1)
    xc = m[n:, None] + s[n:, None] * R.uniform(-2, 2, (nc, case['nx']))
    nb = 1 + (case['n2'] > 0)
    rows = case['rows']
    lo, up = np.zeros((rows, nb)), np.zeros((rows, nb))
    for j in range(nb):
        lo[0, j] = case['lo'][j]
        up[0, j] = INF if case['up'][j] else (lo[0, j] if lo[0, j] > -INF else -1) + case['w'][j]
        for i in range(1, rows):
            if np.isfinite(lo[0, j]):
                lo[i, j] = case['slope'][2 * j + i - 1]
            if np.isfinite(up[0, j]):
                up[i, j] = case['slope'][2 * j + i - 1]
    indI = [-1, case['n1'] - 1] + ([n - 1] if nb == 2 else [])
    nt = n - case['nd']
    rind = wg.Rind(seed=case['rseed'])
    with unchanged('Rind', S, m, lo, up, xc):
        val, err, terr = rind(S, m, lo, up, indI, xc, nt)
    check(val.shape == (case['nx'],), 'Rind gives shape %s for %d points', val.shape, case['nx'])
    scale = float(np.prod(s[nt:n] + np.abs(m[nt:n])) / np.prod(s[n:]))
    which = [0] * case['n1'] + [1] * case['n2']
    for k in range(case['nx']):
        shift = [sum(lo[i, j] * xc[i - 1, k] for i in range(1, rows)) for j in range(nb)]
        ushift = [sum(up[i, j] * xc[i - 1, k] for i in range(1, rows)) for j in range(nb)]
        l = [lo[0, j] + shift[j] for j in which]
        u = [up[0, j] + ushift[j] for j in which]
        ref = rindref(S, m, l, u, nt, xc[:, k])
        close(val[k], ref, 0, rtol(ref, err[k], terr[k], scale), 'Rind point %d with barriers %s %s, indI %s, xc %s' % (k, lo.tolist(), up.tolist(), indI, xc[:, k]), shape=False)
    return rows > 1 or case['n1'] > 1


@st.composite
def history_cases(draw):
    k = draw(st.integers(2, 4))
    objs = [dict(method=draw(st.sampled_from([1, 3, 5, 7])), releps=draw(st.sampled_from([1e-3, 0.3])), maxpts=draw(st.sampled_from([200, 40000])),
                 seed=draw(st.integers(0, 10 ** 6))) for _ in range(k)]
    return dict(objs=objs, calls=draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=6)), seed=draw(seeds()),
                n=draw(st.integers(4, 6)), nd=draw(st.integers(0, 1)))


@sub('C28', history_cases(), quick=80)
def rind_history(case):
    """several Rind objects with different settings are used alternately"""
    n = case['n']
    S, s, m = matrix(dict(case, scale=0.0, mean=0.0), n)
    lo, up, nt = -np.ones(n), 1.5 * np.ones(n), n - case['nd']
    alone = [wg.Rind(**o)(S, m, lo, up, None, None, nt) for o in case['objs']]
    rinds = [wg.Rind(**o) for o in case['objs']]
    last = case['objs'][-1]                                   # the settings the compiled module has now
    for i in case['calls']:
        got = rinds[i](S, m, lo, up, None, None, nt)
        if all(np.allclose(g, a, rtol=1e-9, atol=1e-300) for g, a in zip(got, alone[i])):
            continue
        mixed = wg.Rind(**dict(last, seed=case['objs'][i]['seed']))(S, m, lo, up, None, None, nt)
        msg = 'Rind(%s) gives %s, but %s after Rind(%s) was created' % (case['objs'][i], alone[i], got, last)
        if all(np.allclose(g, a, rtol=1e-9, atol=1e-300) for g, a in zip(got, mixed)):
            known('C28-1', msg)                                # pinned by the existing test of Rind
        else:
            fail(msg)
    return len(set(str((o['method'], o['releps'], o['maxpts'])) for o in case['objs'])) > 1


# ------------------------------------------------------------------------------------------ local maxima
@sub('C28', st.fixed_dictionaries(dict(alpha=st.one_of(nice(0, 1), st.sampled_from([0.0, 1.0, 0.5, 1e-6, 0.999, 1 - 1e-9])), m0=nice(0.01, 50),
                                       x=st.lists(nice(-4, 4), min_size=1, max_size=8), lst=st.booleans())), quick=300)
def local_maxima(case):
    """0 < alpha < 1"""
    al, m0 = case['alpha'], case['m0']
    z = np.array([0.0] + case['x'])
    x = z * math.sqrt(m0)
    v = quiet(wg.cdflomax, list(x) if case['lst'] else x, al, m0)
    e = math.sqrt((1 - al) * (1 + al))
    # M = sqrt(m0) (e Z + al R): P(M <= x) = E[P(R <= (x/sqrt(m0) - e Z)/al)]
    if al == 1:
        ref = np.where(z > 0, -np.expm1(-z ** 2 / 2), 0)
    elif al == 0:
        ref = ndtr(z)
    else:
        u, w = panels(0.0, 9.5, [zz / al + c * e / al for zz in z for c in (-6, -3, -1, 0, 1, 3, 6)], 0.5)
        f = u * np.exp(-u * u / 2) * w
        ref = np.array([np.dot(f, ndtr((zz - al * u) / e)) for zz in z])
    close(v, ref, 1e-9, 1e-10, 'cdflomax(%s, %r, %r)' % (x, al, m0))
    o = np.argsort(x)
    check(np.all(np.diff(arr(v)[o]) >= -1e-12), 'cdflomax is not monotone: %s at %s', v, x)
    return 0 < al < 1
