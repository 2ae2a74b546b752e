"""C15: wafo.stats distributions (truncrayleigh, pbinom and the scipy ones it republishes)."""
import numpy as np
from hypothesis import strategies as st
from scipy import integrate
import scipy.stats as ss

from core import sub, check, close, same, arr, raises, unchanged, finite
from gens import fl, seeds, nice, rs


def W():
    import wafo.stats as ws
    return ws


# ------------------------------------------------------------------------------------------------ truncrayleigh
tr_par = st.tuples(nice(0, 12), nice(-5, 5), fl(0.05, 20))


@sub('C15', st.tuples(tr_par, st.lists(nice(0, 12), min_size=1, max_size=8), st.booleans()), quick=400)
def truncrayleigh_functions(case):
    """non-trivial: c > 0 and a point inside the support"""
    (c, loc, scale), u, asarray = case
    d = W().truncrayleigh
    # points at known depth: (z+c)^2/2 - c^2/2 = u
    u = np.array(u)
    z = np.sqrt(c * c + 2 * u) - c
    x = loc + scale * z
    zz = (x - loc) / scale
    h = zz * (zz + 2 * c) / 2
    cond = 1e-12 * (1 + c) * (1 + np.abs(loc) / scale) * (1 + c + z)
    inside = zz > 0
    close(d.sf(x, c, loc, scale), np.where(inside, np.exp(-h), 1.0), 1e-9, cond, 'sf')
    close(d.cdf(x, c, loc, scale), np.where(inside, -np.expm1(-h), 0.0), 1e-9, cond, 'cdf')
    close(d.logsf(x, c, loc, scale), np.where(inside, -h, 0.0), 1e-9, cond, 'logsf')
    pdf = np.where(inside, (zz + c) * np.exp(-h) / scale, 0.0)
    i = inside
    close(arr(d.pdf(x, c, loc, scale))[i], pdf[i], 1e-9, (cond * (1 + c) / scale)[i], 'pdf')
    close(arr(d.logpdf(x, c, loc, scale))[i], np.log(pdf[i]), 1e-9, (cond + cond / (zz + c))[i], 'logpdf')
    q = -np.expm1(-u)
    ok = q < 1
    close(d.ppf(q[ok], c, loc, scale), loc + scale * z[ok], 1e-7, 1e-7 * scale, 'ppf of the distribution function')
    close(d.isf(np.exp(-u), c, loc, scale), loc + scale * z, 1e-7, 1e-7 * scale, 'isf of the survival function')
    below = loc - scale * np.array([1e-3, 1.0, 50.0])
    same(d.cdf(below, c, loc, scale), np.zeros(3), 'cdf below the support')
    same(d.sf(below, c, loc, scale), np.ones(3), 'sf below the support')
    same(d.pdf(below, c, loc, scale), np.zeros(3), 'pdf below the support')
    if asarray:                      # broadcasting of the parameters
        cc = np.array([[c], [c + 1]])
        two = arr(d.cdf(x, cc, loc, scale))
        check(two.shape == (2, x.size), 'shape', two.shape)
        close(two[0], d.cdf(x, c, loc, scale), 1e-12, 1e-15, 'broadcast cdf')
        close(two[1], d.cdf(x, c + 1, loc, scale), 1e-12, 1e-15, 'broadcast cdf')
    fro = d(c, loc=loc, scale=scale)
    same(fro.cdf(x), d.cdf(x, c, loc, scale), 'frozen cdf')
    same(fro.pdf(x), d.pdf(x, c, loc, scale), 'frozen pdf')
    return c > 0 and bool(inside.any())


@sub('C15', st.tuples(st.one_of(st.just(0.0), fl(0, 1), fl(0, 12)), st.one_of(fl(-18, 0), fl(-300, 0)), fl(0.05, 20)), quick=200)
def truncrayleigh_small_quantiles(case):
    """non-trivial: probability below 1e-6"""
    c, lq, scale = case
    q = min(10.0 ** lq, 1 - 1e-9)
    z = -2 * np.log1p(-q)
    z = z / (np.sqrt(c * c + z) + c) if c else np.sqrt(z)
    close(W().truncrayleigh.ppf(q, c, 0, scale), scale * z, 1e-9, 1e-14 * c * scale, 'ppf of a small probability')
    if c == 0:
        close(W().truncrayleigh.cdf(scale * z, c, 0, scale), q, 1e-9, 1e-305, 'cdf of a small quantile')
    return lq < -6


@sub('C15', tr_par, quick=60)
def truncrayleigh_moments(case):
    """non-trivial: c > 0"""
    c, loc, scale = case
    d = W().truncrayleigh
    # integrate over the probability scale: z(v) with v = -log sf ~ standard exponential
    zf = lambda v: 2 * v / (np.sqrt(c * c + 2 * v) + c)
    mom = [1.0]
    for k in (1, 2, 3, 4):
        mom.append(integrate.quad(lambda v: 2 * v * zf(v * v) ** k * np.exp(-v * v), 0, 12, epsabs=1e-14, epsrel=1e-12,
                                  limit=200)[0])
    m = mom[1]
    v = integrate.quad(lambda t: 2 * t * (zf(t * t) - m) ** 2 * np.exp(-t * t), 0, 12, epsrel=1e-12, epsabs=1e-14)[0]
    s3 = integrate.quad(lambda t: 2 * t * (zf(t * t) - m) ** 3 * np.exp(-t * t), 0, 12, epsrel=1e-11, epsabs=1e-14)[0]
    s4 = integrate.quad(lambda t: 2 * t * (zf(t * t) - m) ** 4 * np.exp(-t * t), 0, 12, epsrel=1e-11, epsabs=1e-14)[0]
    mm, vv, g1, g2 = [float(x) for x in d.stats(c, loc=loc, scale=scale, moments='mvsk')]
    close(mm, loc + scale * m, 1e-7, 1e-7 * scale, 'mean')
    close(vv, scale ** 2 * v, 1e-6, 0, 'variance')
    close(g1, s3 / v ** 1.5, 1e-4, 1e-4, 'skewness')
    close(g2, s4 / v ** 2 - 3, 1e-3, 1e-3, 'kurtosis')
    close(float(d.mean(c, loc, scale)), loc + scale * m, 1e-7, 1e-7 * scale, 'mean()')
    close(float(d.std(c, loc, scale)), scale * np.sqrt(v), 1e-6, 0, 'std()')
    close(float(d.moment(2, c)), mom[2], 1e-5, 1e-8, 'second moment')
    logz = integrate.quad(lambda t: 2 * t * np.log(np.sqrt(c * c + 2 * t * t)) * np.exp(-t * t), 0, 12, epsrel=1e-10)[0]
    close(float(d.entropy(c, loc, scale)), 1 - logz + np.log(scale), 1e-5, 1e-5, 'entropy')
    return c > 0


@sub('C15', st.tuples(tr_par, st.integers(500, 3000), seeds()), quick=40)
def truncrayleigh_samples(case):
    """non-trivial: always (Kolmogorov distance of a sample, alarm level below 1e-9)"""
    (c, loc, scale), n, seed = case
    x = arr(W().truncrayleigh.rvs(c, loc=loc, scale=scale, size=n, random_state=seed))
    check(x.shape == (n,), 'shape of the sample', x.shape)
    z = np.sort((x - loc) / scale)
    check(z[0] >= -1e-9 * (1 + abs(loc) / scale), 'sample below the support')
    f = -np.expm1(-z * (z + 2 * c) / 2)
    k = np.arange(n)
    dist = max(np.max((k + 1) / n - f), np.max(f - k / n))
    check(dist * np.sqrt(n) < 3.3, 'Kolmogorov distance of the sample %g', dist)
    return True


# ------------------------------------------------------------------------------------------------------ pbinom
probs = st.one_of(st.lists(nice(0, 1), min_size=1, max_size=25),
                  st.lists(st.sampled_from([0.0, 1.0, 0.5, 0.25]), min_size=1, max_size=10),
                  st.tuples(nice(0, 1), st.integers(1, 60)).map(lambda t: [t[0]] * t[1]))


def pb_ref(p):
    pmf = np.array([1.0])
    for q in p:
        pmf = np.convolve(pmf, [1 - q, q])
    return pmf


@sub('C15', probs, quick=300)
def pbinom_functions(p):
    """non-trivial: at least two probabilities strictly between 0 and 1 that differ"""
    d = W().pbinom(p)
    ref = pb_ref(p)
    n = len(p)
    k = np.arange(n + 1)
    tol = 1e-13 * (n + 4)
    close(d.pmf(k), ref, 1e-10, tol, 'pmf')
    close(d.pmf(k.astype(float)), ref, 1e-10, tol, 'pmf of floats')
    close(d.cdf(k), np.cumsum(ref), 1e-10, 3 * tol, 'cdf')
    close(d.sf(k), np.append(np.cumsum(ref[::-1])[::-1][1:], 0.0), 1e-10, 3 * tol, 'sf')
    close(d.cdf(k + 0.5), np.cumsum(ref), 1e-10, 3 * tol, 'cdf between the integers')
    out = np.array([-3.0, -1, n + 1, n + 7])
    same(d.pmf(out), np.zeros(4), 'pmf outside')
    same(d.cdf(out), [0, 0, 1, 1], 'cdf outside')
    same(d.sf(out), [1, 1, 0, 0], 'sf outside')
    same(d.pmf(k[:-1] + 0.5), np.zeros(n), 'pmf between the integers')
    for j in (0, n // 2, n):
        close(float(d.pmf(j)), ref[j], 1e-10, tol, 'scalar pmf')
        close(float(d.cdf(j)), ref[:j + 1].sum(), 1e-10, 3 * tol, 'scalar cdf')
    c = np.cumsum(ref)
    for lev in (0.1, 0.5, 0.93):
        if np.min(np.abs(c - lev)) > 1e-9:
            same(float(d.ppf(lev)), float(np.argmax(c >= lev)), 'ppf(%g)' % lev)
    pp = np.array(p)
    m, v = float(np.sum(pp)), float(np.sum(pp * (1 - pp)))
    mean, var = d.stats()
    close(float(mean), m, 1e-10, 1e-12, 'mean')
    close(float(var), v, 1e-9, 1e-12, 'variance')
    if v > 1e-3:
        g1, g2 = d.stats(moments='sk')
        m3 = np.sum((k - m) ** 3 * ref)
        m4 = np.sum((k - m) ** 4 * ref)
        close(float(g1), m3 / v ** 1.5, 1e-6, 1e-6, 'skewness')
        close(float(g2), m4 / v ** 2 - 3, 1e-6, 1e-6, 'kurtosis')
    return len(set(q for q in p if 0 < q < 1)) >= 2


@sub('C15', st.tuples(probs, seeds()), quick=60)
def pbinom_samples(case):
    """non-trivial: variance > 0"""
    p, seed = case
    n = 1000
    x = arr(W().pbinom(p).rvs(size=n, random_state=seed))
    check(x.shape == (n,), 'shape of the sample', x.shape)
    c = np.cumsum(pb_ref(p))
    e = np.array([np.mean(x <= j) for j in range(len(p) + 1)])
    check(np.all((x >= 0) & (x <= len(p)) & (x == np.round(x))), 'sample outside the support')
    check(np.max(np.abs(e - c)) * np.sqrt(n) < 3.3, 'Kolmogorov distance of the sample')
    same(arr(W().pbinom(p).rvs(size=5, random_state=seed)).shape, (5,), 'shape')
    return 0 < sum(p) < len(p)


@sub('C15', st.lists(st.one_of(nice(0, 1), st.sampled_from([-0.1, 1.1, -1e-6, 1 + 1e-6, 2.0])), min_size=1, max_size=6),
     quick=100)
def pbinom_rejects(p):
    """non-trivial: a value outside [0, 1]"""
    if all(0 <= q <= 1 for q in p):
        W().pbinom(p)
        return False
    raises(lambda: W().pbinom(p), 'probabilities outside [0, 1]', ValueError)
    return True


# ------------------------------------------------------------------------- the distributions republished from scipy
NAMES = sorted(n for n in ss._continuous_distns._distn_names if n not in ('levy_stable', 'studentized_range', 'ksone',
                                                                         'kstwo', 'kstwobign', 'rel_breitwigner'))
SHAPES = {n: tuple(float(v) for v in a) for n, a in ss._distr_params.distcont}


@sub('C15', st.tuples(st.sampled_from(NAMES), nice(-3, 3), fl(0.1, 5), st.lists(nice(0.01, 0.99), min_size=1,
                                                                               max_size=4)), quick=150)
def republished(case):
    """non-trivial: always"""
    name, loc, scale, q = case
    if name not in SHAPES:
        return None
    a = SHAPES[name] + (loc, scale)
    d, r = getattr(W(), name), getattr(ss, name)
    x = r.ppf(q, *a)
    for f in ('pdf', 'cdf', 'sf'):
        close(getattr(d, f)(x, *a), getattr(r, f)(x, *a), 1e-9, 1e-12, name + '.' + f)
    close(d.ppf(q, *a), x, 1e-7, 1e-9 * scale, name + '.ppf')
    check(W().__dict__.get(name) is not r, '%s is the scipy object itself: patching it would patch scipy', name)
    return name


PATCHED = dict(betaprime=[(3, 8), (4, 9)], bradford=[(0.5, 6)], chi=[(2, 9)], f=[(6, 14), (8, 20)],
               weibull_min=[(0.9, 5)], genpareto=[(-0.2, 0.4)], genextreme=[(-0.2, 0.3)], lognorm=[(0.2, 1.2)],
               gibrat=[], ncx2=[(2, 8), (0.5, 4)], nct=[(6, 15), (-1, 1)], reciprocal=[(0.5, 2), (3, 9)],
               truncrayleigh=[(0, 3)])


@st.composite
def patched_cases(draw):
    name = draw(st.sampled_from(sorted(PATCHED)))
    return name, [draw(fl(*r)) for r in PATCHED[name]], draw(st.integers(30, 120)), draw(seeds())


@sub('C15', patched_cases(), quick=150)
def start_values(case):
    """non-trivial: always"""
    name, shape, n, seed = case
    d = getattr(W(), name)
    x = np.asarray(d.rvs(*shape, size=n, random_state=seed), dtype=float)
    with unchanged('data', x):
        if name == 'gibrat':
            p = d.fit2(x, floc=0)
        else:
            p = d.fit2(x, floc=0, fscale=1)
    par = finite(p.par, 'parameters')
    check(par.shape == (len(shape) + 2,), 'number of parameters', par)
    ll = float(np.sum(d.logpdf(x, *par)))
    lt = float(np.sum(d.logpdf(x, *(tuple(shape) + (0, 1)))))
    start = d.fit2(x, search=False, **({'floc': 0} if name == 'gibrat' else dict(floc=0, fscale=1)))
    ls = float(np.sum(d.logpdf(x, *start.par)))
    check(not ll < ls - 1e-6 or not np.isfinite(ls), 'the fit is less likely (%g) than its start (%g)' % (ll, ls))
    if name not in ('nct', 'genpareto', 'genextreme'):   # their support or domain can cut the start off the optimum
        check(ll >= lt - 1e-2, 'the fit is less likely (%g) than the true parameters (%g)' % (ll, lt), par, shape)
    kw = dict(floc=0) if name == 'gibrat' else dict(floc=0, fscale=1)
    with unchanged('data', x):
        q = d.fit1(x, **kw)
    check(len(q) == par.size, 'number of parameters from fit1', q)
    if name not in ('nct', 'genpareto', 'genextreme'):
        close(float(np.sum(d.logpdf(x, *q))), ll, 0, 0.05, 'log likelihood of the parameters from fit1')
    with unchanged('data', x):
        finite(d.fit(x, **kw), 'parameters from fit')
    return name
