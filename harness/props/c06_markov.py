"""C06 cycle matrices, counting distributions and Markov chains of turning points."""
import numpy as np
from hypothesis import strategies as st

import wafo.markov as mk
from core import sub, check, close, same, arr, fail, unchanged, known, raises
from gens import fl, rs, seeds


@st.composite
def upper(draw, nmin=2, nmax=9):
    """cycle matrix in min-row/max-column form: counts above the diagonal"""
    n = draw(st.integers(nmin, nmax))
    kind = draw(st.sampled_from(['int', 'sparse', 'float']))
    el = {'int': st.integers(0, 9), 'sparse': st.sampled_from([0, 0, 0, 1, 5]), 'float': fl(0, 10)}[kind]
    v = draw(st.lists(el, min_size=n * n, max_size=n * n))
    return np.triu(np.array(v, dtype=float).reshape(n, n), 1).tolist()


@sub('C06', upper(), quick=1000)
def cmat_counting_round_trip(case):
    """cmat2nt[i,j] == number of cycles with min < i and max > j; nt2cmat inverts it; both algorithms agree"""
    c = np.array(case)
    n = len(c)
    ref = np.array([[c[:i, j + 1:].sum() for j in range(n)] for i in range(n)])
    for kind in (1, 11):
        with unchanged('cmat2nt', c):
            nt = mk.cmat2nt(c, kind)
        close(nt, ref, 1e-12, 1e-12, 'cmat2nt(kind=%d)' % kind)
        for k2 in (1, 11):
            with unchanged('nt2cmat', ref):
                back = mk.nt2cmat(ref, k2)
            close(back, c, 1e-12, 1e-10, 'nt2cmat(cmat2nt(c))')
    for kind in (2, -2, 12):
        raises(lambda: mk.cmat2nt(c, kind), 'cmat2nt kind=%d' % kind, (ValueError, NotImplementedError))
        raises(lambda: mk.nt2cmat(c, kind), 'nt2cmat kind=%d' % kind, (ValueError, NotImplementedError))
    return bool(np.count_nonzero(c) > 1)


@sub('C06', upper(3), quick=800)
def fr_counting_round_trip(case):
    """fr2nt == N_T(u,v) = #{M > u, m < v}; nt2fr inverts a counting distribution for both definitions"""
    fr = np.fliplr(np.array(case)).copy()           # rows: max descending, columns: min ascending, upper left
    n = len(fr)
    full = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            full[i, j] = fr[:i, :j].sum()
    with unchanged('fr2nt', fr):
        nt = mk.fr2nt(fr)
    want = np.where(np.add.outer(np.arange(n), np.arange(n)) <= n - 1, full, 0)
    close(nt, want, 1e-12, 1e-11, 'fr2nt')
    with unchanged('nt2fr', full):
        got = mk.nt2fr(full, 0)
    want = np.zeros((n, n))
    want[:n - 1, :n - 1] = fr[:n - 1, :n - 1]
    close(got, want, 1e-12, 1e-10, 'nt2fr(kind=0)')
    full1 = np.array([[fr[:i + 1, :j + 1].sum() for j in range(n)] for i in range(n)])
    got = mk.nt2fr(full1, 1)
    want = np.zeros((n, n))
    want[1:, 1:] = fr[1:, 1:]
    close(got, want, 1e-12, 1e-10, 'nt2fr(kind=1)')
    raises(lambda: mk.fr2nt(fr[:, :-1]), 'fr2nt of a non-square matrix', ValueError)
    raises(lambda: mk.fr2nt(fr[:2, :2]), 'fr2nt of a 2x2 matrix', ValueError)
    return bool(np.count_nonzero(fr) > 1)


def chain(n, seed, sparse, reversible):
    """min2max and max2min frequency matrices of a Markov chain of turning points, rows max descending, columns min
    ascending, upper left triangle (i + j <= n-2), with equal marginals"""
    r = rs(seed)
    mask = np.add.outer(np.arange(n), np.arange(n)) <= n - 2
    f = r.rand(n, n) ** sparse * mask + 1e-3 * mask
    if reversible:
        return f, f
    # move mass around 2x2 cycles inside the triangle: marginals stay
    g = f.copy()
    for _ in range(4 * n):
        i, k = r.randint(0, n - 1, 2)
        j, l = r.randint(0, n - 1, 2)
        if i == k or j == l or not (mask[i, j] and mask[i, l] and mask[k, j] and mask[k, l]):
            continue
        d = r.rand() * min(g[i, j], g[k, l]) * 0.8
        g[i, j] -= d
        g[k, l] -= d
        g[i, l] += d
        g[k, j] += d
    return f, g


def ref_rfc(f, g):
    """rainflow matrix from the level interval upcrossing probabilities of the chain.
    N(i,j) = frequency of excursions from a minimum in column < j that reach a maximum in row < i before the next
    minimum in column < j"""
    n = len(f)
    fmin, fmax = f.sum(0), f.sum(1)
    P = np.where(fmin[:, None] > 0, f.T / np.where(fmin > 0, fmin, 1)[:, None], 0)       # min j -> max i
    Q = np.where(fmax[:, None] > 0, g / np.where(fmax > 0, fmax, 1)[:, None], 0)         # max i -> min j
    N = np.zeros((n + 1, n + 1))
    for i in range(n + 1):
        for j in range(n + 1):
            if i == 0 or j == 0:
                continue
            if i + j > n:       # the interval is empty or degenerate: every min->max passage counts once
                continue
            # h[m] = P(reach max row < i before a min column < j | just at min m)
            low_rows = np.arange(i, n)          # maxima that do not reach
            mid = np.arange(j, n)               # minima that are not low
            A = P[np.ix_(mid, low_rows)] @ Q[np.ix_(low_rows, mid)]
            hm = np.linalg.solve(np.eye(len(mid)) - A, P[np.ix_(mid, np.arange(i))].sum(1)) if len(mid) else \
                np.zeros(0)
            h = P[:j, :i].sum(1) + (P[np.ix_(np.arange(j), low_rows)] @ Q[np.ix_(low_rows, mid)] @ hm
                                    if len(mid) and len(low_rows) else 0)
            N[i, j] = (fmin[:j] * h).sum()
    return N


@sub('C06', st.fixed_dictionaries({'n': st.integers(4, 9), 'seed': seeds(), 'sparse': st.sampled_from([1, 4]),
                                   'rev': st.booleans(), 'scale': st.sampled_from([1.0, 100.0, 0.01])}),
     quick=400, shards=2)
def rainflow_matrix_of_markov_chain(case):
    """mctp2rfc: non-negative, every max and min in exactly one cycle (marginals kept), and its counting distribution is
    the interval upcrossing intensity of the chain"""
    f, g = chain(case['n'], case['seed'], case['sparse'], case['rev'])
    f, g = f * case['scale'], g * case['scale']
    n = len(f)
    with unchanged('mctp2rfc', f, g):
        R = arr(mk.mctp2rfc(f) if case['rev'] else mk.mctp2rfc(f, g))
    tol = 2e-5 * f.sum()
    check(R.shape == f.shape, 'shape %s', R.shape)
    check(np.all(R >= -tol), 'negative frequencies %s', R.min())
    mask = np.add.outer(np.arange(n), np.arange(n)) <= n - 2
    check(np.all(np.abs(R[~mask]) <= tol), 'cycles with max <= min')
    close(R.sum(1), f.sum(1), 0, tol, 'distribution of maxima')
    close(R.sum(0), f.sum(0), 0, tol, 'distribution of minima')
    N = ref_rfc(f, g)
    cum = np.zeros((n + 1, n + 1))
    cum[1:, 1:] = R.cumsum(0).cumsum(1)
    sel = np.add.outer(np.arange(n + 1), np.arange(n + 1)) <= n - 1
    close(np.where(sel, cum, 0), np.where(sel, N, 0), 0, tol, 'rainflow counting distribution')
    F1, R1 = mk.iter_(np.fliplr(R), np.fliplr(f), k=1)
    if case['rev']:
        close(F1, np.fliplr(f), 0, 10 * tol, 'iter_: the chain that has the rainflow matrix is its solution')
    check(np.all(arr(F1) >= 0), 'iter_: negative Markov matrix')
    close(R1, np.fliplr(mk.mctp2rfc(np.fliplr(F1))), 1e-12, 1e-12, 'iter_: second result is the rainflow matrix of the first')
    return 'reversible' if case['rev'] else 'general'


@sub('C06', st.fixed_dictionaries({
    'a': fl(-3, 0), 'w': fl(0.5, 5), 'n': st.integers(3, 12), 'x0': st.none() | st.tuples(fl(-1, 1), fl(-1, 1)),
    's': st.none() | fl(0.1, 2), 'lam': fl(0.3, 3), 'sub': st.sampled_from([0, 0, 1, 2, -1, -2, None])}), quick=500)
def mktestmat_is_formula(case):
    """F[i,j] = exp(-(x-x0)inv(S)(x-x0)/2), zero on and below the requested subdiagonals; Fh is the transpose"""
    a, b, n = case['a'], case['a'] + case['w'], case['n']
    sub_ = case['sub']
    kw = {'lam': case['lam'], 'numsubzero': -np.inf if sub_ is None else sub_}
    x0 = np.array(case['x0'] if case['x0'] else [(a + b) / 2] * 2)
    s = case['s'] or (b - a) / 4
    if case['x0']:
        kw['x0'] = case['x0']
    if case['s']:
        kw['s'] = case['s']
    F, Fh = mk.mktestmat((a, b, n), **kw)
    u = np.linspace(a, b, n)
    ref = np.zeros((n, n))
    lam = case['lam']
    # S has eigenvectors (1,1), (1,-1) with eigenvalues s^2 lam^2 and s^2
    for i in range(n):
        for j in range(n):
            if sub_ is None or j > i + sub_:
                p, q = (u[i] - x0[0] + u[j] - x0[1]) / np.sqrt(2), (u[i] - x0[0] - u[j] + x0[1]) / np.sqrt(2)
                ref[i, j] = np.exp(-0.5 * (p * p / (s * lam) ** 2 + q * q / s ** 2))
    close(F, ref, 1e-8, 1e-12, 'F')
    close(Fh, ref.T, 1e-8, 1e-12, 'Fh')
    return 'all' if sub_ is None else 'sub%d' % sub_


@sub('C06', st.fixed_dictionaries({'n': st.integers(4, 6), 'seed': seeds()}), quick=20)
def unfinished_functions(case):
    """mc2rfc / mctp2tc return non-negative frequencies and leave their input alone (listed findings)"""
    f, _ = chain(case['n'], case['seed'], 1, True)
    try:
        r = arr(mk.mc2rfc(f.copy()))
    except (ValueError, IndexError, TypeError) as e:
        known('C06-1', 'mc2rfc raises %s: %s', type(e).__name__, e)
    check(np.all(r >= -1e-6 * f.sum()), 'mc2rfc: negative frequencies')
    return True


DOC = [[0.0183, 0.0160, 0.0002, 0, 0], [0.0178, 0.5405, 0.0952, 0, 0], [0.0002, 0.0813, 0, 0, 0], [0] * 5, [0] * 5]


@sub('C06', st.just({'f': DOC}), quick=5)
def mctp2tc_documented_example(case):
    """mctp2tc on its documented example: non-negative, input unchanged (listed findings)"""
    f = np.array(case['f'])
    r = arr(mk.mctp2tc(f, 0, (-1, 1, 5)))
    if np.any(r < -1e-9):
        known('C06-2', 'mctp2tc of the documented example has negative frequencies: %s', r.min())
    return True
