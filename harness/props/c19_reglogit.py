"""C19: ordinal logistic regression."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import optimize
import scipy.stats as ss

from core import sub, check, close, same, arr, raises, unchanged, finite
from gens import fl, seeds, nice, rs


@st.composite
def models(draw):
    K = draw(st.integers(2, 5))
    nx = draw(st.integers(0, 3))
    return dict(K=K, nx=nx, n=draw(st.integers(15, 70)), seed=draw(seeds()), beta=[draw(fl(-1.5, 1.5)) for _ in range(nx)],
                scale=[draw(st.sampled_from([1.0, 1.0, 0.1, 20.0])) for _ in range(nx)],
                shift=[draw(st.sampled_from([0.0, 1.0, -3.0])) for _ in range(nx)],
                labels=draw(st.sampled_from(['0', '1', 'neg', 'gaps', 'float', 'bool'])),
                vector=draw(st.booleans()), alpha=draw(st.sampled_from([0.05, 0.1, 0.4])))


class Ref(object):
    """P(Y <= i) = logistic(theta_i + x beta)"""

    def __init__(self, k, X, K):
        self.k, self.X, self.K = k, X, K

    def cum(self, p, X=None):
        X = self.X if X is None else X
        eta = (X @ p[self.K - 1:])[:, None] + p[:self.K - 1]
        return np.hstack([np.zeros((len(X), 1)), 1 / (1 + np.exp(-eta)), np.ones((len(X), 1))]), eta

    def nll(self, p):
        g = self.cum(p)[0]
        q = np.diff(g, axis=1)[np.arange(self.k.size), self.k]
        return -np.sum(np.log(np.maximum(q, 1e-300)))

    def grad(self, p):
        g = self.cum(p)[0]
        n = self.k.size
        up, lo = g[np.arange(n), self.k + 1], g[np.arange(n), self.k]
        q = up - lo
        dup, dlo = up * (1 - up) / q, lo * (1 - lo) / q
        d = np.zeros(p.size)
        for i in range(self.K - 1):
            d[i] = dup[self.k == i].sum() - dlo[self.k == i + 1].sum()
        d[self.K - 1:] = self.X.T @ (dup - dlo)
        return -d

    def hess(self, p):
        H = np.zeros((p.size, p.size))
        for i in range(p.size):
            h = 1e-5 / (1 if i < self.K - 1 else max(np.abs(self.X[:, i - self.K + 1]).max(), 1e-3))
            e = np.eye(p.size)[i] * h
            H[i] = (self.grad(p + e) - self.grad(p - e)) / (2 * h)
        return (H + H.T) / 2


def make(c):
    r = rs(c['seed'])
    n, nx, K = c['n'], c['nx'], c['K']
    Z = np.round(r.normal(0, 1, (n, nx)), 2)
    eta = Z @ np.array(c['beta']) if nx else np.zeros(n)
    latent = -eta + r.logistic(0, 1, n)
    k = np.digitize(latent, np.quantile(latent, np.arange(1, K) / float(K)))
    X = Z * np.array(c['scale']) + np.array(c['shift'])
    lab = {'0': np.arange(K), '1': np.arange(1, K + 1), 'neg': np.arange(K) - 3, 'gaps': np.arange(K) * 3 + (np.arange(K) > 1),
           'float': np.arange(K) + 0.0, 'bool': np.arange(K)}[c['labels']]
    y = lab[k]
    if c['labels'] == 'bool' and K == 2:
        y = k.astype(bool)
    return X, k, y


def fit(m, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m.fit(*a, **kw)
    return m


@sub('C19', models(), quick=300, shards=4)
def regression(c):
    """non-trivial: covariates and more than two categories, or several covariates"""
    from wafo.stats.core import RegLogit
    X, k, y = make(c)
    K, nx, n = c['K'], c['nx'], c['n']
    ref = Ref(k, X, K)
    s = np.r_[np.ones(K - 1), 1 / np.array(c['scale'])] if nx else np.ones(K - 1)
    t0 = np.log(np.cumsum(np.bincount(k, minlength=K))[:-1] / (n - np.cumsum(np.bincount(k, minlength=K))[:-1]))
    start = np.r_[t0, np.zeros(nx)]
    o = optimize.minimize(lambda v: ref.nll(v * s), start / s, jac=lambda v: ref.grad(v * s) * s, method='BFGS',
                          options=dict(gtol=1e-8, maxiter=500))
    best = o.x * s
    if np.abs(ref.cum(best)[1]).max() > 12 or not np.all(np.isfinite(best)):
        return None                                                    # (nearly) separated data
    yy, XX = (y, X) if c['vector'] else (y.reshape(-1, 1), X)
    if c['vector'] and nx == 1:
        XX = X.ravel()
    b = RegLogit(alpha=c['alpha'])
    args = (yy,) if nx == 0 else (yy, XX)
    with unchanged('RegLogit.fit', *args):
        fit(b, *args)
    p = finite(b.params, 'parameters')
    check(p.shape == (K - 1 + nx,), 'number of parameters', p.shape)
    same(np.r_[np.ravel(b.theta), np.ravel(b.beta)], p, 'theta and beta')
    check(np.all(np.diff(b.theta) > 0), 'theta is not increasing', b.theta)
    check(b.converged, 'not converged')
    check(ref.nll(p) <= ref.nll(best) + 1e-4, 'not the maximum of the likelihood', ref.nll(p), ref.nll(best))
    H = ref.hess(p)
    cov = np.linalg.inv(H)
    sd = np.sqrt(np.diag(cov))
    close(p, best, 0, 5e-3 * sd, 'parameters')
    close(b.deviance, 2 * ref.nll(p), 1e-9, 1e-9, 'deviance')
    close(b.deviance_null, 2 * ref.nll(start), 1e-9, 1e-9, 'null deviance')
    close(b.params_cov, cov, 1e-4, 1e-4 * np.outer(sd, sd), 'covariance')
    close(b.params_std, sd, 1e-4, 0, 'standard errors')
    z = ss.norm.isf(c['alpha'] / 2)
    close(b.params_ci, np.vstack((p - z * b.params_std, p + z * b.params_std)), 1e-9, 1e-9 * sd, 'confidence interval')
    close(b.params_tstat, p / b.params_std, 1e-12, 0, 't statistics')
    close(b.params_pvalue, 2 * ss.norm.sf(np.abs(p / b.params_std)), 1e-7, 1e-12, 'p-values')
    check((b.numk, b.numvar, b.numobs, b.df, b.df_null) == (K, K - 1 + nx, n, max(n - nx - K + 1, 0), n - K + 1), 'counts',
          (b.numk, b.numvar, b.numobs, b.df, b.df_null))
    check(b.family == ('binomial' if K == 2 else 'multinomial') and b.link == 'logit', 'family', b.family)
    # fitted values and prediction
    prob = np.diff(ref.cum(p)[0], axis=1)
    close(b.mu, prob, 1e-9, 1e-12, 'fitted probabilities')
    close(b.predict(), prob, 1e-9, 1e-12, 'predicted probabilities')
    close(b.gamma, prob, 1e-9, 1e-12, 'gamma')
    if c['labels'] != 'gaps':
        res = y - (np.min(y * 1) + prob @ np.arange(K))
        close(np.ravel(b.residual), res, 1e-9, 1e-9, 'residuals')
        sure = np.abs(res) > 1e-9
        dres = np.sign(res) * np.sqrt(-2 * np.log(prob[np.arange(n), k]))
        check(np.size(b.residualD) == n, 'number of deviance residuals', np.shape(b.residualD))
        close(np.ravel(b.residualD)[sure], dres[sure], 1e-8, 1e-10, 'deviance residuals')
        if nx and np.var(prob @ np.arange(K)) > 1e-8:
            close(b.R2, np.corrcoef(y, prob @ np.arange(K))[0, 1] ** 2, 1e-8, 1e-10, 'R2')
    if nx:
        r = rs(c['seed'] + 1)
        Xn = X[r.randint(0, n, 4)] + r.normal(0, 1, (4, nx)) * np.array(c['scale'])
        g, eta = ref.cum(p, Xn)
        out = b.predict(Xn, alpha=c['alpha'], fulloutput=True)
        close(out[0], np.diff(g, axis=1), 1e-9, 1e-12, 'prediction')
        u = np.hstack((np.ones((4, 1)), Xn))
        half = np.zeros((4, K - 1))
        for i in range(K - 1):
            ib = np.r_[i, np.arange(K - 1, K - 1 + nx)]
            half[:, i] = z * np.sqrt(np.einsum('ij,jk,ik->i', u, cov[np.ix_(ib, ib)], u))
        L = lambda v: 1 / (1 + np.exp(-v))
        lo, up = L(eta - half), L(eta + half)
        close(out[1][:, 0], lo[:, 0], 1e-3, 1e-6, 'lower limit of the first category')
        close(out[2][:, 0], up[:, 0], 1e-3, 1e-6, 'upper limit of the first category')
        close(out[1][:, -1], 1 - up[:, -1], 1e-3, 1e-6, 'lower limit of the last category')
        close(out[2][:, -1], 1 - lo[:, -1], 1e-3, 1e-6, 'upper limit of the last category')
        for i in range(1, K - 1):
            w = np.maximum.reduce([up[:, i] - lo[:, i - 1], up[:, i] - up[:, i - 1], lo[:, i] - lo[:, i - 1]])
            close(out[2][:, i], w, 1e-3, 1e-6, 'upper limit of category %d' % i)
        raises(lambda: b.predict(np.hstack((Xn, Xn))), 'wrong number of covariates', ValueError)
    raises(lambda: fit(RegLogit(), yy, X[:-1] if nx else np.ones((n - 1, 1))), 'different numbers of observations', ValueError)
    with contextlib.redirect_stdout(io.StringIO()) as txt:
        b.summary()
        pv = b.anode() if nx else None
    check(txt.getvalue().count('theta_') >= K - 1 and txt.getvalue().count('beta_') == nx, 'summary', txt.getvalue()[:600])
    if nx:
        close(pv, ss.chi2.sf(b.deviance_null - b.deviance, nx), 1e-6, 1e-9, 'analysis of deviance')
    return (nx > 1 or nx and K > 2) and 'K%d nx%d' % (K, nx)


@sub('C19', models(), quick=120, shards=2)
def invariances(c):
    """non-trivial: two or more covariates"""
    from wafo.stats.core import RegLogit
    if c['nx'] == 0:
        c = dict(c, nx=1, beta=[0.5], scale=[1.0], shift=[0.0])
    X, k, y = make(c)
    K, nx, n = c['K'], c['nx'], c['n']
    y = y * 1
    b = fit(RegLogit(), y, X)
    if not b.converged or np.abs(X @ b.beta).max() > 12 or np.any(b.params_std > 50 * np.abs(b.params) + 50):
        return None
    sd = b.params_std
    tol = 5e-3 * sd
    q = fit(RegLogit(), y + 7, X)
    close(q.params, b.params, 0, tol, 'shifted categories')
    q = fit(RegLogit(), -y, X)
    close(q.params, np.r_[-b.theta[::-1], -b.beta], 0, np.r_[tol[:K - 1][::-1], tol[K - 1:]], 'reversed categories')
    a = np.array([2.0, 0.5, 3.0])[:nx]
    q = fit(RegLogit(), y, X * a)
    close(q.params, np.r_[b.theta, b.beta / a], 0, tol / np.r_[np.ones(K - 1), a], 'scaled covariates')
    q = fit(RegLogit(), y[::-1], X[::-1, ::-1])
    close(q.params, np.r_[b.theta, b.beta[::-1]], 0, np.r_[tol[:K - 1], tol[K - 1:][::-1]], 'permuted data')
    q = fit(RegLogit(), y, X, theta0=b.theta + 0.05, beta0=b.beta * 0.9)
    close(q.params, b.params, 0, tol, 'other start values')
    close(q.deviance_null, b.deviance_null, 1e-9, 0, 'null deviance with other start values')
    # colinear covariates are dropped
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        q = RegLogit()
        q.fit(y, np.hstack((X[:, :1] * 2, X)))
    check(any('ingular' in str(v.message) for v in w), 'no warning for colinear covariates')
    close(q.deviance, b.deviance, 1e-5, 1e-5, 'deviance with a colinear covariate')
    close(q.predict(), b.predict(), 0, 1e-2, 'probabilities with a colinear covariate')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        RegLogit().fit(y, X)
    check(not any('ingular' in str(v.message) for v in w), 'warning although the covariates are independent')
    # comparison of nested models
    small = fit(RegLogit(), y, X[:, :nx - 1]) if nx > 1 else fit(RegLogit(), y)
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        p1 = small.compare(b)
        p2 = b.compare(small)
    check(not any('rubbish' in str(v.message) for v in w), 'nested models reported as not nested')
    close([p1, p2], [ss.chi2.sf(small.deviance - b.deviance, 1)] * 2, 1e-6, 1e-9, 'comparison')
    if nx > 1:
        other = fit(RegLogit(), y, X[:, -1:] + np.linspace(0, 1, n)[:, None] ** 2)
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            b.compare(other)
        check(any('rubbish' in str(v.message) for v in w), 'no warning for models that are not nested')
    raises(lambda: b.compare(3), 'comparison with a number', ValueError)
    return nx >= 2
