"""Expert covariance predictors and the convex-solver stand-in, shared by the
combination checks."""
import cvxpy as cvx
import pandas as pd

from symex import cvxs
from .lib import *

CO = "cvx.covariance.combination"


# not in alphabetical order: results must not depend on the order of the names
KEYS = ["q", "d", "x", "b", "k", "a", "z", "c", "m", "g", "y", "h"]


class Experts:
    """K experts with arbitrary positive definite predictions, given by the
    Cholesky factor of their inverse (every positive definite matrix has exactly
    one), and arbitrary means"""

    def __init__(self, h, T, n, K, means=True, keys=None, tag="", start=None):
        self.h, self.T, self.n, self.K = h, T, n, K
        self.keys = keys or KEYS[:K]
        self.dates = days(T)
        self.assets = names(n)
        self.L, self.mu = {}, {}
        self.start = start or [0] * K
        for k in range(K):
            for t in range(self.start[k], T):
                L = [[0] * n for _ in range(n)]
                for i in range(n):
                    for j in range(i + 1):
                        L[i][j] = h.real(f"{tag}L{k}_{t}_{i}{j}", sgn="+" if i == j else None)
                self.L[k, t] = L
                self.mu[k, t] = [h.real(f"{tag}m{k}_{t}_{i}") for i in range(n)] if means else [0] * n
        self.means = means
        self.r = [[h.real(f"{tag}r_{t}_{i}") for i in range(n)] for t in range(T)]

    @classmethod
    def shaped(cls, h, T, n, K, means=True, keys=None, tag=""):
        """fixed shapes in arbitrary units: asset i is measured in 1/u_i"""
        X = cls.__new__(cls)
        X.h, X.T, X.n, X.K, X.means = h, T, n, K, means
        X.keys = keys or KEYS[:K]
        X.dates, X.assets, X.start = days(T), names(n), [0] * K
        u = [h.real(f"{tag}unit{i}", sgn="+") for i in range(n)]
        inv = [1 / x for x in u]
        X.L, X.mu = {}, {}
        for k in range(K):
            d = h.shaped(f"{tag}D{k}", T, n, units=inv, lo=0.5, hi=2)
            o = h.shaped(f"{tag}O{k}", T, n * n, units=[x for x in inv for _ in range(n)])
            m = h.shaped(f"{tag}M{k}", T, n, units=u)
            for t in range(T):
                X.L[k, t] = [[d[t][i] if i == j else o[t][i * n + j] if j < i else 0 for j in range(n)] for i in range(n)]
                X.mu[k, t] = [m[t][i] for i in range(n)] if means else [0] * n
        X.r = [list(x) for x in h.shaped(f"{tag}R", T, n, units=u)]
        return X

    def copy(self):
        import copy

        c = copy.copy(self)
        c.L, c.mu, c.r = dict(self.L), dict(self.mu), [list(x) for x in self.r]
        return c

    def cov(self, k, t):
        L, n = self.L[k, t], self.n
        # inverse of L (lower triangular), then Sigma = L^-T L^-1
        M = [[0] * n for _ in range(n)]
        for j in range(n):
            M[j][j] = 1 / L[j][j]
            for i in range(j + 1, n):
                M[i][j] = -self.h.sum(L[i][q] * M[q][j] for q in range(j, i)) / L[i][i]
        return [[self.h.sum(M[q][i] * M[q][j] for q in range(max(i, j), n)) for j in range(n)] for i in range(n)]

    def sigmas(self):
        h = self.h
        return {key: {self.dates[t]: h.frame(self.cov(k, t), self.assets, self.assets) for t in range(self.start[k], self.T)} for k, key in enumerate(self.keys)}

    def mean_dict(self):
        h = self.h
        return {key: {self.dates[t]: h.series(self.mu[k, t], self.assets) for t in range(self.start[k], self.T)} for k, key in enumerate(self.keys)}

    def returns(self):
        return self.h.frame(self.r, self.dates, self.assets)

    def build(self, m):
        if self.means:
            return m.from_sigmas(self.sigmas(), self.returns(), means=self.mean_dict())
        return m.from_sigmas(self.sigmas(), self.returns())

    # ---- reference
    def resid(self, k, t):
        """L_k(t-1)' (r_t - mu_k(t-1))"""
        L, mu = self.L[k, t - 1], self.mu[k, t - 1]
        d = [self.r[t][i] - mu[i] for i in range(self.n)]
        return [self.h.sum(L[i][j] * d[i] for i in range(j, self.n)) for j in range(self.n)]

    def gram(self, ts):
        res = {(k, t): self.resid(k, t) for k in range(self.K) for t in ts}
        return [[self.h.sum(res[a, t][j] * res[b, t][j] for t in ts for j in range(self.n)) for b in range(self.K)] for a in range(self.K)]

    def regular(self, ts):
        """precondition: the experts' standardised errors over the window are
        linearly independent"""
        G = self.gram(ts)
        self.h.assume(G[0][0] > 0)
        if self.K == 2:
            self.h.assume(G[0][0] * G[1][1] - G[0][1] * G[1][0] > 0)
        elif self.K == 3:
            self.h.assume(G[0][0] * G[1][1] - G[0][1] * G[1][0] > 0)
            d = (G[0][0] * (G[1][1] * G[2][2] - G[1][2] * G[2][1]) - G[0][1] * (G[1][0] * G[2][2] - G[1][2] * G[2][0])
                 + G[0][2] * (G[1][0] * G[2][1] - G[1][1] * G[2][0]))
            self.h.assume(d > 0)

    def loglik(self, w, ts):
        """window log-likelihood of the combined predictor (constants dropped)"""
        h = self.h
        t1, t2 = 0, 0
        for t in ts:
            for j in range(self.n):
                t1 = t1 + h.log(h.sum(w[k] * self.L[k, t - 1][j][j] for k in range(self.K)))
                q = h.sum(w[k] * self.resid(k, t)[j] for k in range(self.K))
                t2 = t2 + q * q
        return t1 - t2 / 2

    def blend(self, w, t):
        """-> (precision factor, mean) of the combined prediction made at t"""
        h, n = self.h, self.n
        L = [[h.sum(w[k] * self.L[k, t][i][j] for k in range(self.K)) if j <= i else 0 for j in range(n)] for i in range(n)]
        nu = [h.sum(w[k] * self.L[k, t][i][j] * self.mu[k, t][i] for k in range(self.K) for i in range(j, n)) for j in range(n)]
        # solve L' x = nu
        x = [0] * n
        for j in reversed(range(n)):
            x[j] = (nu[j] - h.sum(L[i][j] * x[i] for i in range(j + 1, n))) / L[j][j]
        return L, x


def simplex_weights(h, name, K):
    """weights a solver may return: positive, summing to one"""
    u = [h.real(f"{name}{k}", sgn="+") for k in range(K)]
    s = h.sum(u)
    return [x / s for x in u]


def weight_var(h, prob, K):
    vs = prob.variables()
    if len(vs) != 1 or vs[0].size != K:
        h.fail("decision variable", f"{[v.shape for v in vs]}")
    return vs[0]


class Opaque:
    """an arbitrary deterministic solver: equal problems get equal weights,
    problems that differ get unrelated weights (harness inputs).  Problems are
    compared by their objective at fixed points."""

    def __init__(self, h, K, fail=None):
        self.h, self.K, self.fail = h, K, fail
        if not hasattr(h, "opaque_seen"):
            h.opaque_seen = []
        self.seen = h.opaque_seen

    def equal(self, a, b):
        for x, y in zip(a, b):
            if self.h.symbolic:
                d = x - y
                if not self.h.path.zero(d):
                    return False
            elif not abs(x - y) <= 1e-8 * (abs(x) + abs(y) + 1e-8):
                return False
        return True

    def __call__(self, prob, i, kw):
        h, K = self.h, self.K
        v = weight_var(h, prob, K)
        sig = []
        for pt in ([1] * K, [1] + [2] * (K - 1)):
            cvxs.assign(v, pt)
            s, x = cvxs.objective(prob)
            sig.append(x if s == "max" else -x)
        for k, (old, w) in enumerate(self.seen):
            if self.equal(old, sig):
                break
        else:
            k = len(self.seen)
            w = simplex_weights(h, f"solver{k}_", K)
            self.seen.append((sig, w))
        if self.fail is not None and self.fail(k, i):
            raise cvx.SolverError("stand-in failure")
        cvxs.assign(v, w)


def chol_precision(h, S, n):
    """Cholesky factor of the inverse of a covariance estimate (n <= 2)"""
    if n == 1:
        return [[1 / h.sqrt(S[0][0])]]
    d = S[0][0] * S[1][1] - S[0][1] * S[1][0]
    h.assume(d > 0)
    P = [[S[1][1] / d, -S[0][1] / d], [-S[1][0] / d, S[0][0] / d]]
    a = h.sqrt(P[0][0])
    return [[a, 0], [P[1][0] / a, h.sqrt(1 / (d * P[0][0]))]]


def regular_estimates(h, S, M, R, window, n):
    """precondition on estimates {key: {date: frame}}: invertible, and
    independent standardised errors in every window"""
    keys = list(S)
    dates = list(S[keys[0]])
    L = {(k, t): chol_precision(h, S[k][t].to_numpy(), n) for k in keys for t in dates}
    res = {}
    for a, b in zip(dates, dates[1:]):
        for k in keys:
            d = [R.loc[b].iloc[i] - M[k][a].iloc[i] for i in range(n)]
            res[k, b] = [h.sum(L[k, a][i][j] * d[i] for i in range(j, n)) for j in range(n)]
    ts = dates[1:]
    for i in range(window - 1, len(ts)):
        G = [[h.sum(x * y for t in ts[i - window + 1 : i + 1] for x, y in zip(res[a, t], res[b, t])) for b in keys] for a in keys]
        h.assume(G[0][0] > 0)
        if len(keys) == 2:
            h.assume(G[0][0] * G[1][1] - G[0][1] * G[1][0] > 0)
