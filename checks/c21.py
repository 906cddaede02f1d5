"""Gaussian log-likelihoods: one formula behind every helper, correct pairing
of predictions with the next return."""
import random
from fractions import Fraction

from .lib import *
from .reg import Cov as CorrCov

BOUNDS = "1-2 assets, 2-3 dates (formula and pairing), one factor with 2 assets (factor models); covariances, means, returns, scale symbolic; predictions for any block of final dates, with gaps or out of order; 4-12 dates of 3-6 assets, 1-3 factors, with fixed shapes and symbolic units; 60 dates of one asset"
EU = "experiments.utils.experiment_utils"
FM = "experiments.utils.factor_model"
TWO_PI = 2 * np.pi


class Cov:
    """positive definite matrix with its determinant and quadratic form"""

    def __init__(self, h, name, n):
        self.h, self.n = h, n
        self.C = [[h.real(f"{name}_{i}{j}", sgn="+" if i == j else None) if j <= i else 0 for j in range(n)] for i in range(n)]

    def m(self):
        C, n, h = self.C, self.n, self.h
        return [[h.sum(C[i][k] * C[j][k] for k in range(min(i, j) + 1)) for j in range(n)] for i in range(n)]


def ll(h, x, S):
    """log density of N(0, S) at x"""
    n = len(x)
    if n == 1:
        det, q = S[0][0], x[0] * x[0] / S[0][0]
    else:
        det = S[0][0] * S[1][1] - S[0][1] * S[1][0]
        q = (x[0] * x[0] * S[1][1] - x[0] * x[1] * (S[0][1] + S[1][0]) + x[1] * x[1] * S[0][0]) / det
    return -n / 2 * h.log(TWO_PI) - h.log(det) / 2 - q / 2


def formula(h):
    """log_likelihood / log_likelihood_sequential: density of each return under
    its own mean and covariance, of the scaled data"""
    m = h.mod(EU)
    n, T = h.p["n"], h.p["T"]
    S = [Cov(h, f"s{t}", n).m() for t in range(T)]
    r, mu = h.reals("r", (T, n)), h.reals("m", (T, n))
    c = h.real("c", sgn="+") if h.bool("scaled") else 1
    withm = h.bool("means")
    fn = h.choice("function", [m.log_likelihood, m.log_likelihood_sequential])
    k = dict(means=h.array(mu)) if withm else {}
    if not (isinstance(c, int) and c == 1):
        k["scale"] = c
    out = fn(h.array(r), h.array(S), **k)
    h.same("length", len(out), T)
    for t in range(T):
        x = [c * (r[t][i] - (mu[t][i] if withm else 0)) for i in range(n)]
        h.eq(f"date {t}", out[t], ll(h, x, [[c * c * v for v in row] for row in S[t]]))


def table(h, T, n, labels):
    return h.frame(h.reals("r", (T, n)), days(T), labels)


def labels(h, n):
    return h.choice("labels", [names(n), [30, 10, 20][:n]])


def covered(h, T):
    """the dates that have a prediction, in the order given"""
    return h.choice("covered", [list(range(f, T)) for f in range(T)] + ([[0, 2], [2, 0, 1], [1, 0]] if T > 2 else []))


def dense(h):
    """log_likelihood_regularized without rank: prediction t scored against
    return t+1; the last date has nothing to score"""
    m = h.mod(EU)
    n, T = h.p["n"], h.p["T"]
    u, d = labels(h, n), days(T)
    R = table(h, T, n, u)
    S = {t: Cov(h, f"s{t}", n).m() for t in covered(h, T)}
    mu = h.reals("m", (T, n))
    withm = h.bool("means")
    out = m.log_likelihood_regularized(R, {d[t]: h.frame(S[t], u, u) for t in S}, **(dict(means=h.frame(mu, d, u)) if withm else {}))
    h.same("dates", list(out.index), [d[t] for t in S if t < T - 1])
    r = R.to_numpy()
    for t in S:
        if t < T - 1:
            h.eq(f"date {t}", out.loc[d[t]], ll(h, [r[t + 1][i] - (mu[t][i] if withm else 0) for i in range(n)], S[t]))


def lowrank(h):
    """log_likelihood_low_rank: same, covariance given by loadings and diagonal"""
    m = h.mod(EU)
    n, T = h.p["n"], h.p["T"]
    k = h.p["k"]
    u, d = labels(h, n), days(T)
    L = h.mod("cvx.covariance.regularization").LowRankDiag
    R = table(h, T, n, u)
    S, X = {}, {}
    for t in covered(h, T):
        F = h.reals(f"F{t}", (n, k))
        D = [h.real(f"D{t}_{i}", sgn="+") for i in range(n)]
        X[d[t]] = L(F=h.frame(F, u), d=h.series(D, u))
        S[t] = [[h.sum(F[i][q] * F[j][q] for q in range(k)) + (D[i] if i == j else 0) for j in range(n)] for i in range(n)]
    mu = h.reals("m", (T, n))
    withm = h.bool("means")
    out = m.log_likelihood_low_rank(R, X, **(dict(means=h.frame(mu, d, u)) if withm else {}))
    h.same("dates", list(out.index), [d[t] for t in S if t < T - 1])
    r = R.to_numpy()
    for t in S:
        if t < T - 1:
            h.eq(f"date {t}", out.loc[d[t]], ll(h, [r[t + 1][i] - (mu[t][i] if withm else 0) for i in range(n)], S[t]))


def regularized(h):
    """log_likelihood_regularized(r): scores the rank-r regularised covariance"""
    m = h.mod(EU)
    rg = h.mod("cvx.covariance.regularization")
    n, T = 2, h.p["T"]
    u, d = names(n), days(T)
    R = table(h, T, n, u)
    C = covered(h, T)
    S = {d[t]: CorrCov(h, n, f"s{t}").sigma() for t in C}
    mu = h.reals("m", (T, n))
    withm = h.bool("means")
    k = dict(means=h.frame(mu, d, u)) if withm else {}
    with h.regular():
        reg = dict(rg.regularize_covariance(S, r=1))
        out = m.log_likelihood_regularized(R, S, r=1, **k)
        ref = m.log_likelihood_regularized(R, reg, **k)
    h.eq("regularised", out, ref)
    h.same("dates", list(out.index), [d[t] for t in C if t < T - 1])


def em(h):
    """em_low_rank_log_likelihood(rank): scores the EM model started at the
    rank-r regularised covariance"""
    m = h.mod(EU)
    rg = h.mod("cvx.covariance.regularization")
    n, T, r = 3, 3, h.int("r", 1, 2)
    u, d = names(n), days(T)
    R = table(h, T, n, u)
    X = [[[4, 1, 0.5], [1, 3, -0.5], [0.5, -0.5, 2]], [[2, -1, 0.25], [-1, 5, 1], [0.25, 1, 3]], [[1, 0.5, 0], [0.5, 1, 0.25], [0, 0.25, 1]]]
    S = {d[t]: pd.DataFrame(X[t], u, u).astype(float) for t in range(T)}
    ref = m.log_likelihood_low_rank(R, dict(rg.em_regularize_covariance(S, dict(rg.regularize_covariance(S, r=r, low_rank_format=True)))))
    out = m.em_low_rank_log_likelihood(R, S, r)
    h.same("dates", list(out.index), d[:-1])
    h.eq("em", out, ref)


def factor(h):
    """factor_log_likelihood and the assembled covariance: exposure' cov
    exposure + diagonal, scored against the next return"""
    m = h.mod(FM)
    k, n, T = h.p["k"], 2, h.p["T"]
    u, f, d = names(n), ["f", "g"][:k], days(T)
    R = table(h, T, n, u)
    items, S = [], {}
    for t in range(T):
        B = h.reals(f"B{t}", (k, n))
        O = Cov(h, f"o{t}", k).m()
        D = [h.real(f"D{t}_{i}", sgn="+") for i in range(n)]
        items.append(m.FactorModel(d[t], h.frame(B, f, u), h.frame(O, f, f), h.series(D, u)))
        S[t] = [[h.sum(B[a][i] * O[a][b] * B[b][j] for a in range(k) for b in range(k)) + (D[i] if i == j else 0) for j in range(n)] for i in range(n)]
    order = h.choice("order", [list(range(T)), list(range(T))[::-1]])
    full = m.from_factor_to_full_covariance([items[t] for t in order])
    h.same("dates", list(full), [d[t] for t in order])
    for t in range(T):
        h.eq("covariance", full[d[t]], h.frame(S[t], u, u))
    score = [t for t in order if t < T - 1]
    out = m.factor_log_likelihood(R, [items[t] for t in score])
    h.same("dates", list(out.index), [d[t] for t in score])
    r = R.to_numpy()
    for t in score:
        h.eq(f"date {t}", out.loc[d[t]], ll(h, list(r[t + 1]), S[t]))


class Units:
    """n assets over T dates, fixed shapes in arbitrary units"""

    def __init__(self, h, T, n, k=None):
        self.h, self.T, self.n = h, T, n
        self.u = u = [h.real(f"unit{i}", sgn="+") for i in range(n)]
        self.r = [list(x) for x in h.shaped("R", T, n, units=u)]
        self.m = [list(x) for x in h.shaped("M", T, n, units=u)]
        x = (lambda q: q) if h.symbolic else float
        g = random.Random(f"{T}{n}{k}")
        q = lambda: Fraction(g.randint(-100, 100), 100)
        self.S, self.F, self.D, self.N = [], [], [], []
        for t in range(T):
            C = [[q() if j < i else 1 + abs(q()) if i == j else 0 for j in range(n)] for i in range(n)]
            if k is not None:
                C = [[q() for _ in range(k)] for _ in range(n)]
            d = [1 + abs(q()) if k is not None else 0 for _ in range(n)]
            N = [[sum(C[i][a] * C[j][a] for a in range(len(C[0]))) + (d[i] if i == j else 0) for j in range(n)] for i in range(n)]
            self.N.append([[x(v) for v in row] for row in N])
            self.S.append([[u[i] * u[j] * x(N[i][j]) for j in range(n)] for i in range(n)])
            self.F.append([[u[i] * x(v) for v in C[i]] for i in range(n)])
            self.D.append([u[i] ** 2 * x(d[i]) for i in range(n)])

    def score(self, t, ret, mean):
        """log density of the return in terms of the fixed shape"""
        h, n = self.h, self.n
        y = [(ret[i] - (mean[i] if mean else 0)) / self.u[i] for i in range(n)]
        N = h.array(self.N[t])
        I = np.linalg.inv(N)
        q = h.sum(y[i] * I[i, j] * y[j] for i in range(n) for j in range(n))
        ld = h.log(np.linalg.det(N)) + 2 * h.sum(h.log(v) for v in self.u)
        return -n / 2 * h.log(TWO_PI) - ld / 2 - q / 2


def larger(h):
    """more assets and dates, fixed shapes in arbitrary units: every helper
    scores prediction t against return t+1"""
    m = h.mod(EU)
    T, n, k = h.p["T"], h.p["n"], h.p["k"]
    X = Units(h, T, n, k)
    u, d = names(n), days(T)
    R, M = h.frame(X.r, d, u), h.frame(X.m, d, u)
    withm = h.bool("means")
    kind = h.choice("helper", ["dense", "low rank", "arrays", "sequential"])
    a = dict(means=M) if withm else {}
    first = h.int("first", 0, 2)
    if kind == "dense":
        out = m.log_likelihood_regularized(R, {d[t]: h.frame(X.S[t], u, u) for t in range(first, T)}, **a)
    elif kind == "low rank":
        L = h.mod("cvx.covariance.regularization").LowRankDiag
        out = m.log_likelihood_low_rank(R, {d[t]: L(F=h.frame(X.F[t], u), d=h.series(X.D[t], u)) for t in range(first, T)}, **a)
    else:
        fn = m.log_likelihood if kind == "arrays" else m.log_likelihood_sequential
        out = fn(h.array(X.r), h.array(X.S), **(dict(means=h.array(X.m)) if withm else {}))
        h.same("length", len(out), T)
        for t in range(T):
            h.eq(f"date {t}", out[t], X.score(t, X.r[t], X.m[t] if withm else None))
        return
    h.same("dates", list(out.index), d[first:-1])
    for t in range(first, T - 1):
        h.eq(f"date {t}", out.loc[d[t]], X.score(t, X.r[t + 1], X.m[t] if withm else None))


CASES = [
    dict(name="formula_1", fn=formula, params=dict(n=1, T=2)),
    dict(name="formula_2", fn=formula, params=dict(n=2, T=2), thorough=dict(T=3)),
    dict(name="dense_1", fn=dense, params=dict(n=1, T=3), thorough=dict(T=4)),
    dict(name="dense_2", also=[dict(T=1), dict(T=2)], fn=dense, params=dict(n=2, T=3), thorough=dict(T=4)),
    dict(name="lowrank_1", fn=lowrank, params=dict(n=1, k=1, T=3)),
    dict(name="lowrank_21", also=[dict(T=2)], fn=lowrank, params=dict(n=2, k=1, T=3)),
    dict(name="lowrank_22", fn=lowrank, params=dict(n=2, k=2, T=2)),
    dict(name="regularized", fn=regularized, params=dict(T=3), thorough=dict(T=4)),
    dict(name="em", fn=em, params=dict()),
    dict(name="factor_1", fn=factor, params=dict(k=1, T=2), thorough=dict(T=3)),
    dict(name="factor_2", fn=factor, params=dict(k=2, T=2)),
    dict(name="larger", fn=larger, params=dict(T=6, n=4, k=2), also=[dict(T=4, n=6, k=1), dict(T=12, n=3, k=3), dict(T=60, n=1, k=1)], thorough=dict(T=10)),
]
