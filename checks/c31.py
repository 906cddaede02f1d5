"""Combination of return predictors: decayed ridge regression, feature
construction, the constrained older variant, uncertainty of the mean."""
import contextlib
import io

from symex import cvxs
from . import long
from .lib import *

RC = "experiments.utils.return_combination"
TM = "experiments.utils.trading_model"
BOUNDS = "1-2 assets, 1-2 predictors, 3-5 dates, memory 1-3; returns, predictions, regularisation symbolic (half-lives 500, 250, 125 as in the code); 6-9 dates, 2-3 assets and predictors with fixed shapes and symbolic units, returns on extra dates; lags and averages over 30 dates, uncertainties over 20 dates of 3 assets; 290 dates of one asset, memories up to 560 dates"


def quiet():
    return contextlib.redirect_stderr(io.StringIO())


def fit(h):
    n, K, T = h.p["n"], h.p["K"], h.p["T"]
    m = h.mod(RC)
    u, d = names(n), days(T + 1)
    lab = ["p", "q", "s"][:K]
    r = h.reals("r", (T + 1, n))
    P = [h.reals(f"p{i}_", (T, K), nz=True) for i in range(n)]
    memory = h.int("memory", 1, min(h.p["memory"], T - 1))
    alpha = h.real("alpha", sgn="+")
    # the returns may start before the predictions
    early = h.bool("extra return")
    R = h.frame(r if early else r[1:], d if early else d[1:], u)
    F = [h.frame(P[i], d[1:], lab) for i in range(n)]
    rr = r[1:]
    before = R.copy(), [f.copy() for f in F]
    with quiet():
        hats, W = m.ReturnCombinator().fit(R, F, memory, alpha)
    h.same("dates", list(hats.index), d[1 + memory :])
    h.same("assets", list(hats.columns), u)
    b5, b2 = h.beta(500), h.beta(250)
    for i in range(n):
        h.same(f"weights {i}", (list(W[i].index), list(W[i].columns)), (d[1 + memory :], lab))
        for j, t in enumerate(range(memory, T)):
            win = list(range(t - memory, t))
            dec = [b5 ** (t - 1 - s) for s in win]
            tot = h.sum(dec)
            dec = [x / tot * len(win) for x in dec]
            w = [W[i].iloc[j, k] for k in range(K)]
            for k in range(K):
                sc = ref_ewma(h, [P[i][s][k] ** 2 for s in range(t)], b2)
                lhs = h.sum(h.sum(dec[q] * P[i][s][k] * P[i][s][l] for q, s in enumerate(win)) * w[l] for l in range(K)) + alpha * sc * w[k]
                h.eq(f"asset {i} date {t} predictor {k}", lhs, h.sum(dec[q] * P[i][s][k] * rr[s][i] for q, s in enumerate(win)))
            h.eq(f"asset {i} date {t} forecast", hats.iloc[j, i], h.sum(w[k] * P[i][t][k] for k in range(K)))
    h.elements("returns kept", R, before[0])
    for i in range(n):
        h.elements("predictions kept", F[i], before[1][i])


def lasso(h):
    """the l1-regularised variants: problem data of each date, weights, forecast"""
    K, T = h.p["K"], h.p["T"]
    m = h.mod(RC)
    d = days(T)
    lab = ["p", "q"][:K]
    r = h.reals("r", (T,))
    P = h.reals("p", (T, K))
    memory = h.int("memory", 1, T - 1)
    alpha = h.choice("alpha", [0.5, 2])
    R, F = h.series(r, d), h.frame(P, d, lab)
    A = []

    def on_solve(prob, c, kw):
        (v,) = prob.variables()
        x = [h.real(f"x{c}_{k}") for k in range(K)]
        cvxs.assign(v, x)
        sense, obj = cvxs.objective(prob)
        h.same("sense", sense, "min")
        A.append((x, obj, cvxs.feasible(h, prob)))

    with cvxs.standin(h, on_solve), quiet():
        if h.bool("class"):
            c = m.ReturnCombinatorOld()
            c.build(memory, K, alpha)
            if h.bool("returns on other dates"):
                q = days(T + 2, "2021-02-28") if h.bool("around") else [d[0] + (d[1] - d[0]) / 2, *d]
                q = sorted(q)
                R = h.series([r[d.index(x)] if x in d else 7 for x in q], q)
            hats, W = c.fit(R, F)
        else:
            hats, W = m.ewma_return_combination(R, F, alpha, memory)
    h.same("dates", list(W.index), d[memory:])
    h.same("forecast dates", list(hats.index), d[memory:])
    h.same("solves", len(A), T - memory)
    for j, t in enumerate(range(memory, T)):
        x, obj, ok = A[j]
        h.true("unconstrained", ok)
        h.eq(f"{t} objective", obj, h.sum((r[s] - h.sum(P[s][k] * x[k] for k in range(K))) ** 2 for s in range(t - memory, t)) + alpha * h.sum(h.abs(v) for v in x))
        h.eq(f"{t} weights", [W.iloc[j, k] for k in range(K)], x)
        h.eq(f"{t} forecast", hats.iloc[j], h.sum(P[t][k] * x[k] for k in range(K)))


def features(h):
    """positive and negative parts; lagged and averaged returns are causal"""
    m = h.mod(RC)
    T, K = h.p["T"], h.p["K"]
    d = days(T)
    P = h.reals("p", (T, K))
    F = h.frame(P, d, names(K))
    G = m.feature_engineer(F)
    h.same("shape", np.shape(G), (T, 2 * K))
    h.same("dates", list(G.index), d)
    h.eq("input kept", F.values, h.array(P))
    for t in range(T):
        for k in range(K):
            h.eq(f"positive part {t} {k}", G.iloc[t, k], h.max(P[t][k], 0))
            h.eq(f"negative part {t} {k}", G.iloc[t, K + k], h.min(P[t][k], 0))


def predictors(h):
    m = h.mod(RC)
    T = h.p["T"]
    d = days(T)
    r = h.reals("r", (T,))
    R = h.series(r, d)
    L = m.daily_predictors(R, [1, 2])
    h.same("lag dates", list(L.index), d)
    for t in range(T):
        for g in (1, 2):
            v = L[g].iloc[t]
            if t < g:
                h.true(f"lag {g} {t} missing", h.isnan(v))
            else:
                h.eq(f"lag {g} {t}", v, r[t - g])
    E = m.ewma_predictors(R, [1, 21])
    h.same("average dates", list(E.index), d[1:])
    for t in range(1, T):
        for g in (1, 21):
            h.eq(f"average {g} {t}", E[g].iloc[t - 1], ref_ewma(h, [r[s] for s in range(t)], h.beta(g)))


def uncertainty(h):
    """rho: n_devs exponentially weighted standard deviations of the past"""
    m = h.mod(TM)
    T, n = h.p["T"], h.p["n"]
    d, u = days(T), names(n)
    r = h.reals("r", (T, n))
    k = h.real("deviations", sgn="+")
    X = m.construct_rho(h.frame(r, d, u), k)
    h.same("labels", (list(X.index), list(X.columns)), (d, u))
    b = h.beta(125)
    for t in range(T):
        for i in range(n):
            x = X.iloc[t, i]
            if t < 2:
                h.eq(f"{t} {i}", x, 0)
                continue
            w = [b ** (t - 1 - s) for s in range(t)]
            tot, sq = h.sum(w), h.sum(v * v for v in w)
            mean = h.sum(w[s] * r[s][i] for s in range(t)) / tot
            var = h.sum(w[s] * (r[s][i] - mean) ** 2 for s in range(t)) / tot * (tot * tot) / (tot * tot - sq)
            h.eq(f"{t} {i}", x * x, k * k * var)
            h.ge0(f"{t} {i} sign", x)


def longer(h):
    """more assets, predictors and dates: fixed shapes in arbitrary units,
    returns on more dates than there are predictions"""
    n, K, T = h.p["n"], h.p["K"], h.p["T"]
    m = h.mod(RC)
    u, lab = names(n), ["p", "q", "s", "t"][:K]
    memory = h.choice("memory", h.p["memory"])
    alpha = h.real("alpha", sgn="+") if h.p["alpha"] is None else h.choice("alpha", h.p["alpha"])
    au = [h.real(f"return_unit{i}", sgn="+") for i in range(n)]
    pu = [h.real(f"predictor_unit{k}", sgn="+") for k in range(K)]
    extra = h.choice("dates without predictions", [[], [0], [0, 3, T + 1], [2, 4]])
    allday = days(T + len(extra))
    d = [x for i, x in enumerate(allday) if i not in extra]
    r = h.shaped("r", T + len(extra), n, units=au)
    P = [h.shaped(f"p{i}_", T, K, units=pu) for i in range(n)]
    rr = [list(x) for i, x in enumerate(r) if i not in extra]
    R = h.frame(r, allday, u)
    F = [h.frame(P[i], d, lab) for i in range(n)]
    with quiet():
        hats, W = m.ReturnCombinator().fit(R, F, memory, alpha)
    h.same("dates", list(hats.index), d[memory:])
    h.same("assets", list(hats.columns), u)
    b5, b2 = h.beta(500), h.beta(250)
    for i in range(n):
        h.same(f"weights {i}", (list(W[i].index), list(W[i].columns)), (d[memory:], lab))
        for j, t in enumerate(range(memory, T)):
            win = list(range(t - memory, t))
            dec = [b5 ** (t - 1 - s) for s in win]
            tot = h.sum(dec)
            dec = [x / tot * len(win) for x in dec]
            w = [W[i].iloc[j, k] for k in range(K)]
            for k in range(K):
                sc = ref_ewma(h, [P[i][s][k] ** 2 for s in range(t)], b2)
                lhs = h.sum(h.sum(dec[q] * P[i][s][k] * P[i][s][l] for q, s in enumerate(win)) * w[l] for l in range(K)) + alpha * sc * w[k]
                h.eq(f"asset {i} date {t} predictor {k}", lhs, h.sum(dec[q] * P[i][s][k] * rr[s][i] for q, s in enumerate(win)))
            h.eq(f"asset {i} date {t} forecast", hats.iloc[j, i], h.sum(w[k] * P[i][t][k] for k in range(K)))


def long_predictors(h):
    """many dates: lags and averages use the past only, uncertainty likewise"""
    m, tm = h.mod(RC), h.mod(TM)
    T = h.p["T"]
    d = days(T)
    x = [row[0] for row in h.shaped("r", T, 1, free=[(-1, 0)])]
    R = h.series(x, d)
    lags = [1, 3, T - 1]
    L = m.daily_predictors(R, lags)
    h.same("lag dates", list(L.index), d)
    for t in range(T):
        for g in lags:
            v = L[g].iloc[t]
            if t < g:
                h.true(f"lag {g} {t} missing", h.isnan(v))
            else:
                h.eq(f"lag {g} {t}", v, x[t - g])
    E = m.ewma_predictors(R, [1, 5, 250])
    h.same("average dates", list(E.index), d[1:])
    for t in range(1, T):
        for g in (1, 5, 250):
            h.eq(f"average {g} {t}", E[g].iloc[t - 1], ref_ewma(h, x[:t], h.beta(g)))


def long_uncertainty(h):
    m = h.mod(TM)
    T, n = h.p["T"], h.p["n"]
    d, u = days(T), names(n)
    r = h.shaped("r", T, n)
    k = h.choice("deviations", [None, 0.5])
    X = m.construct_rho(h.frame(r, d, u), *([] if k is None else [k]))
    k = k or 2
    b = h.beta(125)
    for t in range(T):
        for i in range(n):
            x = X.iloc[t, i]
            if t < 2:
                h.eq(f"{t} {i}", x, 0)
                continue
            w = [b ** (t - 1 - s) for s in range(t)]
            tot, sq = h.sum(w), h.sum(v * v for v in w)
            mean = h.sum(w[s] * r[s][i] for s in range(t)) / tot
            var = h.sum(w[s] * (r[s][i] - mean) ** 2 for s in range(t)) / tot * (tot * tot) / (tot * tot - sq)
            h.eq(f"{t} {i}", x * x, k * k * var)
            h.ge0(f"{t} {i} sign", x)


def years(h):
    """years of data: lags, averages and uncertainty at some dates"""
    m, tm = h.mod(RC), h.mod(TM)
    T = h.p["T"]
    d = days(T)
    x, (unit,), y = long.table(h, "r", T, 1)
    R = h.series([v[0] for v in y], d)
    L = m.daily_predictors(R, [1, 21, 252])
    h.same("lag dates", list(L.index), d)
    E = m.ewma_predictors(R, [1, 21, 500])
    h.same("average dates", list(E.index), d[1:])
    X = tm.construct_rho(h.frame(y, d, ["a"]))
    for t in h.p["at"]:
        for g in (1, 21, 252):
            if t >= g:
                h.eq(f"lag {g} {t}", L[g].iloc[t] / unit, float(x[t - g, 0]))
        for g in (1, 21, 500):
            h.eq(f"average {g} {t}", E[g].iloc[t - 1] / unit, float(long.average(x[:t], g)[-1, 0]))
        w = 2.0 ** (-np.arange(t)[::-1] / 125)
        mean = w @ x[:t, 0] / w.sum()
        var = w @ (x[:t, 0] - mean) ** 2 / w.sum() * w.sum() ** 2 / (w.sum() ** 2 - (w * w).sum())
        h.eq(f"uncertainty {t}", X.iloc[t, 0] / unit, 2 * float(np.sqrt(var)))


def long_fit(h):
    """long memories: weights and forecasts in the units of the data"""
    m = h.mod(RC)
    T, K = h.p["T"], h.p["K"]
    d, lab = days(T), ["p", "q", "s"][:K]
    memory, alpha = h.choice("memory", h.p["memory"]), h.choice("alpha", h.p.get("alpha", [0.5, 20]))
    x, (unit,), y = long.table(h, "r", T, 1)
    z, pu, P = long.table(h, "p", T, K)
    with quiet():
        hats, W = m.ReturnCombinator().fit(h.frame(y, d, ["a"]), [h.frame(P, d, lab)], memory, alpha)
    h.same("dates", list(hats.index), d[memory:])
    for t in range(memory, T):
        dec = 2.0 ** (-np.arange(memory)[::-1] / 500)
        dec = dec / dec.sum() * memory
        A = z[t - memory : t]
        sc = long.average(z[:t] ** 2, 250)[-1]
        w = np.linalg.solve((A * dec[:, None]).T @ A + alpha * np.diag(sc), (A * dec[:, None]).T @ x[t - memory : t, 0])
        h.eq(f"forecast {t}", hats.iloc[t - memory, 0] / unit, float(w @ z[t]))
        for k in range(K):
            h.eq(f"weight {t} {k}", W[0].iloc[t - memory, k] * pu[k] / unit, float(w[k]))


CASES = [
    dict(name="fit_1_1", also=[dict(T=3)], fn=fit, roots=True, params=dict(n=1, K=1, T=4, memory=3), thorough=dict(T=5)),
    dict(name="fit_1_2", fn=fit, roots=True, params=dict(n=1, K=2, T=3, memory=2), thorough=dict(T=4)),
    dict(name="fit_2_1", fn=fit, roots=True, params=dict(n=2, K=1, T=3, memory=2)),
    dict(name="lasso_1", fn=lasso, params=dict(K=1, T=4)),
    dict(name="lasso_2", fn=lasso, params=dict(K=2, T=3), thorough=dict(T=4)),
    dict(name="features", also=[dict(T=1)], fn=features, params=dict(T=2, K=2)),
    dict(name="predictors", also=[dict(T=2), dict(T=3)], fn=predictors, params=dict(T=4), thorough=dict(T=5)),
    dict(name="uncertainty", also=[dict(T=1), dict(T=2)], fn=uncertainty, params=dict(T=4, n=1), thorough=dict(n=2)),
    dict(name="longer", fn=longer, params=dict(n=3, K=3, T=9, memory=[3, 7], alpha=[0.1, 3])),
    dict(name="longer_alpha", fn=longer, params=dict(n=2, K=2, T=6, memory=[2, 5], alpha=None)),
    dict(name="long_predictors", fn=long_predictors, params=dict(T=30)),
    dict(name="long_uncertainty", fn=long_uncertainty, params=dict(T=20, n=3)),
    dict(name="years", fn=years, params=dict(T=290, at=[2, 22, 130, 260, 289])),
    dict(name="long_fit", fn=long_fit, params=dict(T=130, K=2, memory=[120, 60])),
    dict(name="years_fit", fn=long_fit, params=dict(T=561, K=1, memory=[560], alpha=[0.5])),
]
