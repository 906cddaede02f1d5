"""The combined prediction is the stated blend: a covariance matrix and its mean."""
from .comb import *

BOUNDS = "1..3 assets, 1..3 experts, T<=4 dates; weights any point of the (open) simplex or a vertex; experts symbolic; 12 dates, 4 assets, 5 experts with fixed shapes and weights, symbolic units; 11 experts of 3 assets"


def run(h, X, w, window, m):
    def on_solve(prob, i, kw):
        cvxs.assign(weight_var(h, prob, X.K), w(i))

    with cvxs.standin(h, on_solve):
        return list(X.build(m).solve(window=window))


def blend(h):
    """inverse covariance = L L' with L the weighted sum of the experts' factors
    of the *current* date; the mean solves L' m = weighted sum of L_k' m_k"""
    m = h.mod(CO)
    T, n, K = h.p["T"], h.p["n"], h.p["K"]
    X = Experts(h, T, n, K, means=h.p["means"])
    window = h.p["window"]
    W = {t: simplex_weights(h, f"w{t}_", K) for t in range(window, T)}
    for t in range(window, T):
        X.regular(range(t - window + 1, t + 1))
    out = run(h, X, lambda i: W[i + window], window, m)
    h.same("dates", [o.time for o in out], [X.dates[t] for t in range(window, T)])
    for i, o in enumerate(out):
        t = i + window
        L, mu = X.blend(W[t], t)
        S = o.covariance
        h.same("labels", [list(S.index), list(S.columns), list(o.mean.index)], [X.assets] * 3)
        S = S.to_numpy()
        P = [[h.sum(L[i][q] * L[j][q] for q in range(n)) for j in range(n)] for i in range(n)]
        for i in range(n):
            h.true("factor has a positive diagonal", L[i][i] > 0)
            h.eq("mean", o.mean.iloc[i], mu[i])
            for j in range(n):
                h.eq(f"covariance times blended precision {i}{j}", h.sum(S[i, q] * P[q][j] for q in range(n)), 1 if i == j else 0)
                if j < i:
                    h.eq("symmetric", S[i, j], S[j, i])
        for k in range(K):
            h.eq("weights", o.weights.iloc[k], W[t][k])


def vertex(h):
    """all weight on one expert reproduces that expert's prediction exactly"""
    m = h.mod(CO)
    T, n, K = h.p["T"], h.p["n"], 2
    X = Experts(h, T, n, K, means=True)
    e = h.int("expert", 0, K - 1)
    window = h.p["window"]
    for t in range(window, T):
        X.regular(range(t - window + 1, t + 1))
    out = run(h, X, lambda i: [1 if k == e else 0 for k in range(K)], window, m)
    for i, o in enumerate(out):
        t = i + window
        S = X.cov(e, t)
        for i in range(n):
            h.eq("mean", o.mean.iloc[i], X.mu[e, t][i])
            for j in range(n):
                h.eq("covariance", o.covariance.iloc[i, j], S[i][j])


def single(h):
    """one expert: the combination is that expert"""
    m = h.mod(CO)
    T, n = 3, 2
    X = Experts(h, T, n, 1, means=True)
    for t in range(1, T):
        X.regular([t])
    out = run(h, X, lambda i: [1], 1, m)
    h.same("dates", [o.time for o in out], X.dates[1:])
    for i, o in enumerate(out):
        S = X.cov(0, i + 1)
        for a in range(n):
            h.eq("mean", o.mean.iloc[a], X.mu[0, i + 1][a])
            for b in range(n):
                h.eq("covariance", o.covariance.iloc[a, b], S[a][b])


def between(h):
    """one asset: the combined volatility lies between the experts' volatilities"""
    m = h.mod(CO)
    T, K = 3, 2
    X = Experts(h, T, 1, K, means=False)
    X.regular(range(1, T))
    w = simplex_weights(h, "w", K)
    o, = run(h, X, lambda i: w, 2, m)
    a, b = (1 / (X.L[k, T - 1][0][0] ** 2) for k in range(K))
    v = o.covariance.iloc[0, 0]
    h.true("positive", v > 0)
    h.true("between", h.Or(h.And(a <= v, v <= b), h.And(b <= v, v <= a)) if h.symbolic else min(a, b) * (1 - 1e-9) <= v <= max(a, b) * (1 + 1e-9))


def history(h):
    """more assets, experts and dates: fixed shapes and weights in arbitrary units"""
    m = h.mod(CO)
    T, n, K, window = h.p["T"], h.p["n"], h.p["K"], h.p["window"]
    X = Experts.shaped(h, T, n, K)
    tot = K * (K + 1) // 2
    W = [[Fraction((k + t) % K + 1, tot) for k in range(K)] for t in range(T)]
    if not h.symbolic:
        W = [[float(x) for x in r] for r in W]
    out = run(h, X, lambda i: W[i + window], window, m)
    h.same("dates", [o.time for o in out], X.dates[window:])
    for i, o in enumerate(out):
        t = i + window
        L, mu = X.blend(W[t], t)
        P = [[h.sum(L[i][q] * L[j][q] for q in range(n)) for j in range(n)] for i in range(n)]
        S = o.covariance.to_numpy()
        for i in range(n):
            h.eq("mean", o.mean.iloc[i], mu[i])
            for j in range(n):
                h.eq(f"covariance times blended precision {i}{j}", h.sum(S[i, q] * P[q][j] for q in range(n)), 1 if i == j else 0)
        for k in range(K):
            h.eq("weights", o.weights.iloc[k], W[t][k])


from fractions import Fraction  # noqa: E402


CASES = [
    dict(name="blend1", also=[dict(T=2, window=1, K=1), dict(K=1)], fn=blend, params=dict(T=4, n=1, K=2, window=2, means=True), thorough=dict(T=5)),
    dict(name="blend2", also=[dict(T=2)], fn=blend, params=dict(T=3, n=2, K=2, window=1, means=True), thorough=dict(T=4)),
    dict(name="blend2w", fn=blend, params=dict(T=3, n=2, K=2, window=2, means=False)),
    dict(name="blend3k", fn=blend, params=dict(T=4, n=1, K=3, window=3, means=True)),
    dict(name="blend3n", fn=blend, params=dict(T=2, n=3, K=1, window=1, means=True)),
    dict(name="vertex", fn=vertex, params=dict(T=3, n=2, window=1), thorough=dict(T=4)),
    dict(name="single", fn=single, params=dict()),
    dict(name="between", fn=between, params=dict()),
    dict(name="history_experts", fn=history, params=dict(T=8, n=3, K=11, window=5), rtol=1e-7, atol=1e-7),
    dict(name="history", fn=history, params=dict(T=12, n=4, K=5, window=3), rtol=1e-8, atol=1e-8),
]
