"""The combination maximises the window log-likelihood of past one-step predictions."""
from .comb import *

BOUNDS = "1 asset: T<=5 dates, 2 and 3 experts, window 1..4; 2 assets: T<=4, 2 experts, window 1..2 (quick) / 1..3; experts' matrices, means, returns and candidate weights symbolic; up to 30 dates, 3 assets, 4 experts with fixed shapes, symbolic units and weights; 11 experts along one direction of weights"
ASSUMPTIONS = ["experts' standardised errors over the window are linearly independent (otherwise the problem data is singular)",
               "the convex solver is replaced by a stand-in; the optimisation problem it is given is evaluated exactly"]


def objective(h):
    """the problem posed at t: maximise sum over the last `window` dates s<=t of
    log det of the blended factor predicted at s-1 minus half the squared
    standardised error at s"""
    m = h.mod(CO)
    T, n, K = h.p["T"], h.p["n"], h.p["K"]
    X = Experts(h, T, n, K, means=h.p["means"])
    window = h.choice("window", h.p["windows"])
    eff = T - 1 if not window else min(window, T - 1)
    w = [h.real(f"w{k}", sgn="+") for k in range(K)]
    expected = list(range(eff, T))
    for t in expected:
        X.regular(range(t - eff + 1, t + 1))
    seen = []

    def on_solve(prob, i, kw):
        v = weight_var(h, prob, K)
        if i >= len(expected):
            h.fail("number of problems", f"more than {len(expected)}")
        t = expected[i]
        cvxs.assign(v, w)
        sense, val = cvxs.objective(prob)
        ref = X.loglik(w, range(t - eff + 1, t + 1))
        h.eq(f"objective at t={t}", val if sense == "max" else -val, ref)
        seen.append(t)

    with cvxs.standin(h, on_solve):
        out = list(X.build(m).solve(window=window))
    h.same("problems solved", seen, expected)
    h.same("dates", [o.time for o in out], [X.dates[t] for t in expected])


def causal_pairing(h):
    """the problem solved at t does not involve returns after t, nor expert
    predictions made at t or later"""
    m = h.mod(CO)
    T, n, K = h.p["T"], 1, 2
    X = Experts(h, T, n, K, means=True)
    window = h.choice("window", [1, 2])
    w = [h.real(f"w{k}", sgn="+") for k in range(K)]
    t0 = h.int("t", window, T - 1)
    for t in range(window, T):
        X.regular(range(t - window + 1, t + 1))
    Y = X.copy()
    for k in range(K):
        for t in range(t0, T):
            Y.L[k, t] = [[h.real(f"YL{k}_{t}", sgn="+")]]
            Y.mu[k, t] = [h.real(f"Ym{k}_{t}")]
    for t in range(t0 + 1, T):
        Y.r[t] = [h.real(f"Yr{t}")]
    for t in range(window, T):
        Y.regular(range(t - window + 1, t + 1))

    def run(Z):
        vals = []

        def on_solve(prob, i, kw):
            cvxs.assign(weight_var(h, prob, K), w)
            vals.append(cvxs.objective(prob))

        with cvxs.standin(h, on_solve):
            for _ in Z.build(m).solve(window=window):
                pass
        return vals

    a, b = run(X), run(Y)
    for i in range(t0 - window + 1):
        h.same("sense", a[i][0], b[i][0])
        h.eq("objective", a[i][1], b[i][1])


def options(h):
    """solver options are handed to the solver unchanged"""
    m = h.mod(CO)
    X = Experts(h, 3, 1, 2, means=False)
    X.regular([1, 2])
    got = []

    def on_solve(prob, i, kw):
        got.append(dict(kw))
        cvxs.assign(weight_var(h, prob, 2), [0.5, 0.5])

    with cvxs.standin(h, on_solve):
        list(X.build(m).solve(window=2, solver="CLARABEL", max_iter=h.int("n", 3, 4)))
    h.same("options", [g.get("solver") for g in got], ["CLARABEL"])
    h.same("options", [g.get("max_iter") in (3, 4) for g in got], [True])


def history(h):
    """more assets, experts and dates: fixed shapes in arbitrary units"""
    m = h.mod(CO)
    T, n, K = h.p["T"], h.p["n"], h.p["K"]
    X = Experts.shaped(h, T, n, K, means=h.p["means"])
    window = h.choice("window", h.p["windows"])
    eff = T - 1 if not window else min(window, T - 1)
    if K < 8:
        w = [h.real(f"w{k}", sgn="+") for k in range(K)]
    else:  # one direction of arbitrary length
        size = h.real("size", sgn="+")
        w = [size * (7 * k % 11 + 1) for k in range(K)]
    expected = list(range(eff, T))
    seen = []

    def on_solve(prob, i, kw):
        v = weight_var(h, prob, K)
        if i >= len(expected):
            h.fail("number of problems", f"more than {len(expected)}")
        t = expected[i]
        cvxs.assign(v, w)
        sense, val = cvxs.objective(prob)
        h.eq(f"objective at t={t}", val if sense == "max" else -val, X.loglik(w, range(t - eff + 1, t + 1)))
        seen.append(t)

    with cvxs.standin(h, on_solve):
        out = list(X.build(m).solve(window=window))
    h.same("problems solved", seen, expected)
    h.same("dates", [o.time for o in out], [X.dates[t] for t in expected])


CASES = [
    dict(name="one_asset", also=[dict(T=3), dict(T=2, K=1, windows=[None, 1, 2]), dict(K=1)], fn=objective, params=dict(T=4, n=1, K=2, means=True, windows=[None, 1, 2, 3, 7]), thorough=dict(T=5, windows=[None, 1, 2, 3, 4, 9])),
    dict(name="two_assets", also=[dict(T=2, windows=[1])], fn=objective, params=dict(T=3, n=2, K=2, means=True, windows=[1, 2]), thorough=dict(T=4, windows=[1, 2, 3])),
    dict(name="zero_mean", fn=objective, params=dict(T=3, n=2, K=2, means=False, windows=[1, None])),
    dict(name="three_experts", fn=objective, params=dict(T=5, n=1, K=3, means=False, windows=[3])),
    dict(name="causal", fn=causal_pairing, params=dict(T=4), thorough=dict(T=5)),
    dict(name="options", fn=options, params=dict()),
    dict(name="history_experts", fn=history, params=dict(T=9, n=3, K=11, means=True, windows=[5])),
    dict(name="history", fn=history, params=dict(T=14, n=3, K=4, means=True, windows=[None, 10, 3, 40])),
    dict(name="history_wide", fn=history, params=dict(T=30, n=2, K=2, means=False, windows=[26, None])),
]
