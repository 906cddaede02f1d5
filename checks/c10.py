"""Weights are a point of the simplex, one per expert, correctly labelled."""
from .comb import *

BOUNDS = "2 and 3 experts, T=3..4 dates, 1 asset; the candidate weight vector is an arbitrary real vector; 5 experts, 2 assets, 6 dates with fixed shapes and symbolic units"


def feasible_set(h):
    """a weight vector is admitted exactly if it is nonnegative and sums to 1"""
    m = h.mod(CO)
    K = h.p["K"]
    X = Experts(h, 1 + h.p["window"], 1, K, means=False)
    T = X.T
    X.regular(range(1, T))
    w = [h.real(f"w{k}") for k in range(K)]
    good = simplex_weights(h, "u", K)

    def on_solve(prob, i, kw):
        v = weight_var(h, prob, K)
        cvxs.assign(v, w)
        code = cvxs.feasible(h, prob)
        spec = h.And(h.sum(w) == 1, *[x >= 0 for x in w])
        if h.symbolic:
            h.true("admitted weights are on the simplex", h.Or(h.Not(code), spec))
            h.true("simplex weights are admitted", h.Or(h.Not(spec), code))
        else:
            # floating point: a tolerance on the equality
            viol = max([abs(sum(w) - 1)] + [-x for x in w])
            cv = max([abs(x) if k == "eq" else x for k, x in cvxs.constraints(prob)] + [0])
            h.true("admitted weights are on the simplex", not (cv <= 1e-9 and viol > 1e-6))
            h.true("simplex weights are admitted", not (viol <= 1e-9 and cv > 1e-6))
        cvxs.assign(v, good)

    with cvxs.standin(h, on_solve):
        out = list(X.build(m).solve(window=h.p["window"]))
    h.same("one result", len(out), 1)


def labels(h):
    """weights are reported under the experts' keys, in the experts' order, and
    each expert's data goes with its own weight"""
    m = h.mod(CO)
    K, T = h.p["K"], h.p["T"]
    keys = h.choice("keys", h.p["keys"])
    X = Experts(h, T, 1, K, means=True, keys=keys)
    X.regular(range(1, T))
    w = simplex_weights(h, "w", K)

    def on_solve(prob, i, kw):
        cvxs.assign(weight_var(h, prob, K), w)

    c = X.build(m)
    h.same("K", c.K, K)
    h.same("assets", list(c.assets), X.assets)
    with cvxs.standin(h, on_solve):
        out = list(c.solve(window=T - 1))
    o, = out
    h.same("keys", list(o.weights.index), keys)
    L, mu = X.blend(w, T - 1)
    for k in range(K):
        h.eq("weight", o.weights[keys[k]], w[k])
    h.eq("covariance", o.covariance.iloc[0, 0] * L[0][0] * L[0][0], 1)
    h.eq("mean", o.mean.iloc[0], mu[0])


def order(h):
    """listing the experts in another order gives the same problem up to the order"""
    m = h.mod(CO)
    T, K = 3, 2
    X = Experts(h, T, 1, K, means=True, keys=["p", "q"])
    X.regular(range(1, T))
    Y = X.copy()
    Y.keys = ["q", "p"]
    for t in range(T):
        Y.L[0, t], Y.L[1, t] = X.L[1, t], X.L[0, t]
        Y.mu[0, t], Y.mu[1, t] = X.mu[1, t], X.mu[0, t]
    Y.regular(range(1, T))
    w = {"p": h.real("wp", sgn="+"), "q": h.real("wq", sgn="+")}

    def run(Z):
        vals = []

        def on_solve(prob, i, kw):
            cvxs.assign(weight_var(h, prob, K), [w[k] for k in Z.keys])
            vals.append(cvxs.objective(prob))

        with cvxs.standin(h, on_solve):
            out = list(Z.build(m).solve(window=2))
        return vals, out

    (va, a), (vb, b) = run(X), run(Y)
    h.eq("objective", va[0][1], vb[0][1])
    h.eq("covariance", a[0].covariance, b[0].covariance)
    h.eq("mean", a[0].mean, b[0].mean)
    h.same("labels", list(b[0].weights.index), ["q", "p"])
    for k in "pq":
        h.eq("weight", a[0].weights[k], b[0].weights[k])


def many(h):
    """five experts, several assets: fixed shapes in arbitrary units"""
    m = h.mod(CO)
    K, T, n = 5, 6, 2
    keys = h.choice("keys", [["e", "b", "a", "d", "c"], ["100-10", "20-60", "10-20", "5-5", "3-9"]])
    X = Experts.shaped(h, T, n, K, keys=keys)
    w = [h.real(f"w{k}") for k in range(K)]
    good = simplex_weights(h, "u", K)

    def on_solve(prob, i, kw):
        v = weight_var(h, prob, K)
        cvxs.assign(v, w)
        code = cvxs.feasible(h, prob)
        spec = h.And(h.sum(w) == 1, *[x >= 0 for x in w])
        if h.symbolic:
            h.true("admitted weights are on the simplex", h.Or(h.Not(code), spec))
            h.true("simplex weights are admitted", h.Or(h.Not(spec), code))
        else:
            viol = max([abs(sum(w) - 1)] + [-x for x in w])
            cv = max([abs(x) if k == "eq" else x for k, x in cvxs.constraints(prob)] + [0])
            h.true("admitted weights are on the simplex", not (cv <= 1e-9 and viol > 1e-6))
            h.true("simplex weights are admitted", not (viol <= 1e-9 and cv > 1e-6))
        cvxs.assign(v, good)

    with cvxs.standin(h, on_solve):
        o, = list(X.build(m).solve())
    h.same("keys", list(o.weights.index), keys)
    for k in range(K):
        h.eq("weight", o.weights[keys[k]], good[k])


CASES = [
    dict(name="feasible2", fn=feasible_set, params=dict(K=2, window=2)),
    dict(name="feasible3", fn=feasible_set, params=dict(K=3, window=3)),
    dict(name="labels2", fn=labels, params=dict(K=2, T=3, keys=[["b", "a"], ["20-60", "10-20"], ["fast", "slow"]])),
    dict(name="labels3", fn=labels, params=dict(K=3, T=4, keys=[["c", "a", "b"]])),
    dict(name="order", fn=order, params=dict()),
    dict(name="many", fn=many, params=dict()),
]
