"""from_ewmas is the combination of the iterated EWMAs with the given half-lives."""
from fractions import Fraction

from .c12 import *

BOUNDS = "1 and 2 assets, T<=5 dates, 2 pairs of half-lives (concrete, distinct); returns symbolic; warm-ups, clipping and mean adjustment on and off; 46 dates, 3 assets, 3 pairs with default options, fixed shape and symbolic units; pairs of half-lives agreeing to seven digits or given in either order"
EW = "cvx.covariance.ewma"
PAIRS = [(1, 0.5), (0.5, 0.25)]


def pairs_kw(h):
    k = dict(min_periods_vola=h.int("mv", *h.p["mv"]), min_periods_cov=h.int("mc", *h.p["mc"]))
    k["clip_at"] = h.choice("clip", h.p["clips"])
    k["mean"] = h.p["mean"]
    return k


def nonzero(h, y, pairs, k):
    """precondition: no volatility is zero"""
    for a, b in pairs:
        ref_iterated(h, y, h.beta(a), h.beta(b), k["min_periods_vola"], k["min_periods_cov"],
                     mean=k["mean"], b1=h.beta(a), b2=h.beta(b), clip=k["clip_at"])


def inputs(h):
    T, n, K = h.p["T"], h.p["n"], h.p["K"]
    if h.p.get("free") is None:
        y = [list(r) for r in h.reals("y", (T, n), nz=True)]
    else:  # concrete table with some free entries
        y = [[Fraction(3 * t * t + 2 * i + 1 - 4 * (t % 2), 4) for i in range(n)] for t in range(T)]
        for t, i in h.p["free"]:
            y[t][i] = h.real(f"y_{t}_{i}", nz=True)
    pairs = (PAIRS if h.bool("order") else PAIRS[::-1])[:K]
    k = pairs_kw(h)
    nonzero(h, y, pairs, k)
    return y, pairs, k


def single(h, R, pairs, k):
    """the iterated EWMAs, one pair at a time"""
    ew = h.mod(EW)
    S, M = {}, {}
    for a, b in pairs:
        key = f"{a}-{b}"
        S[key], M[key] = {}, {}
        for o in ew.iterated_ewma(R, a, b, **k):
            S[key][o.time], M[key][o.time] = o.covariance, o.mean
    return S, M


def experts(h):
    m = h.mod(CO)
    T, n, K = h.p["T"], h.p["n"], h.p["K"]
    y, pairs, k = inputs(h)
    R = h.frame(y, days(T), names(n))
    S, M = single(h, R, pairs, k)
    with h.regular():
        m.from_sigmas(S, R, means=M)
    c = m.from_ewmas(R, pairs, **k)
    h.same("experts", [c.K, list(c.assets)], [K, names(n)])
    keys = list(S)
    h.same("labels", [list(c.sigmas), list(c.means)], [keys, keys])
    h.eq("returns", c.returns, h.frame(y, days(T), names(n)))
    for q in keys:
        h.same("dates", [list(c.sigmas[q]), list(c.means[q])], [list(S[q]), list(M[q])])
        for t in S[q]:
            h.eq(f"covariance {q} {days(T).index(t)}", c.sigmas[q][t], S[q][t])
            h.eq(f"mean {q} {days(T).index(t)}", c.means[q][t], M[q][t])


def equivalent(h):
    m = h.mod(CO)
    T, n, K = h.p["T"], h.p["n"], h.p["K"]
    y, pairs, k = inputs(h)
    R = h.frame(y, days(T), names(n))
    S, M = single(h, R, pairs, k)
    win = h.p["window"]
    start = first_visible(k["min_periods_vola"]) + first_visible(k["min_periods_cov"])
    if T - start <= win:
        return h.same("too short", 0, 0)
    w = simplex_weights(h, "w", K)

    def run(c):
        vals = []

        def on_solve(prob, i, kw):
            cvxs.assign(weight_var(h, prob, K), w)
            vals.append(cvxs.objective(prob)[1])

        with cvxs.standin(h, on_solve):
            return vals, list(c.solve(window=win))

    with h.regular():
        v2, b = run(m.from_sigmas(S, R, means=M))
    v1, a = run(m.from_ewmas(R, pairs, **k))
    h.same("count", len(a), len(b))
    h.same("labels", [list(o.weights.index) for o in a], [[f"{p}-{q}" for p, q in pairs]] * len(a))
    for x, y in zip(v1, v2):
        h.eq("objective", x, y)
    for x, y in zip(a, b):
        same_result(h, "combination", x, y)


def defaults(h):
    """default warm-ups of 20 and 20 observations: first combined date follows"""
    m = h.mod(CO)
    T = h.p["T"]
    c = h.real("c", sgn="+")
    rows = [[c * (1 + (5 * t) % 7) * (-1) ** t] for t in range(T)]
    with cvxs.standin(h, lambda p, i, kw: cvxs.assign(weight_var(h, p, 2), [0.5, 0.5])):
        out = list(m.from_ewmas(h.frame(rows, days(T), ["x"]), [(3, 5), (8, 21)]).solve(window=2))
    h.same("dates", [o.time for o in out], days(T)[40:])


def long(h):
    """long history, three pairs, default and other options"""
    m = h.mod(CO)
    ew = h.mod(EW)
    T, n = h.p["T"], 3
    y = h.shaped("y", T, n)
    R = h.frame(y, days(T), names(n))
    pairs = [(10, 21), (5, 10), (21, 63)]
    k = h.choice("options", [{}, dict(clip_at=1.4), dict(mean=True), dict(min_periods_vola=5, min_periods_cov=30, clip_at=2, mean=True)])
    S, M = single(h, R, pairs, k)
    w = [0.25, 0.5, 0.25]

    def run(c, **q):
        vals = []

        def on_solve(prob, i, kw):
            cvxs.assign(weight_var(h, prob, 3), w)
            vals.append(cvxs.objective(prob)[1])

        with cvxs.standin(h, on_solve), h.regular():
            return vals, list(c.solve(**q))

    c = m.from_ewmas(R, pairs, **k)
    h.same("experts", [c.K, list(c.sigmas), list(c.means)], [3, list(S), list(S)])
    for q in S:
        h.same("dates", [list(c.sigmas[q]), list(c.means[q])], [list(S[q]), list(M[q])])
        for t in S[q]:
            h.eq("covariance", c.sigmas[q][t], S[q][t])
            h.eq("mean", c.means[q][t], M[q][t])
    with h.regular():
        d = m.from_sigmas(S, R, means=M)
    q = h.choice("window", [dict(window=5), dict()])
    (v1, a), (v2, b) = run(c, **q), run(d, **q)
    start = k.get("min_periods_vola", 20) + k.get("min_periods_cov", 20) - 2
    h.same("dates", [o.time for o in a], days(T)[start + q.get("window", T - 1 - start):])
    h.same("count", len(a), len(b))
    for x, z in zip(v1, v2):
        h.eq("objective", x, z)
    for x, z in zip(a, b):
        same_result(h, "combination", x, z)


def labels(h):
    """half-lives given as whole numbers or fractions, very close to each other
    or far apart, are still separate experts"""
    m = h.mod(CO)
    T, n = h.p["T"], 2
    y = h.shaped("y", T, n)
    R = h.frame(y, days(T), names(n))
    pairs = h.choice("pairs", [
        [(5, 10), (5.0000001, 10), (5, 10.0000001)],
        [(5, 10), (10, 5), (5, 5)],
        [(0.5, 1234567), (0.5, 1234568), (0.25, 1)],
        [(1, 11), (11, 1)],
        [(100000, 1), (1e5 + 1, 1)],
    ])
    k = dict(min_periods_vola=3, min_periods_cov=3)
    S, M = single(h, R, pairs, k)
    c = m.from_ewmas(R, pairs, **k)
    h.same("experts", [c.K, list(c.sigmas), list(c.means)], [len(pairs), list(S), list(S)])
    for q in S:
        h.same("dates", [list(c.sigmas[q]), list(c.means[q])], [list(S[q]), list(M[q])])
        for t in S[q]:
            h.eq("covariance", c.sigmas[q][t], S[q][t])
            h.eq("mean", c.means[q][t], M[q][t])


CASES = [
    dict(name="experts_1", fn=experts, params=dict(T=4, n=1, K=2, mv=[0, 2], mc=[0, 2], clips=[None], mean=False)),
    dict(name="experts_1_clip", fn=experts, params=dict(T=3, n=1, K=2, mv=[1, 1], mc=[1, 2], clips=[2], mean=False), merge=True),
    dict(name="experts_1_mean", fn=experts, params=dict(T=4, n=1, K=2, mv=[2, 2], mc=[2, 2], clips=[None], mean=True)),
    dict(name="experts_2", fn=experts, params=dict(T=3, n=2, K=2, mv=[1, 1], mc=[2, 2], clips=[None], mean=False)),
    dict(name="solve_1", fn=equivalent, params=dict(T=4, n=1, K=1, mv=[0, 2], mc=[0, 2], clips=[None], mean=False, window=1)),
    dict(name="solve_1_mean", fn=equivalent, params=dict(T=4, n=1, K=1, mv=[2, 2], mc=[2, 2], clips=[None], mean=True, window=1)),
    dict(name="solve_2", fn=equivalent, params=dict(T=4, n=1, K=2, mv=[1, 1], mc=[1, 1], clips=[None], mean=False, window=2)),
    dict(name="defaults", fn=defaults, params=dict(T=43)),
    dict(name="long", fn=long, params=dict(T=46)),
    dict(name="labels", fn=labels, params=dict(T=7)),
]
