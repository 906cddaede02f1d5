"""End to end causality: a combined prediction dated t depends only on returns
up to and including t."""
from .c15 import *

BOUNDS = "T<=5 dates, 1 or 2 assets, 1-2 pairs of half-lives (concrete), window 1-2; returns, changed future returns and solver answers symbolic; warm-ups 0-2; one missing return before the window; 50 dates, 2 assets, 2 pairs with default options, fixed shape and symbolic units"


def run(h, R, pairs, win, k, K):
    m = h.mod(CO)
    o = Opaque(h, K)
    with cvxs.standin(h, o):
        with h.regular():
            return list(m.from_ewmas(R, pairs, **k).solve(window=win))


def causal(h):
    T, n, K, win = h.p["T"], h.p["n"], h.p["K"], h.p["window"]
    y, pairs, k = inputs(h)
    start = first_visible(k["min_periods_vola"]) + first_visible(k["min_periods_cov"])
    if T - 1 - start < win + 1:
        return h.same("too short", 0, 0)
    R = h.frame(y, days(T), names(n))
    full = run(h, R, pairs, win, k, K)
    kind = h.choice("future", h.p["future"])
    if kind == "cut":
        short = run(h, h.frame(y[: T - 1], days(T - 1), names(n)), pairs, win, k, K)
        keep = [o for o in full if o.time in days(T - 1)]
        h.same("dates", [o.time for o in short], [o.time for o in keep])
    else:
        z = [list(r) for r in y]
        z[-1] = [h.real(f"z_{i}", nz=True) for i in range(n)]
        nonzero(h, z, pairs, k)
        short = run(h, h.frame(z, days(T), names(n)), pairs, win, k, K)
        keep = [o for o in full if o.time in days(T - 1)]
        short = [o for o in short if o.time in days(T - 1)]
    h.same("count", len(short), len(keep))
    if not keep:
        h.fail("count", "no prediction to compare")
    for a, b in zip(short, keep):
        same_result(h, f"day {days(T).index(a.time)}", a, b)


def dates(h):
    """sigma/mean inputs: from_sigmas with experts' predictions dated t uses them
    for the return of t+1 only: changing the newest prediction and return leaves
    the earlier combinations unchanged"""
    T, n, K, win = h.p["T"], h.p["n"], h.p["K"], h.p["window"]
    m = h.mod(CO)
    E = Experts(h, T, n, K)
    F = E.copy()
    for k in range(K):
        F.L[k, T - 1] = [[h.real(f"nL{k}_{i}{j}", sgn="+" if i == j else None) if j <= i else 0 for j in range(n)] for i in range(n)]
        F.mu[k, T - 1] = [h.real(f"nm{k}_{i}") for i in range(n)]
    F.r[T - 1] = [h.real(f"nr{i}") for i in range(n)]
    F.r[0] = [h.real(f"or{i}") for i in range(n)]  # before any prediction: unused
    o = Opaque(h, K)
    out = []
    for X in (E, F):
        with cvxs.standin(h, o), h.regular():
            out.append([q for q in X.build(m).solve(window=win) if q.time != days(T)[-1]])
    h.same("dates", [q.time for q in out[0]], days(T)[win : T - 1])
    h.same("count", len(out[1]), len(out[0]))
    for a, b in zip(*out):
        same_result(h, f"day {days(T).index(a.time)}", a, b)


def missing(h):
    """a missing return in the history: later combinations (whose window does
    not contain it) do not depend on what follows them"""
    T, n, K = h.p["T"], h.p["n"], h.p["K"]
    m = h.mod(CO)
    y = [[h.real(f"y{t}_{i}", nz=True) for i in range(n)] for t in range(T)]
    z = [list(r) for r in y]
    z[-1] = [h.real(f"z_{i}", nz=True) for i in range(n)]
    y[1][0] = z[1][0] = float("nan")
    pairs = [(1, 1), (0.5, 1)][:K]
    o = Opaque(h, K)
    out = []
    for X in (y, z):
        with cvxs.standin(h, o), h.regular():
            c = m.from_ewmas(h.frame(X, days(T), names(n)), pairs, min_periods_vola=1, min_periods_cov=1)
            out.append([q for q in c.solve(window=1, times=days(T)[3:]) if q.time != days(T)[-1]])
    h.same("dates", [q.time for q in out[0]], days(T)[3:-1])
    h.same("count", len(out[1]), len(out[0]))
    for a, b in zip(*out):
        same_result(h, f"day {days(T).index(a.time)}", a, b)


def long(h):
    """long history with default options: changed or cut future"""
    T, n = h.p["T"], 2
    y = [list(r) for r in h.shaped("y", T, n)]
    cut = h.choice("cut", [44, 48])
    u = [y[0][i] for i in range(n)]
    z = [list(r) for r in y[:cut]]
    if h.bool("changed"):
        z += [[(7 * t + 3 * i) % 5 * u[i] - u[i] for i in range(n)] for t in range(cut, T)]
    pairs = [(10, 21), (5, 10)]
    k = h.choice("options", [{}, dict(mean=True, clip_at=1.5)])
    win = h.choice("window", [3, 5])
    keep = set(days(T)[:cut])
    a, b = [[o for o in run(h, h.frame(x, days(len(x)), names(n)), pairs, win, k, 2) if o.time in keep] for x in (y, z)]
    h.same("dates", [o.time for o in a], days(T)[38 + win : cut])
    h.same("count", len(a), len(b))
    for p, q in zip(a, b):
        same_result(h, f"day {days(T).index(p.time)}", p, q)


CASES = [
    dict(name="missing", fn=missing, params=dict(T=5, n=1, K=1)),
    dict(name="ewmas_1", fn=causal, params=dict(T=4, n=1, K=1, mv=[0, 2], mc=[0, 2], clips=[None], mean=False, window=1, future=["cut", "changed"]), thorough=dict(T=6)),
    dict(name="ewmas_1_mean", fn=causal, params=dict(T=5, n=1, K=1, mv=[2, 2], mc=[2, 2], clips=[None], mean=True, window=1, future=["cut", "changed"])),
    dict(name="ewmas_2", fn=causal, params=dict(T=4, n=1, K=2, mv=[1, 1], mc=[1, 1], clips=[None], mean=False, window=2, future=["cut", "changed"])),
    dict(name="sigmas_1", fn=dates, params=dict(T=4, n=1, K=2, window=2)),
    dict(name="sigmas_2", fn=dates, params=dict(T=4, n=2, K=2, window=1)),
    dict(name="long", fn=long, params=dict(T=50)),
]
