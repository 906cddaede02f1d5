"""Asking for a window or for certain dates never changes the answer at a date."""
from .comb import *

BOUNDS = "T<=6 dates, 1 asset, 2 experts; window and requested block of consecutive dates symbolic integers; experts, returns symbolic; the solver is an arbitrary deterministic function of the problem it is given; 30 dates, 2 assets, 3 experts, and 290 dates, 1 asset, 2 experts with fixed shapes and symbolic units"


def solver(h, K):
    return cvxs.standin(h, Opaque(h, K))


def same_result(h, label, a, b):
    h.same(label + " time", a.time, b.time)
    h.eq(label + " weights", a.weights, b.weights)
    h.eq(label + " mean", a.mean, b.mean)
    h.eq(label + " covariance", a.covariance, b.covariance)


def schedule(h):
    """with window W (capped at the available T-1 dates, all of them by default)
    there is one result per date from the W-th on, in order"""
    m = h.mod(CO)
    T, K = h.p["T"], 2
    X = Experts(h, T, 1, K, means=False)
    window = h.choice("window", [None] + list(range(2, T + 2)))
    eff = T - 1 if not window else min(window, T - 1)
    for t in range(eff, T):
        X.regular(range(t - eff + 1, t + 1))
    with solver(h, K):
        c = X.build(m)
        a = list(c.solve(window=window))
        h.same("dates", [o.time for o in a], X.dates[eff:])
        b = list(c.solve(window=eff))
        for x, y in zip(a, b):
            same_result(h, "capped", x, y)


def subset(h):
    """solving only for a block of consecutive dates equals the full run on the
    requested dates that have a full window"""
    m = h.mod(CO)
    T, K = h.p["T"], 2
    X = Experts(h, T, 1, K, means=True)
    window = h.int("window", 2, T - 1)
    i = h.int("first", 1, T - 1)
    j = h.int("last", 1, T - 1)
    if j < i:
        return h.same("empty", 0, 0)
    for t in range(window, T):
        X.regular(range(t - window + 1, t + 1))
    want = X.dates[i : j + 1]
    with solver(h, K):
        c = X.build(m)
        full = {o.time: o for o in c.solve(window=window)}
        part = list(c.solve(window=window, times=want))
    h.same("dates", [o.time for o in part], [d for d in want if d in full])
    for o in part:
        same_result(h, "subset", o, full[o.time])


def gaps(h):
    """dates that are not consecutive are refused"""
    m = h.mod(CO)
    T, K = 5, 2
    X = Experts(h, T, 1, K, means=False)
    a = h.int("a", 1, T - 1)
    b = h.int("b", 1, T - 1)
    if b == a + 1:
        return h.same("consecutive", 0, 0)
    with solver(h, K):
        c = X.build(m)
        h.raises("non consecutive", lambda: list(c.solve(window=2, times=[X.dates[a], X.dates[b]])), AssertionError)


def history(h):
    """a longer history does not change results at a date once the window is full"""
    m = h.mod(CO)
    T, K = h.p["T"], 2
    X = Experts(h, T, 1, K, means=True)
    window = h.int("window", 2, T - 2)
    s = h.int("from", 1, T - 1 - window)
    for t in range(window, T):
        X.regular(range(t - window + 1, t + 1))
    with solver(h, K):
        full = {o.time: o for o in X.build(m).solve(window=window)}
        cut = lambda d: {k: {t: v for t, v in x.items() if t >= X.dates[s]} for k, x in d.items()}
        c = m.from_sigmas(cut(X.sigmas()), X.returns().iloc[s:], means=cut(X.mean_dict()))
        out = list(c.solve(window=window))
    h.same("dates", [o.time for o in out], X.dates[s + window:])
    for o in out:
        same_result(h, "history", o, full[o.time])


def coverage(h):
    """experts covering different dates are combined over their common dates"""
    m = h.mod(CO)
    T, K = h.p["T"], 2
    X = Experts(h, T, 1, K, means=True)
    s = h.int("start", 0, 2)
    e = h.int("end", T - 2, T - 1)
    late = h.int("late expert", 0, 1)
    window = 2
    if e - s < window:
        return h.same("too short", 0, 0)
    for t in range(s + window, e + 1):
        X.regular(range(t - window + 1, t + 1))
    short = lambda d, a, b: {t: v for t, v in d.items() if X.dates[a] <= t <= X.dates[b]}

    def cut(d, both):
        return {k: short(v, s, e) if both or i == late else v for i, (k, v) in enumerate(d.items())}

    with solver(h, K):
        a = list(m.from_sigmas(cut(X.sigmas(), False), X.returns(), means=cut(X.mean_dict(), False)).solve(window=window))
        b = list(m.from_sigmas(cut(X.sigmas(), True), X.returns(), means=cut(X.mean_dict(), True)).solve(window=window))
    h.same("dates", [o.time for o in a], X.dates[s + window : e + 1])
    h.same("dates", [o.time for o in b], X.dates[s + window : e + 1])
    for x, y in zip(a, b):
        same_result(h, "common dates", x, y)


def long(h):
    """long histories: windows, blocks of dates, older data, missing dates"""
    m = h.mod(CO)
    T, n, K = h.p["T"], h.p["n"], h.p["K"]
    X = Experts.shaped(h, T, n, K)
    window = h.choice("window", h.p["windows"])
    with solver(h, K):
        c = X.build(m)
        full = list(c.solve(window=window))
        h.same("dates", [o.time for o in full], X.dates[window:])
        full = {o.time: o for o in full}
        i, j = h.choice("block", h.p.get("blocks") or [(T - 6, T - 3), (2, 6), (T - 1, T - 1), (T - 10, T - 1)])
        part = list(c.solve(window=window, times=X.dates[i : j + 1]))
        h.same("block dates", [o.time for o in part], [d for d in X.dates[i : j + 1] if d in full])
        for o in part:
            same_result(h, "block", o, full[o.time])
        s = h.choice("from", h.p.get("from", [1, 5]))
        cut = lambda d: {k: {t: v for t, v in x.items() if t >= X.dates[s]} for k, x in d.items()}
        out = list(m.from_sigmas(cut(X.sigmas()), X.returns(), means=cut(X.mean_dict())).solve(window=window))
        h.same("later dates", [o.time for o in out], X.dates[s + window :])
        for o in out:
            same_result(h, "history", o, full[o.time])
        a = list(c.solve())
        b = list(c.solve(window=1000))
        h.same("all", [[o.time for o in z] for z in (a, b)], [[X.dates[-1]]] * 2)
        same_result(h, "all", a[0], b[0])


CASES = [
    dict(name="coverage", also=[dict(T=3), dict(T=4)], fn=coverage, params=dict(T=5), thorough=dict(T=6)),
    dict(name="schedule", also=[dict(T=3), dict(T=4)], fn=schedule, params=dict(T=5), thorough=dict(T=7)),
    dict(name="subset", also=[dict(T=3), dict(T=4)], fn=subset, params=dict(T=5), thorough=dict(T=7)),
    dict(name="gaps", fn=gaps, params=dict()),
    dict(name="history", also=[dict(T=4)], fn=history, params=dict(T=5), thorough=dict(T=6)),
    dict(name="long", fn=long, params=dict(T=30, n=2, K=3, windows=[4, 21]), also=[dict(T=290, n=1, K=2, windows=[270], blocks=[(284, 287)], **{"from": [5]}), dict(T=160, n=1, K=2, windows=[130], blocks=[(154, 157)], **{"from": [1]})]),
]
