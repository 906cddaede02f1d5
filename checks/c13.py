"""A solver failure at one date affects that date only."""
from .c12 import *

BOUNDS = "T<=5 dates, 1 asset, 2 experts; any subset of the solver calls fails (fault schedule symbolic); 12 consecutive solver calls with six failure patterns, 2 assets, fixed shapes and symbolic units"


def faults(h):
    m = h.mod(CO)
    T, K = h.p["T"], 2
    X = Experts(h, T, 1, K, means=True)
    window = h.choice("window", h.p["windows"])
    for t in range(window, T):
        X.regular(range(t - window + 1, t + 1))
    N = T - window
    bad = [h.bool(f"fails{i}") for i in range(N)]
    with solver(h, K):
        good = list(X.build(m).solve(window=window))
    h.same("one result per date", len(good), N)
    op = Opaque(h, K, fail=lambda k, i: bad[i])
    with cvxs.standin(h, op) as calls:
        out = list(X.build(m).solve(window=window))
    h.same("every date attempted once", len(calls), N)
    h.same("one entry per date", len(out), N)
    for i, (o, g) in enumerate(zip(out, good)):
        h.same("failed entry is None", o is None, bad[i])
        if o is not None:
            same_result(h, "other dates", o, g)


def two_runs(h):
    """a failed run leaves no trace in a later run of the same combination"""
    m = h.mod(CO)
    T, K = 4, 2
    X = Experts(h, T, 1, K, means=True)
    window = 2
    for t in range(window, T):
        X.regular(range(t - window + 1, t + 1))
    bad = [h.bool(f"fails{i}") for i in range(T - window)]
    with solver(h, K):
        good = list(X.build(m).solve(window=window))
    op = Opaque(h, K, fail=lambda k, i: i < len(bad) and bad[i])
    with cvxs.standin(h, op):
        c = X.build(m)
        first = list(c.solve(window=window))
        second = list(c.solve(window=window))
    h.same("first run", [o is None for o in first], bad)
    h.same("second run", len(second), len(good))
    for a, b in zip(second, good):
        same_result(h, "second run", a, b)


def other_errors(h):
    """only solver failures are absorbed: any other error reaches the caller"""
    m = h.mod(CO)
    T, K = 4, 2
    X = Experts(h, T, 1, K, means=False)
    for t in range(2, T):
        X.regular(range(t - 1, t + 1))
    at = h.int("at", 0, 1)
    exc = h.choice("error", [ValueError, KeyboardInterrupt, ZeroDivisionError])

    def on_solve(prob, i, kw):
        if i == at:
            raise exc("injected")
        cvxs.assign(weight_var(h, prob, K), [0.5, 0.5])

    def run():
        with cvxs.standin(h, on_solve):
            list(X.build(m).solve(window=2))

    h.raises("error is not swallowed", run, exc)


def long(h):
    """several failures in a long run"""
    m = h.mod(CO)
    T, K, window = 16, 2, 4
    X = Experts.shaped(h, T, 2, K)
    N = T - window
    bad = h.choice("failing", [[0], [N - 1], [0, 1, 2, 3, 4, 5], list(range(N)), [1, 3, 5, 9], [5, 6, 7, 8, 9, 10, 11]])
    with solver(h, K):
        good = list(X.build(m).solve(window=window))
    with cvxs.standin(h, Opaque(h, K, fail=lambda k, i: i % N in bad)) as calls:
        c = X.build(m)
        for q in range(2):
            out = list(c.solve(window=window))
            h.same("one entry per date", len(out), N)
            for i, (o, g) in enumerate(zip(out, good)):
                h.same("failed entry is None", o is None, i in bad)
                if o is not None:
                    same_result(h, "other dates", o, g)
    h.same("every date attempted once", len(calls), 2 * N)


CASES = [
    dict(name="faults", also=[dict(T=3, windows=[1, 2])], fn=faults, params=dict(T=5, windows=[2, 3]), thorough=dict(T=6)),
    dict(name="two_runs", fn=two_runs, params=dict()),
    dict(name="other_errors", fn=other_errors, params=dict()),
    dict(name="long", fn=long, params=dict()),
]
