"""Evaluation measures: squared forecast error, turnover, empirical
distribution."""
from . import long
from .lib import *

BOUNDS = "MSE: 3-4 dates, 2 assets; turnover: 2-4 dates, 2 assets; empirical distribution: up to 4 values (every order and tie); 14-20 dates of 4-5 assets and samples of 30 with fixed shape and symbolic units; 300 dates of 2 assets; tables of whole numbers"
EU = "experiments.utils.experiment_utils"


def mse(h):
    m = h.mod(EU)
    T, n = h.p["T"], 2
    u, d = names(n), days(T)
    r = h.reals("r", (T, n))
    S = {t: h.reals(f"s{t}", (n, n)) for t in range(T)}
    first = h.int("first", 0, T - 1)
    ts = [t for t in (range(T) if h.bool("forward") else range(T)[::-1]) if t >= first]
    out = m.MSE(h.frame(r, d, u), {d[t]: h.frame(S[t], u, u) for t in ts})
    h.same("dates", list(out.index), [d[t] for t in ts])
    for t in ts:
        if t < T - 1:
            h.eq(f"{t}", out.loc[d[t]], h.sum((S[t][i][j] - r[t + 1][i] * r[t + 1][j]) ** 2 for i in range(n) for j in range(n)))
        else:
            h.same("last date has no error", bool(np.isnan(out.loc[d[t]])), True)


def turnover(h):
    m = h.mod(EU)
    T, n = h.p["T"], 2
    w = h.reals("w", (T, n), nz=True)
    out = m.turnover(h.array(w))
    ref = h.sum(h.sum(h.abs(w[t + 1][i] - w[t][i]) for i in range(n)) / h.sum(h.abs(w[t][i]) for i in range(n)) for t in range(T - 1)) / (T - 1)
    h.eq("turnover", out, 252 * ref * 100)


def ecdf(h):
    m = h.mod(EU)
    n = h.int("n", 1, h.p["n"])
    x = [h.real(f"x{i}") for i in range(n)]
    a, y = m.ecdf(h.array(x))
    h.same("length", [len(a), len(y)], [n, n])
    for i in range(n):
        h.eq(f"level {i}", y[i], (i + 1) / n)
        if i:
            h.le("ascending", a[i - 1], a[i])
    # the sorted sample has the same values: equal power sums
    for p in range(1, n + 1):
        h.eq(f"sample {p}", h.sum(v**p for v in a), h.sum(v**p for v in x))


def history(h):
    """many dates and assets, fixed shapes in arbitrary units"""
    m = h.mod(EU)
    T, n = h.p["T"], h.p["n"]
    u, d = names(n), days(T)
    unit = [h.real(f"unit{i}", sgn="+") for i in range(n)]
    r = h.shaped("r", T, n, units=unit)
    S = [h.shaped(f"s{t}", n, n, units=unit) for t in range(T)]
    S = [[[S[t][i][j] * unit[i] for j in range(n)] for i in range(n)] for t in range(T)]
    first = h.choice("first", [0, 5, T - 2])
    out = m.MSE(h.frame(r, d, u), {d[t]: h.frame(S[t], u, u) for t in range(first, T)})
    h.same("dates", list(out.index), d[first:])
    for t in range(first, T - 1):
        h.eq(f"{t}", out.loc[d[t]], h.sum((S[t][i][j] - r[t + 1][i] * r[t + 1][j]) ** 2 for i in range(n) for j in range(n)))
    h.same("last date has no error", bool(np.isnan(out.loc[d[T - 1]])), True)


def wide(h):
    """turnover of many assets over many dates, one symbolic scale per date"""
    m = h.mod(EU)
    T, n = h.p["T"], h.p["n"]
    s = [h.real(f"level{t}", sgn="+") for t in range(2)]
    w = [[x * s[t >= T // 2] for x in row] for t, row in enumerate(h.shaped("w", T, n, units=False))]
    out = m.turnover(h.array(w))
    ref = h.sum(h.sum(h.abs(w[t + 1][i] - w[t][i]) for i in range(n)) / h.sum(h.abs(w[t][i]) for i in range(n)) for t in range(T - 1)) / (T - 1)
    h.eq("turnover", out, 252 * ref * 100)


def sample(h):
    """larger samples in arbitrary units, with ties"""
    m = h.mod(EU)
    n = h.p["n"]
    s = h.real("unit", sgn="+")
    x = [row[0] for row in h.shaped("x", n, 1, units=[s])]
    x[3] = x[7] = x[-1]
    a, y = m.ecdf(h.array(x))
    h.same("length", [len(a), len(y)], [n, n])
    for i in range(n):
        h.eq(f"level {i}", y[i], (i + 1) / n)
        if i:
            h.le("ascending", a[i - 1], a[i])
    left = list(x)
    for v in a:
        hit = [q for q, z in enumerate(left) if abs(float((v - z) / s if not h.symbolic else _num((v - z) / s))) < 1e-12]
        h.true("a value of the sample", bool(hit))
        del left[hit[0]]


def _num(x):
    from symex import alg

    x = alg.lift(x)
    return x.cval() if x.is_const() else 1


def integers(h):
    """tables of whole numbers"""
    m = h.mod(EU)
    A, B = whole(h, "y", 5, 2)
    d = days(5)
    S, Q = {}, {}
    for t in d:
        S[t], Q[t] = whole(h, f"s{t}", 2, 2, index=names(2), free=False)
    a, b = m.MSE(A, S), m.MSE(B, Q)
    for t in d[:-1]:
        h.eq("error", a.loc[t], b.loc[t])
    C, D = whole(h, "w", 6, 3, lo=1, free=False)
    h.eq("turnover", m.turnover(C.values), m.turnover(D.values))
    for x, y in zip(m.ecdf(A["a"].values), m.ecdf(B["a"].values)):
        h.eq("distribution", x, y)


def years(h):
    """very long histories"""
    m = h.mod(EU)
    T, n = h.p["T"], 2
    u, d = names(n), days(T)
    x, unit, y = long.table(h, "r", T, n)
    s = [h.shaped(f"s{t}", n, n, units=False) for t in range(T)]
    S = {d[t]: h.frame([[s[t][i][j] * unit[i] * unit[j] for j in range(n)] for i in range(n)], u, u) for t in range(T)}
    out = m.MSE(h.frame(y, d, u), S)
    h.same("dates", list(out.index), d)
    for t in list(range(0, T - 1, 23)) + [T - 2]:
        h.eq(f"{t}", out.loc[d[t]], h.sum(((s[t][i][j] - y[t + 1][i] / unit[i] * (y[t + 1][j] / unit[j])) * unit[i] * unit[j]) ** 2 for i in range(n) for j in range(n)))
    one = [h.real("level", sgn="+")]
    q = h.shaped("w", T, n, units=False)
    w = np.array(q, dtype=float)
    ref = np.mean(np.abs(np.diff(w, axis=0)).sum(1) / np.abs(w[:-1]).sum(1))
    h.eq("turnover", m.turnover(h.array([[v * one[0] for v in row] for row in q])), 252 * 100 * float(ref))


CASES = [
    dict(name="mse", also=[dict(T=2)], fn=mse, params=dict(T=3), thorough=dict(T=4)),
    dict(name="turnover", also=[dict(T=2)], fn=turnover, params=dict(T=3), thorough=dict(T=4)),
    dict(name="ecdf", fn=ecdf, params=dict(n=3), thorough=dict(n=4)),
    dict(name="history", fn=history, params=dict(T=14, n=4)),
    dict(name="wide", fn=wide, params=dict(T=20, n=5)),
    dict(name="sample", fn=sample, params=dict(n=30)),
    dict(name="integers", fn=integers, params=dict()),
    dict(name="years", fn=years, params=dict(T=300)),
]
