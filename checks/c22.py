"""Rolling-window covariance: the plain average over the window."""
from . import long
from .lib import *

BOUNDS = "T<=5 (quick) / 8 (thorough) dates, 2 assets, every memory 1..T+1 and min_periods 0..T; returns symbolic; 30 dates of 3 assets with fixed shape and symbolic units; 1060 dates of 1 asset and 560 of 2; tables of whole numbers"
EU = "experiments.utils.experiment_utils"


def window(h):
    m = h.mod(EU)
    T, n = h.p["T"], 2
    mem, mp = h.int("memory", 1, T + 1), h.int("min_periods", 0, T)
    u, d = h.choice("labels", [names(n), [7, 3]]), days(T)
    r = h.reals("r", (T, n))
    R = h.frame(r, d, u)
    out = m.rolling_window(R, mem, min_periods=mp)
    h.same("dates", list(out), d[max(mp, 1) - 1:])
    for t in range(max(mp, 1) - 1, T):
        k = min(t + 1, mem)
        X = out[d[t]]
        h.same("labels", [list(X.index), list(X.columns)], [list(u)] * 2)
        for i in range(n):
            for j in range(n):
                h.eq(f"{t} {i}{j}", X.to_numpy()[i, j], h.sum(r[s][i] * r[s][j] for s in range(t + 1 - k, t + 1)) / k)
    h.eq("input unchanged", R, h.frame(r, d, u))


def default(h):
    """20 periods of warm-up unless told otherwise"""
    m = h.mod(EU)
    T = h.p["T"]
    mem = h.int("memory", 2, 3)
    r = h.reals("r", (T, 1))
    d = days(T)
    out = m.rolling_window(h.frame(r, d, ["a"]), mem)
    h.same("dates", list(out), d[19:])
    for t in range(19, T):
        h.eq(f"{t}", out[d[t]].to_numpy()[0, 0], h.sum(r[s][0] ** 2 for s in range(t + 1 - mem, t + 1)) / mem)


def history(h):
    """long histories of fixed shape in arbitrary units"""
    m = h.mod(EU)
    T, n = h.p["T"], h.p["n"]
    mem, mp = h.choice("memory", h.p["memory"]), h.choice("min_periods", [None, 0, 1, 7, T])
    u, d = names(n), days(T)
    r = h.shaped("r", T, n, free=[(T // 2, 0), (-1, 0)])
    R = h.frame(r, d, u)
    out = m.rolling_window(R, mem, **({} if mp is None else dict(min_periods=mp)))
    start = max(20 if mp is None else mp, 1) - 1
    h.same("dates", list(out), d[start:])
    for t in range(start, T):
        k = min(t + 1, mem)
        X = out[d[t]].to_numpy()
        for i in range(n):
            for j in range(n):
                h.eq(f"{t} {i}{j}", X[i, j], h.sum(r[s][i] * r[s][j] for s in range(t + 1 - k, t + 1)) / k)


def integers(h):
    """tables of whole numbers"""
    m = h.mod(EU)
    T, n = 6, 2
    A, B = whole(h, "r", T, n)
    mem, mp = h.int("memory", 1, T), h.int("min_periods", 0, 2)
    a, b = m.rolling_window(A, mem, min_periods=mp), m.rolling_window(B, mem, min_periods=mp)
    h.same("dates", list(a), list(b))
    for t in a:
        h.eq("covariance", a[t], b[t])


def years(h):
    """very long histories"""
    m = h.mod(EU)
    T, n = h.p["T"], h.p["n"]
    x, unit, y = long.table(h, "r", T, n)
    mem, mp = h.choice("memory", h.p["memory"]), h.choice("min_periods", [1, 300])
    d = days(T)
    out = m.rolling_window(h.frame(y, d, names(n)), mem, min_periods=mp)
    h.same("dates", list(out), d[mp - 1:])
    for t in h.p["at"]:
        w = x[max(0, t + 1 - mem) : t + 1]
        w = w.T @ w / len(w)
        for i in range(n):
            for j in range(n):
                h.eq(f"{t} {i}{j}", out[d[t]].to_numpy()[i, j] / (unit[i] * unit[j]), float(w[i, j]))


CASES = [
    dict(name="window", also=[dict(T=1), dict(T=2), dict(T=3)], fn=window, params=dict(T=5), thorough=dict(T=8)),
    dict(name="default", fn=default, params=dict(T=21), thorough=dict(T=23)),
    dict(name="history", fn=history, params=dict(T=30, n=3, memory=[1, 6, 25, 30, 31])),
    dict(name="integers", fn=integers, params=dict()),
    dict(name="years", fn=years, params=dict(T=1060, n=1, memory=[250, 700], at=[299, 400, 521, 701, 1059]), also=[dict(T=560, n=2, memory=[500], at=[299, 499, 500, 559])]),
]
