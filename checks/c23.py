"""Realised measures per date and their exponentially weighted average."""
from fractions import Fraction

from . import long
from .lib import *

BOUNDS = "up to 3 dates with 1-3 intraday rows, 2 assets; EWMA of scalars over T<=5 dates and of tables over 3 dates; half-life symbolic (fixed with clipping), clip level and warm-up symbolic; 9-12 dates with 1-6 rows of 1-3 assets and series of 45 values with fixed shape and symbolic units; series of 1060 values; days of up to 290 rows; tables of whole numbers"
EU = "experiments.utils.experiment_utils"
IV = "experiments.utils.iterated_ewma_vec"


def intraday(h, rows, n, u, d):
    """table with several rows per date; -> frame, {date: rows}"""
    idx, X, by = [], [], {}
    for t, k in enumerate(rows):
        by[t] = []
        for q in range(k):
            row = [h.real(f"r{t}_{q}_{i}") for i in range(n)]
            idx.append(d[t])
            X.append(row)
            by[t].append(row)
    return h.frame(X, idx, u), by


def rcov(h, rows):
    k, n = len(rows), len(rows[0])
    mu = [h.sum(x[i] for x in rows) / k for i in range(n)]
    return [[h.sum((x[i] - mu[i]) * (x[j] - mu[j]) for x in rows) for j in range(n)] for i in range(n)]


def measures(h):
    """realised covariance = sum of products about the day's mean; realised
    volatility = root of the day's sum of squares"""
    m = h.mod(EU)
    u = names(2)
    d = days(2) if h.bool("ascending") else days(2)[::-1]
    R, by = intraday(h, h.choice("rows", [[2, 3], [3, 2], [1, 2], [2, 1]]), 2, u, d)
    V = dict(m.realized_volas(R))
    h.same("dates", list(V), d)
    for t in range(2):
        for i in range(2):
            h.eq(f"vola {t}", V[d[t]].iloc[i], h.sqrt(h.sum(x[i] * x[i] for x in by[t])))
    C = dict(m.realized_ewma(R, h.halflife("h")))
    h.same("dates", list(C), d[1:])
    return


def average(h):
    """realised covariances, exponentially averaged"""
    m = h.mod(EU)
    T, u, d = h.p["T"], names(2), days(h.p["T"])
    R, by = intraday(h, h.choice("rows", [[2] * T, [1] + [2] * (T - 1), [2] * (T - 1) + [1]]), 2, u, d)
    hl = h.halflife("h")
    b = h.beta(hl)
    C = dict(m.realized_ewma(R, hl))
    h.same("dates", list(C), d[1:])
    ref = [rcov(h, by[t]) for t in range(T)]
    for t in range(1, T):
        h.eq(f"{t}", C[d[t]], h.frame([[ref_ewma(h, [ref[s][i][j] for s in range(t + 1)], b) for j in range(2)] for i in range(2)], u, u))


def scalars(h):
    """ewma of a dictionary: normalised average of the values up to each date
    but the first; insertion order counts"""
    m = h.mod(IV)
    T = h.p["T"]
    x = h.reals("x", T)
    hl = h.halflife("h")
    b = h.beta(hl)
    d = days(T) if h.bool("ascending") else days(T)[::-1]
    n = h.int("length", 1, T)
    out = list(m.ewma({d[t]: x[t] for t in range(n)}, hl))
    h.same("dates", [t for t, _ in out], d[1:n])
    for t in range(1, n):
        h.eq(f"{t}", out[t - 1][1], ref_ewma(h, [x[s] for s in range(t + 1)], b))


def clipped(h):
    """clip_at=c: from observation min_periods+2 on, a value enters within
    +-c times the current average"""
    m = h.mod(IV)
    T = h.p["T"]
    x = [h.real(f"x{t}", sgn="+") for t in range(T)]
    hl = h.choice("h", [1, 0.5])
    b = Fraction(1, 2) if hl == 1 else Fraction(1, 4)
    if not h.symbolic:
        b = float(b)
    c = h.real("c", sgn="+")
    mp = h.int("mp", 1, T)
    out = list(m.ewma({t: x[t] for t in range(T)}, hl, clip_at=c, min_periods=mp))
    e = x[0]
    for t in range(1, T):
        w = (1 - b) / (1 - b ** (t + 1))
        q = x[t]
        if t + 1 >= mp + 2:
            q = h.min(q, c * e)
        e = e + w * (q - e)
        h.eq(f"{t}", out[t - 1][1], e)


def history(h):
    """many dates with several intraday rows, fixed shape in arbitrary units"""
    m = h.mod(EU)
    T, n = h.p["T"], h.p["n"]
    u = names(n)
    d = [x + pd.Timedelta(days=3 * i // 2) for i, x in enumerate(days(T))]
    unit = [h.real(f"unit{i}", sgn="+") for i in range(n)]
    rows = [[1, 4, 2, 6, 3, 5, 1][(t + h.p["shift"]) % 7] for t in range(T)]
    idx = [d[t] for t, k in enumerate(rows) for _ in range(k)]
    X = h.shaped("r", len(idx), n, units=unit)
    by, p = [], 0
    for k in rows:
        by.append([list(x) for x in X[p : p + k]])
        p += k
    R = h.frame(X, idx, u)
    V = dict(m.realized_volas(R))
    h.same("dates", list(V), d)
    for t in range(T):
        for i in range(n):
            h.eq(f"vola {t}", V[d[t]].iloc[i] ** 2, h.sum(x[i] * x[i] for x in by[t]))
            h.ge0(f"vola sign {t}", V[d[t]].iloc[i])
    hl = h.choice("h", [1, 5])
    b = h.beta(hl)
    C = dict(m.realized_ewma(R, hl))
    h.same("dates", list(C), d[1:])
    ref = [rcov(h, by[t]) for t in range(T)]
    for t in range(1, T):
        h.eq(f"{t}", C[d[t]], h.frame([[ref_ewma(h, [ref[s][i][j] for s in range(t + 1)], b) for j in range(n)] for i in range(n)], u, u))


def averages(h):
    """long series in arbitrary units, clipping after the warm-up"""
    m = h.mod(IV)
    T = h.p["T"]
    unit = h.real("unit", sgn="+")
    signed = h.bool("signed")
    x = [row[0] for row in h.shaped("x", T, 1, units=[unit], lo=0.1 if not signed else -1, hi=3)]
    hl = h.choice("h", [1, 5, 21])
    b = h.beta(hl)
    c = h.choice("clip", [None, 1.25])
    mp = h.choice("mp", [1, 20, T]) if c else None
    out = list(m.ewma({t: x[t] for t in range(T)}, hl, **(dict(clip_at=c, min_periods=mp) if c else {})))
    h.same("dates", [t for t, _ in out], list(range(1, T)))
    e = x[0] / unit
    for t in range(1, T):
        w = (1 - b) / (1 - b ** (t + 1))
        q = x[t] / unit
        if c and t + 1 >= mp + 2:
            q = h.min(h.max(q, -c * e), c * e)
        e = e + w * (q - e)
        h.eq(f"{t}", out[t - 1][1] / unit, e)


def integers(h):
    """tables of whole numbers"""
    m = h.mod(EU)
    d = days(4)
    A, B = whole(h, "y", 9, 2, index=[d[0]] * 3 + [d[1]] * 2 + [d[2]] + [d[3]] * 3)
    for f in (m.realized_volas, lambda X: m.realized_ewma(X, 3)):
        a, b = dict(f(A)), dict(f(B))
        h.same("dates", list(a), list(b))
        for t in a:
            h.eq("measure", a[t], b[t])
    v = h.mod(IV)
    x, y = A["a"].tolist(), B["a"].tolist()
    for k in ({}, dict(clip_at=1.5, min_periods=1)):
        a, b = (list(v.ewma(dict(enumerate(q)), 3, **k)) for q in (x, y))
        h.same("dates", [t for t, _ in a], [t for t, _ in b])
        for p, q in zip(a, b):
            h.eq("average", p[1], q[1])


def years(h):
    """very long series"""
    m = h.mod(IV)
    T = h.p["T"]
    x, (unit,), y = long.table(h, "x", T, 1)
    hl = h.choice("h", [21, 400])
    d = days(T)
    out = list(m.ewma({d[t]: y[t][0] for t in range(T)}, hl))
    h.same("dates", [t for t, _ in out], d[1:])
    ref = long.average(x, hl)
    for t in h.p["at"]:
        h.eq(f"{t}", out[t - 1][1] / unit, float(ref[t, 0]))


def busy(h):
    """days with hundreds of intraday rows"""
    m = h.mod(EU)
    n, rows = h.p["n"], h.p["rows"]
    d, u = days(len(rows)), names(n)
    x, unit, X = long.table(h, "r", sum(rows), n)
    idx = [d[t] for t, k in enumerate(rows) for _ in range(k)]
    R = h.frame(X, idx, u)
    cut = np.cumsum([0] + rows)
    x = [x[a:b] for a, b in zip(cut, cut[1:])]
    V = dict(m.realized_volas(R))
    h.same("dates", list(V), d)
    for t in range(len(rows)):
        for i in range(n):
            h.eq(f"vola {t}", V[d[t]].iloc[i] / unit[i], float(np.sqrt((x[t][:, i] ** 2).sum())))
    b, hl = 0.5**0.1, 10
    C = dict(m.realized_ewma(R, hl))
    h.same("dates", list(C), d[1:])
    ref = [(y - y.mean(axis=0)).T @ (y - y.mean(axis=0)) for y in x]
    for t in range(1, len(rows)):
        w = np.array([b ** (t - s) for s in range(t + 1)])
        want = sum(p * q for p, q in zip(w / w.sum(), ref))
        for i in range(n):
            for j in range(n):
                h.eq(f"covariance {t}", C[d[t]].iloc[i, j] / (unit[i] * unit[j]), float(want[i, j]))


CASES = [
    dict(name="busy", fn=busy, params=dict(n=2, rows=[140, 3, 290, 78])),
    dict(name="measures", fn=measures, params=dict()),
    dict(name="average", also=[dict(T=1), dict(T=2)], fn=average, params=dict(T=3), thorough=dict(T=4)),
    dict(name="scalars", also=[dict(T=1), dict(T=2)], fn=scalars, params=dict(T=5), thorough=dict(T=7)),
    dict(name="clipped", also=[dict(T=2), dict(T=3)], fn=clipped, params=dict(T=4), thorough=dict(T=5), merge=True),
    dict(name="history", fn=history, params=dict(T=9, n=3, shift=0), also=[dict(n=1, T=12, shift=3)]),
    dict(name="averages", fn=averages, params=dict(T=45)),
    dict(name="integers", fn=integers, params=dict()),
    dict(name="years", fn=years, params=dict(T=1060, at=[1, 99, 251, 300, 520, 1059])),
]
