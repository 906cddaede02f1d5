"""Missing data and dead assets stay contained; inputs are never modified."""
from . import long
from .lib import *

BOUNDS = "T=3 dates, 2 and 3 assets, every pattern of missing cells (quick: one asset fully arbitrary, T=3); present cells symbolic reals including zero; halflives symbolic; histories of 44 and 280 dates, 4 assets with gaps, a dead and a late asset, fixed shape and symbolic units; 620 dates of two assets; an asset listed after 260 of 330 dates, another one suspended for 130"
EW = "cvx.covariance.ewma"


def kw(h, clip=False):
    return dict(vola_halflife=h.halflife("hv"), cov_halflife=h.halflife("hc"), min_periods_vola=h.int("mv", 0, 2), min_periods_cov=h.int("mc", 0, 2))


def nan_is_zero(h):
    """missing returns are treated exactly as zero returns (nan_to_num)"""
    m = h.mod(EW)
    T, n = 3, 2
    y = h.reals("y", (T, n), nz=True)
    nan = [[h.bool(f"nan{t}{j}") for j in range(n)] for t in range(T)]
    k = dict(vola_halflife=1, cov_halflife=0.5, min_periods_vola=1, min_periods_cov=1)
    k["clip_at"] = h.choice("clip", [None, 2])
    A = list(m.iterated_ewma(h.frame([[NAN if nan[t][j] else y[t][j] for j in range(n)] for t in range(T)], days(T), names(n)), **k))
    B = list(m.iterated_ewma(h.frame([[0 if nan[t][j] else y[t][j] for j in range(n)] for t in range(T)], days(T), names(n)), **k))
    h.same("dates", [o.time for o in A], [o.time for o in B])
    for a, b in zip(A, B):
        same_iewma(h, "estimate", a, b)


def dead(h):
    """an asset that never moves has missing entries in its own row and column
    of the covariance and zero volatility; everything else is the estimate of
    the universe without it"""
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    y = h.reals("y", (T, n), nz=True)
    d = h.int("dead", 0, n - 1)
    how = h.choice("how", ["zero", "nan", "mixed"])
    r = [[y[t][i] for i in range(n)] for t in range(T)]
    for t in range(T):
        r[t][d] = 0 if how == "zero" or (how == "mixed" and t % 2) else NAN
    k = kw(h)
    A = list(m.iterated_ewma(h.frame(r, days(T), names(n)), **k))
    live = [i for i in range(n) if i != d]
    lab = [names(n)[i] for i in live]
    B = list(m.iterated_ewma(h.frame([[r[t][i] for i in live] for t in range(T)], days(T), lab), **k))
    h.same("dates", [o.time for o in A], [o.time for o in B])
    nd = names(n)[d]
    for a, b in zip(A, B):
        h.eq("volatility", a.volatility.loc[lab], b.volatility)
        h.eq("dead volatility", a.volatility.loc[nd], 0)
        h.eq("covariance", a.covariance.loc[lab, lab], b.covariance)
        h.eq("mean", a.mean.loc[lab], b.mean)
        for i in names(n):
            h.same("dead row", bool(isnan(a.covariance.loc[nd, i])), True)
            h.same("dead column", bool(isnan(a.covariance.loc[i, nd])), True)


def late(h):
    """an asset that starts trading late does not change the others and has a
    finite estimate once it traded"""
    m = h.mod(EW)
    T, n = h.p["T"], 2
    y = h.reals("y", (T, n), nz=True)
    s = h.int("start", 1, T - 1)
    r = [[y[t][0], NAN if t < s else y[t][1]] for t in range(T)]
    k = kw(h)
    A = list(m.iterated_ewma(h.frame(r, days(T), names(n)), **k))
    B = list(m.iterated_ewma(h.frame([[x[0]] for x in r], days(T), names(1)), **k))
    h.same("dates", [o.time for o in A], [o.time for o in B])
    for a, b in zip(A, B):
        t = days(T).index(a.time)
        h.eq("volatility", a.volatility.loc["a"], b.volatility.loc["a"])
        h.eq("variance", a.covariance.loc["a", "a"], b.covariance.loc["a", "a"])
        if t >= s:
            h.same("finite", bool(isnan(a.covariance.loc["b", "b"])), False)
            h.eq("variance of the new asset", a.covariance.loc["b", "b"], a.volatility.loc["b"] ** 2)
        else:
            h.same("no estimate yet", [bool(isnan(x)) for x in (a.covariance.loc["b", "b"], a.covariance.loc["a", "b"])], [True, True])


def inputs(h):
    """no estimator modifies its inputs"""
    m = h.mod(EW)
    T, n = 3, 2
    y = h.reals("y", (T, n), nz=True)
    nan = h.choice("nan", [None, (0, 0), (1, 1), (2, 0)])
    r = [[y[t][i] for i in range(n)] for t in range(T)]
    if nan:
        r[nan[0]][nan[1]] = NAN
    R = h.frame(r, days(T), names(n))
    C = R.copy(deep=True)
    k = dict(vola_halflife=1, cov_halflife=0.5, min_periods_vola=1, min_periods_cov=1, clip_at=h.choice("clip", [None, 2]))
    what = h.choice("what", ["iterated", "mean", "raw", "vola", "center", "clip"])
    if what == "iterated":
        list(m.iterated_ewma(R, **k))
    elif what == "mean":
        list(m.iterated_ewma(R, mean=True, **{**k, "min_periods_vola": 2, "clip_at": None}))
    elif what == "raw":
        list(m.iterated_ewma(R, nan_to_num=False, **k))
    elif what == "vola":
        m.volatility(R, 1, clip_at=k["clip_at"])
    elif what == "center":
        m.center(R, 1, mean_adj=True)
        m.center(R, 1, mean_adj=False)
    else:
        m.clip(R, clip_at=k["clip_at"])
    h.eq("returns", R, C)


def fresh(h):
    """results are independent objects: editing one estimate changes no other"""
    m = h.mod(EW)
    T, n = 3, 2
    y = h.reals("y", (T, n), nz=True)
    R = h.frame(y, days(T), names(n))
    C = R.copy(deep=True)
    k = dict(vola_halflife=h.halflife("hv"), cov_halflife=h.halflife("hc"), min_periods_vola=h.int("mv", 0, 1), min_periods_cov=0)
    A = list(m.iterated_ewma(R, **k))
    z = h.real("z")
    B = []
    for o in m.iterated_ewma(R, **k):
        B.append((o, o.covariance.copy(deep=True), o.mean.copy(deep=True)))
        o.covariance.iloc[:, :] = z
    h.same("count", len(A), len(B))
    for a, (o, c, mu) in zip(A, B):
        h.eq("covariance", a.covariance, c)
        h.eq("mean", a.mean, mu)
    h.eq("returns", R, C)


def history(h):
    """gaps, a dead and a late asset in a long history"""
    m = h.mod(EW)
    T, n = h.p["T"], 4
    y = h.shaped("y", T, n)
    gap = {(5, 0), (25, 0), (25, 1), (T - 3, 1)} if T < 50 else {(T - 9, 0), (T - 3, 1)}
    dead = h.choice("dead", [NAN, 0])
    r = [[NAN if (t, i) in gap or i == 3 and t < 33 and T < 50 else dead if i == 2 else y[t][i] for i in range(n)] for t in range(T)]
    z = [[0 if (t, i) in gap else y[t][i] for i in range(2)] for t in range(T)]
    R = h.frame(r, days(T), names(n))
    C = R.copy(deep=True)
    k = dict(vola_halflife=10, cov_halflife=21, clip_at=h.choice("clip", [None, 1.6]))
    if h.bool("mean"):
        k["mean"] = True
    A = list(m.iterated_ewma(R, **k))
    B = list(m.iterated_ewma(h.frame(z, days(T), names(2)), **k))
    h.same("dates", [o.time for o in A], [o.time for o in B])
    h.same("count", len(A), T - 38)
    step = 1 if T < 50 else 6
    for a, b in list(zip(A, B))[::-step]:
        lab = ["a", "b"]
        h.eq("volatility", a.volatility.loc[lab], b.volatility)
        h.eq("covariance", a.covariance.loc[lab, lab], b.covariance)
        h.eq("mean", a.mean.loc[lab], b.mean)
        h.same("late", [bool(isnan(a.covariance.loc["d", i])) for i in "abd"], [False] * 3)
        h.same("dead", [bool(isnan(a.covariance.loc["c", i])) for i in "abcd"], [True] * 4)
        h.eq("dead volatility", a.volatility.loc["c"], 0)
    h.eq("returns", R, C)


def years(h):
    """gaps late in years of data"""
    m = h.mod(EW)
    T, n = h.p["T"], 2
    x, unit, y = long.table(h, "y", T, n)
    gap = h.choice("gap", [[(T - 9, 0)], [(530, 0), (530, 1), (531, 1)], [(3, 1), (T - 40, 0), (T - 1, 1)]])
    r = [[NAN if (t, i) in gap else y[t][i] for i in range(n)] for t in range(T)]
    for t, i in gap:
        x[t, i] = 0
    R = h.frame(r, days(T), names(n))
    C = R.copy(deep=True)
    q = h.choice("options", [{}, dict(mean=True, clip=1.5)])
    k = {"clip_at" if a == "clip" else a: b for a, b in q.items()}
    ref = long.iterated(x, 63, 125, **q)
    out = {o.time: o for o in m.iterated_ewma(R, 63, 125, **k)}
    h.same("dates", list(out), [days(T)[t] for t in ref])
    for t in (60, 529, 532, T - 41, T - 39, T - 9, T - 8, T - 1):
        long.same(h, str(t), out[days(T)[t]], ref[t], unit)
    h.eq("returns", R, C)


def listed(h):
    """an asset listed after most of a year, another one suspended for half a year"""
    m = h.mod(EW)
    T, n = h.p["T"], 3
    x, unit, y = long.table(h, "y", T, n)
    gone = {(t, 1) for t in range(260)} | {(t, 2) for t in range(90, 220)}
    r = [[NAN if (t, i) in gone else y[t][i] for i in range(n)] for t in range(T)]
    for t, i in gone:
        x[t, i] = 0
    R = h.frame(r, days(T), names(n))
    q = h.choice("options", [{}, dict(mean=True)])
    ref = long.iterated(x, 63, 125, **q)
    out = {o.time: o for o in m.iterated_ewma(R, 63, 125, **q)}
    h.same("dates", list(out), [days(T)[t] for t in ref])
    for t in (261, 263, 300, T - 1):
        long.same(h, str(t), out[days(T)[t]], ref[t], unit)


CASES = [
    dict(name="nan_is_zero", fn=nan_is_zero, params=dict(), max_paths=2000, merge=True),
    dict(name="dead", fn=dead, params=dict(T=3, n=3), thorough=dict(T=4)),
    dict(name="late", fn=late, params=dict(T=4), thorough=dict(T=5)),
    dict(name="inputs", fn=inputs, params=dict(), merge=True),
    dict(name="fresh", fn=fresh, params=dict()),
    dict(name="history", also=[dict(T=280)], fn=history, params=dict(T=44)),
    dict(name="listed", fn=listed, params=dict(T=330)),
    dict(name="years", fn=years, params=dict(T=620)),
]
