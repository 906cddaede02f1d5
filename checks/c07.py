"""Units, asset order, labels and dates carry through the estimators."""
from . import long
from .lib import *

BOUNDS = "T<=4 dates, 2 and 3 assets; per-asset unit factors, returns, halflives symbolic; every permutation / sub-universe of 3 assets; string, integer and date labels in increasing order; histories of 42 dates and 5 assets with fixed shape and symbolic units; 560 dates of two assets, 50 dates of 13 assets"
EW = "cvx.covariance.ewma"
PERMS = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]


def kw(h, sym=True):
    if sym:
        return dict(vola_halflife=h.halflife("hv"), cov_halflife=h.halflife("hc"), min_periods_vola=h.int("mv", 0, 2), min_periods_cov=h.int("mc", 0, 2))
    return dict(vola_halflife=1, cov_halflife=0.5, min_periods_vola=2, min_periods_cov=2, mean=True, mu_halflife1=0.25, mu_halflife2=0.125)


def regular(h, y, k):
    b = {x: h.beta(k[x]) for x in ("vola_halflife", "cov_halflife", "mu_halflife1", "mu_halflife2") if x in k}
    ref_iterated(h, [list(r) for r in y], b["vola_halflife"], b["cov_halflife"], k["min_periods_vola"], k["min_periods_cov"],
                 mean=k.get("mean", False), b1=b.get("mu_halflife1"), b2=b.get("mu_halflife2"))


def units(h):
    """measuring asset i in units s_i > 0 rescales every output accordingly"""
    m = h.mod(EW)
    T, n = h.p["T"], 2
    y = h.reals("y", (T, n))
    s = [h.real(f"s{i}", sgn="+") for i in range(n)]
    k = kw(h, not h.p["mean"])
    regular(h, y, k)
    A = list(m.iterated_ewma(h.frame(y, days(T), names(n)), **k))
    B = list(m.iterated_ewma(h.frame([[y[t][i] * s[i] for i in range(n)] for t in range(T)], days(T), names(n)), **k))
    h.same("dates", [o.time for o in A], [o.time for o in B])
    for a, b in zip(A, B):
        for i in range(n):
            h.eq("volatility", b.volatility.iloc[i], s[i] * a.volatility.iloc[i])
            h.eq("mean", b.mean.iloc[i], s[i] * a.mean.iloc[i])
            for j in range(n):
                h.eq("covariance", b.covariance.iloc[i, j], s[i] * s[j] * a.covariance.iloc[i, j])


def units_simple(h):
    m = h.mod(EW)
    T, n = h.p["T"], 2
    y = h.reals("y", (T, n))
    s = [h.real(f"s{i}", sgn="+") for i in range(n)]
    hl = h.halflife("h")
    c = h.real("c", sgn="+")
    A = h.frame(y, days(T), names(n))
    B = h.frame([[y[t][i] * s[i] for i in range(n)] for t in range(T)], days(T), names(n))
    ma, mb = m.center(A, hl, mean_adj=True)[1], m.center(B, hl, mean_adj=True)[1]
    va, vb = m.volatility(A, hl, clip_at=c), m.volatility(B, hl, clip_at=c)
    for t in range(T):
        for i in range(n):
            h.eq("mean", mb.iloc[t, i], s[i] * ma.iloc[t, i])
            h.eq("volatility", vb.iloc[t, i], s[i] * va.iloc[t, i])


def universe(h):
    """permuting or dropping assets permutes / restricts the outputs"""
    m = h.mod(EW)
    T, n = h.p["T"], 3
    y = h.reals("y", (T, n))
    sub = h.choice("universe", h.p["subs"])
    k = kw(h, not h.p["mean"])
    regular(h, y, k)
    A = list(m.iterated_ewma(h.frame(y, days(T), names(n)), **k))
    B = list(m.iterated_ewma(h.frame([[y[t][i] for i in sub] for t in range(T)], days(T), [names(n)[i] for i in sub]), **k))
    h.same("dates", [o.time for o in A], [o.time for o in B])
    lab = [names(n)[i] for i in sub]
    for a, b in zip(A, B):
        h.eq("volatility", b.volatility, a.volatility.loc[lab])
        h.eq("mean", b.mean, a.mean.loc[lab])
        h.eq("covariance", b.covariance, a.covariance.loc[lab, lab])


def labels(h):
    """labels are opaque: other dates / names give the same numbers"""
    m = h.mod(EW)
    T, n = 3, 2
    y = h.reals("y", (T, n), nz=True)
    k = kw(h)
    idx, col = h.choice("labels", [([0, 1, 2], [7, 3]), (["x", "y", "z"], [("a", 1), ("b", 2)]), ([0.5, 1, 13], ["b", "a"]), (days(T, "1999-12-30"), [0, 1])])
    col = pd.Index(col, tupleize_cols=False)
    A = list(m.iterated_ewma(h.frame(y, days(T), names(n)), **k))
    B = list(m.iterated_ewma(h.frame(y, idx, col), **k))
    h.same("dates", [o.time for o in B], [idx[days(T).index(a.time)] for a in A])
    for a, b in zip(A, B):
        h.same("labels", [list(b.covariance.index), list(b.covariance.columns), list(b.volatility.index)], [list(col)] * 3)
        h.same("mean labels", list(b.mean.index), list(col))
        h.eq("volatility", b.volatility.to_numpy(), a.volatility.to_numpy())
        h.eq("mean", b.mean.to_numpy(), a.mean.to_numpy())
        h.eq("covariance", b.covariance.to_numpy(), a.covariance.to_numpy())


def history(h):
    """long histories: units, order and sub-universes"""
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    y = h.shaped("y", T, n)
    s = [h.real(f"s{i}", sgn="+") for i in range(n)]
    sub = h.choice("universe", [(3, 1, 4, 0, 2), (4, 2), (2,), (0, 1, 2, 3)])
    k = dict(vola_halflife=10, cov_halflife=21, mean=h.bool("mean"), clip_at=h.choice("clip", [None, 1.6]))
    A = list(m.iterated_ewma(h.frame(y, days(T), names(n)), **k))
    B = list(m.iterated_ewma(h.frame([[y[t][i] * s[i] for i in sub] for t in range(T)], days(T, "1999-12-01"), list(range(len(sub)))), **k))
    h.same("dates", [o.time for o in B], days(T, "1999-12-01")[38:])
    h.same("count", len(A), len(B))
    for a, b in zip(A, B):
        for p, i in enumerate(sub):
            h.eq("volatility", b.volatility.iloc[p], s[i] * a.volatility.iloc[i])
            h.eq("mean", b.mean.iloc[p], s[i] * a.mean.iloc[i])
            for q, j in enumerate(sub):
                h.eq("covariance", b.covariance.iloc[p, q], s[i] * s[j] * a.covariance.iloc[i, j])


def years(h):
    """years of data or many assets: units, order, labels"""
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    x, unit, y = long.table(h, "y", T, n)
    s = [h.real(f"s{i}", sgn="+") for i in range(n)]
    sub = h.p["sub"]
    k = dict(vola_halflife=21, cov_halflife=63, **h.choice("options", [{}, dict(mean=True, clip_at=1.6)]))
    A = {o.time: o for o in m.iterated_ewma(h.frame(y, days(T), [f"x{i}" for i in range(n)]), **k)}
    lab = [f"{(7 * i) % 11}{i}" for i in range(len(sub))]
    B = {o.time: o for o in m.iterated_ewma(h.frame([[y[t][i] * s[i] for i in sub] for t in range(T)], days(T), lab), **k)}
    h.same("dates", list(B), list(A))
    for t in h.p["at"]:
        a, b = A[days(T)[t]], B[days(T)[t]]
        h.same("labels", [list(b.covariance.index), list(b.covariance.columns), list(b.volatility.index), list(b.mean.index)], [lab] * 4)
        for p, i in enumerate(sub):
            h.eq("volatility", b.volatility.iloc[p] / (s[i] * unit[i]), a.volatility.iloc[i] / unit[i])
            h.eq("mean", b.mean.iloc[p] / (s[i] * unit[i]), a.mean.iloc[i] / unit[i])
            for q, j in enumerate(sub):
                h.eq("covariance", b.covariance.iloc[p, q] / (s[i] * s[j] * unit[i] * unit[j]), a.covariance.iloc[i, j] / (unit[i] * unit[j]))


CASES = [
    dict(name="units", also=[dict(T=1), dict(T=2)], fn=units, params=dict(T=4, mean=False)),
    dict(name="units_mean", fn=units, params=dict(T=4, mean=True)),
    dict(name="units_simple", fn=units_simple, params=dict(T=3), merge=True),
    dict(name="universe", also=[dict(T=1)], fn=universe, params=dict(T=3, mean=False, subs=PERMS + [(0, 1), (2, 0), (1,), (2, 1)]), thorough=dict(T=4)),
    dict(name="universe_mean", fn=universe, params=dict(T=4, mean=True, subs=[(1, 0, 2), (2, 0), (1,)]), thorough=dict(subs=PERMS)),
    dict(name="labels", fn=labels, params=dict()),
    dict(name="history", fn=history, params=dict(T=42, n=5)),
    dict(name="years", fn=years, params=dict(T=560, n=2, sub=[1, 0], at=[45, 300, 559]), also=[dict(T=50, n=13, sub=[9, 3, 12, 0, 7, 1, 4, 11, 2, 8, 10, 6], at=[40, 49])]),
]
