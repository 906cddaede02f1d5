"""The iterated EWMA estimate is the documented two-stage formula."""
from . import long
from .lib import *

BOUNDS = "T<=4 (quick) / 5 (thorough) dates with symbolic halflives, T<=8 / 12 with concrete halflives (1 and 2 assets); returns symbolic; nonzero volatilities; mean adjustment on and off, all four halflives distinct, each mean halflife given or left to its default; histories of 42-45 dates, 2-3 assets and of 260-300 dates, default warm-ups, clipping, mean adjustment with fixed shape and symbolic units; 1060 dates of 2 assets; tables of whole numbers"
EW = "cvx.covariance.ewma"


def compare(h, outs, ref, T, n, mean):
    h.same("dates", [o.time for o in outs], [days(T)[t] for t in sorted(ref)])
    for o in outs:
        t = days(T).index(o.time)
        r = ref[t]
        h.same("labels", [list(o.covariance.index), list(o.covariance.columns), list(o.volatility.index)], [names(n)] * 3)
        if mean:
            h.same("mean labels", list(o.mean.index), names(n))
        for i in range(n):
            h.eq(f"volatility t={t}", o.volatility.iloc[i] ** 2, r["vola"][i] ** 2)
            h.ge0(f"volatility sign t={t}", o.volatility.iloc[i])
            h.eq(f"mean t={t}", o.mean.iloc[i], r["mean"][i])
            for j in range(n):
                h.eq(f"covariance t={t} {i}{j}", o.covariance.iloc[i, j], r["cov"][i][j])


def plain(h):
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    y = h.reals("y", (T, n))
    hv, hc = h.halflife("hv"), h.halflife("hc")
    mv, mc = h.int("mv", 0, 2), h.int("mc", 0, 2)
    ref = ref_iterated(h, [list(r) for r in y], h.beta(hv), h.beta(hc), mv, mc)
    outs = list(m.iterated_ewma(h.frame(y, days(T), names(n)), hv, hc, min_periods_vola=mv, min_periods_cov=mc))
    compare(h, outs, ref, T, n, False)


def longer(h):
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    y = h.reals("y", (T, n), nz=True)
    hv, hc = h.p["hv"], h.p["hc"]
    ref = ref_iterated(h, [list(r) for r in y], h.beta(hv), h.beta(hc), h.p["mv"], h.p["mc"])
    outs = list(m.iterated_ewma(h.frame(y, days(T), names(n)), hv, hc, min_periods_vola=h.p["mv"], min_periods_cov=h.p["mc"]))
    compare(h, outs, ref, T, n, False)


def mean(h):
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    y = h.reals("y", (T, n))
    if h.p["hl"]:
        hv, hc, h1, h2 = h.p["hl"]
    else:
        hv, hc, h1, h2 = (h.halflife(x) for x in ("hv", "hc", "h1", "h2"))
    mv, mc = 2, h.int("mc", 1, 2)
    ref = ref_iterated(h, [list(r) for r in y], h.beta(hv), h.beta(hc), mv, mc, mean=True, b1=h.beta(h1), b2=h.beta(h2))
    given = h.choice("given", ["both", "first", "second", "none"])
    k = {}
    if given in ("both", "first"):
        k["mu_halflife1"] = h1
    if given in ("both", "second"):
        k["mu_halflife2"] = h2
    if given != "both":
        b1, b2 = h1 if "mu_halflife1" in k else hv, h2 if "mu_halflife2" in k else hc
        ref = ref_iterated(h, [list(r) for r in y], h.beta(hv), h.beta(hc), mv, mc, mean=True, b1=h.beta(b1), b2=h.beta(b2))
    outs = list(m.iterated_ewma(h.frame(y, days(T), names(n)), hv, hc, min_periods_vola=mv, min_periods_cov=mc, mean=True, **k))
    compare(h, outs, ref, T, n, True)


def history(h):
    """a long history of fixed shape, every asset in its own units"""
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    y = h.shaped("y", T, n)
    hv, hc = h.p["hl"][:2]
    k = dict(min_periods_vola=h.p["warm"], min_periods_cov=h.p["warm"]) if "warm" in h.p else {}
    w = h.p.get("warm", 20)
    clip, mu = h.p.get("clip"), h.p.get("mean", False)
    if clip:
        k["clip_at"] = clip
    if mu:
        k.update(mean=True, mu_halflife1=h.p["hl"][2], mu_halflife2=h.p["hl"][3])
    ref = ref_iterated(h, [list(r) for r in y], h.beta(hv), h.beta(hc), w, w, mean=mu, b1=h.beta(h.p["hl"][-2]), b2=h.beta(h.p["hl"][-1]), clip=clip)
    outs = list(m.iterated_ewma(h.frame(y, days(T), names(n)), hv, hc, **k))
    compare(h, outs, ref, T, n, mu)


def years(h):
    """years of data: estimates at some dates"""
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    x, unit, y = long.table(h, "y", T, n)
    k = h.choice("options", h.p["options"])
    hv, hc = h.p["hl"]
    q = dict(mean=k.get("mean", False), h1=k.get("mu_halflife1"), h2=k.get("mu_halflife2"), clip=k.get("clip_at"))
    ref = long.iterated(x, hv, hc, **q)
    outs = {o.time: o for o in m.iterated_ewma(h.frame(y, days(T), names(n)), hv, hc, **k)}
    h.same("dates", list(outs), [days(T)[t] for t in ref])
    for t in h.p["at"]:
        long.same(h, str(t), outs[days(T)[t]], ref[t], unit)


def integers(h):
    """tables of whole numbers"""
    m = h.mod(EW)
    A, B = whole(h, "y", 7, 2)
    k = h.choice("options", [{}, dict(clip_at=1.5), dict(mean=True), dict(mean=True, clip_at=2, mu_halflife1=3)])
    k = dict(k, min_periods_vola=1, min_periods_cov=1)
    a, b = list(m.iterated_ewma(A, 2, 5, **k)), list(m.iterated_ewma(B, 2, 5, **k))
    h.same("number", len(a), len(b))
    for x, y in zip(a, b):
        same_iewma(h, "estimate", x, y)


CASES = [
    dict(name="plain", also=[dict(T=1), dict(T=2), dict(T=3, n=1)], fn=plain, params=dict(T=4, n=2), thorough=dict(T=5)),
    dict(name="longer1", fn=longer, params=dict(T=7, n=1, hv=4, hc=9, mv=3, mc=2), thorough=dict(T=8)),
    dict(name="longer2", fn=longer, params=dict(T=6, n=2, hv=4, hc=9, mv=2, mc=2), thorough=dict(T=8)),
    dict(name="mean_sym", also=[dict(T=2)], fn=mean, params=dict(T=3, n=2, hl=None), thorough=dict(T=4)),
    dict(name="mean1", fn=mean, params=dict(T=5, n=1, hl=[1, 0.5, 0.25, 0.125]), thorough=dict(T=6)),
    dict(name="mean2", fn=mean, params=dict(T=4, n=2, hl=[1, 0.5, 0.25, 0.125]), thorough=dict(T=5)),
    dict(name="history", also=[dict(T=300, n=1, hl=[63, 125])], fn=history, params=dict(T=45, n=3, hl=[10, 21])),
    dict(name="history_clip", fn=history, params=dict(T=42, n=2, hl=[10, 21], clip=1.3)),
    dict(name="history_mean", fn=history, params=dict(T=42, n=2, hl=[10, 21, 7, 30], mean=True), also=[dict(T=260, n=1, clip=1.3)]),
    dict(name="years", fn=years, params=dict(T=1060, n=2, hl=[125, 250], at=[45, 255, 300, 510, 770, 1059], options=[{}, dict(clip_at=1.5), dict(mean=True, mu_halflife1=300), dict(mean=True, clip_at=1.25, mu_halflife2=63)])),
    dict(name="integers", fn=integers, params=dict()),
]
