"""The vectorised iterated EWMA agrees with the library's."""
from . import long
from .reg import *

BOUNDS = "T<=4 (quick) / 5 (thorough) dates, 2 assets (1 with clipping), warm-ups 0..T+1, half-lives symbolic without mean adjustment; low-rank option: 2-3 assets, 2-3 dates, every rank; histories of 32-42 dates of 1-3 assets, default warm-ups, clipping, mean adjustment with fixed shape and symbolic units; 1060 dates of 2 assets; tables of whole numbers"
EW = "cvx.covariance.ewma"
IV = "experiments.utils.iterated_ewma_vec"


def compare(h, a, b, mean):
    a = {o.time: o for o in a}
    cov = b.covariance if mean else b
    h.same("dates", list(cov), list(a))
    if mean:
        h.same("mean dates", list(b.mean), list(a))
    for t in a:
        h.eq("covariance", cov[t], a[t].covariance)
        if mean:
            h.eq("mean", b.mean[t], a[t].mean)


def plain(h):
    v, m = h.mod(IV), h.mod(EW)
    T = h.p["T"]
    R = h.frame(h.reals("r", (T, 2), nz=True), days(T), names(2))
    k = dict(vola_halflife=h.halflife("hv"), cov_halflife=h.halflife("hc"), min_periods_vola=h.int("mv", 0, T), min_periods_cov=h.int("mc", 0, T))
    c = R.copy()
    compare(h, m.iterated_ewma(R, **k), v.iterated_ewma(R, **k), False)
    h.eq("input unchanged", R, c)


def mean(h):
    v, m = h.mod(IV), h.mod(EW)
    T = h.p["T"]
    hv, hc = h.choice("h", [(1, 0.5), (0.5, 1)])
    R = h.frame(h.reals("r", (T, h.p["n"]), nz=True), days(T), names(h.p["n"]))
    mv, mc = h.int("mv", 2, T - 1), 2
    r = [list(x) for x in R.to_numpy()]
    ref_iterated(h, r, h.beta(hv), h.beta(hc), mv, mc, mean=True, b1=h.beta(hv), b2=h.beta(hc))  # regularity
    k = dict(vola_halflife=hv, cov_halflife=hc, mean=True)
    asked = h.choice("asked", [(mv, mc), (0, 0)]) if mv == 2 else (mv, mc)
    compare(h, m.iterated_ewma(R, min_periods_vola=mv, min_periods_cov=mc, **k), v.iterated_ewma(R, min_periods_vola=asked[0], min_periods_cov=asked[1], **k), True)


def clipped(h):
    v, m = h.mod(IV), h.mod(EW)
    T = h.p["T"]
    hv, hc = h.choice("h", [(1, 0.5)])
    R = h.frame(h.reals("r", (T, 1), nz=True), days(T), names(1))
    k = dict(vola_halflife=hv, cov_halflife=hc, min_periods_vola=h.int("mv", 1, 2), min_periods_cov=h.int("mc", 1, 2), clip_at=h.real("c", sgn="+"))
    compare(h, m.iterated_ewma(R, **k), v.iterated_ewma(R, **k), False)


def low_rank_pipeline(h):
    """iterated_ewma(low_rank=r) = regularising the covariances it gives without"""
    v, g = h.mod(IV), h.mod("cvx.covariance.regularization")
    T, n = h.p["T"], h.p["n"]
    R = h.frame(h.reals("r", (T, n), nz=True), days(T), names(n))
    k = dict(vola_halflife=h.choice("h", [1, 0.5]), cov_halflife=0.5, min_periods_vola=1, min_periods_cov=h.int("mc", 2, T))
    r = h.int("r", 1, n)
    a = v.iterated_ewma(R, **k)
    with h.regular():
        ref = dict(g.regularize_covariance(a, r))
        out = v.iterated_ewma(R, low_rank=r, **k)
    h.same("dates", list(out), list(ref))
    for t in out:
        h.eq("covariance", out[t], ref[t])


def history(h):
    """long histories of fixed shape in arbitrary units, default warm-ups"""
    v, m = h.mod(IV), h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    R = h.frame(h.shaped("r", T, n), days(T), names(n))
    k = dict(vola_halflife=h.choice("vola", [1, 10]), cov_halflife=h.choice("cov", [0.5, 21]))
    c = h.choice("clip", h.p["clips"])
    if c:
        k["clip_at"] = c
    mv, mc = h.choice("warm-ups", [(None, None), (5, 9), (2, 30)])
    if mv:
        k.update(min_periods_vola=mv, min_periods_cov=mc)
    mean = h.bool("mean") if not c else False
    c = R.copy()
    compare(h, m.iterated_ewma(R, mean=mean, **k), v.iterated_ewma(R, mean=mean, **k), mean)
    h.eq("input unchanged", R, c)


def short(h):
    """histories up to and beyond the end of the warm-ups, with every option"""
    v, m = h.mod(IV), h.mod(EW)
    T, n = h.int("T", 1, h.p["T"]), h.p["n"]
    R = h.frame(h.shaped("r", T, n), days(T), names(n))
    k = dict(vola_halflife=1, cov_halflife=0.5, min_periods_vola=h.int("mv", 2, 4), min_periods_cov=h.int("mc", 2, 4))
    mean = h.bool("mean")
    if h.bool("clip"):
        k["clip_at"] = 1.25
    compare(h, m.iterated_ewma(R, mean=mean, **k), v.iterated_ewma(R, mean=mean, **k), mean)
    if not mean and n > 1:
        a = v.iterated_ewma(R, **k)
        out = v.iterated_ewma(R, low_rank=1, **k)
        h.same("low rank dates", list(out), list(a))


def integers(h):
    """tables of whole numbers"""
    v, m = h.mod(IV), h.mod(EW)
    A, B = whole(h, "y", 7, 2)
    k = h.choice("options", [{}, dict(clip_at=1.5), dict(mean=True)])
    mp = 2 if "mean" in k else 1
    k = dict(k, min_periods_vola=mp, min_periods_cov=mp, vola_halflife=2, cov_halflife=5)
    compare(h, m.iterated_ewma(B, **k), v.iterated_ewma(A, **k), k.get("mean", False))


def years(h):
    """years of data, half-lives long against them"""
    v = h.mod(IV)
    T, n = h.p["T"], h.p["n"]
    x, unit, y = long.table(h, "y", T, n)
    k = h.choice("options", h.p["options"])
    hv, hc = h.p["hl"]
    ref = long.iterated(x, hv, hc, mean=k.get("mean", False), clip=k.get("clip_at"))
    out = v.iterated_ewma(h.frame(y, days(T), names(n)), hv, hc, **k)
    cov, mu = (out.covariance, out.mean) if k.get("mean") else (out, None)
    h.same("dates", list(cov), [days(T)[t] for t in ref])
    for t in h.p["at"]:
        m, C, _ = ref[t]
        for i in range(n):
            if mu is not None:
                h.eq(f"{t} mean {i}", mu[days(T)[t]].iloc[i] / unit[i], float(m[i]))
            for j in range(n):
                h.eq(f"{t} covariance {i}{j}", cov[days(T)[t]].iloc[i, j] / (unit[i] * unit[j]), float(C[i, j]))


CASES = [
    dict(name="years", fn=years, params=dict(T=1060, n=2, hl=[250, 500], at=[45, 255, 300, 510, 770, 1059], options=[{}, dict(clip_at=1.5), dict(mean=True)])),
    dict(name="plain", also=[dict(T=1), dict(T=2)], fn=plain, params=dict(T=4), thorough=dict(T=5)),
    dict(name="mean_1", also=[dict(T=3)], fn=mean, params=dict(T=4, n=1)),
    dict(name="mean_2", fn=mean, params=dict(T=3, n=2), thorough=dict(T=4)),
    dict(name="clipped", fn=clipped, params=dict(T=3), merge=True),
    dict(name="low_rank_2", fn=low_rank_pipeline, params=dict(T=2, n=2), thorough=dict(T=3)),
    dict(name="low_rank_3", fn=low_rank_pipeline, params=dict(T=2, n=3), thorough=dict(T=3)),
    dict(name="history", fn=history, params=dict(T=42, n=1, clips=[None]), budget=120),
    dict(name="history_clip", fn=history, params=dict(T=42, n=1, clips=[1.25, 4.2]), budget=120),
    dict(name="history_3", fn=history, params=dict(T=32, n=3, clips=[None, 1.25]), budget=120),
    dict(name="short", fn=short, params=dict(T=6, n=1)),
    dict(name="short_2", fn=short, params=dict(T=5, n=2)),
    dict(name="integers", fn=integers, params=dict()),
]
