"""Causality of the estimators: nothing dated t depends on data after t."""
from . import long
from .lib import *

BOUNDS = "T<=5 (quick) / 6 (thorough) dates, 2 assets (1 asset with clipping); the future is any other block of real numbers, missing values, or nothing; cut-off date, halflives, clip level and warm-ups symbolic; histories of 44 dates with fixed shape and symbolic units; 560 dates of one asset"
EW = "cvx.covariance.ewma"


def two_histories(h, T, n, futures, pre=None):
    """frames sharing rows 0..k, and k"""
    k = h.int("k", 0, T - 2)
    a = h.reals("y", (T, n), nz=h.p.get("nz", False))
    fut = h.choice("future", futures)
    b = [list(r) for r in a]
    if fut == "other":
        z = h.reals("z", (T, n), nz=h.p.get("nz", False))
        for t in range(k + 1, T):
            b[t] = list(z[t])
    elif fut == "nan":
        for t in range(k + 1, T):
            b[t] = [NAN] * n
    elif fut == "somenan":
        b[k + 1][n - 1] = NAN
    elif fut == "none":
        b = b[: k + 1]
    A = h.frame([list(r) for r in a], index=days(T), columns=names(n))
    B = h.frame(b, index=days(T)[: len(b)], columns=names(n))
    return A, B, days(T)[: k + 1]


def cut(x, ds):
    return x.loc[[i for i in x.index if i in set(ds)]]


def mean(h):
    m = h.mod(EW)
    A, B, ds = two_histories(h, h.p["T"], 2, ["other", "nan", "none"])
    hl = h.halflife("h")
    mp = h.int("mp", 0, h.p["T"] - 1)
    for label, fn in (("mean", lambda R: m.center(R, hl, min_periods=mp, mean_adj=True)[1]),
                      ("centered", lambda R: m.center(R, hl, min_periods=mp, mean_adj=True)[0]),
                      ("passive", lambda R: m.center(R, hl, min_periods=mp, mean_adj=False)[0])):
        x = fn(A)
        if len(cut(x, ds)):
            h.eq(label, cut(x, ds), cut(fn(B), ds))


def vola(h):
    m = h.mod(EW)
    A, B, ds = two_histories(h, h.p["T"], 1, ["other", "nan", "none"])
    hl = h.halflife("h")
    mp = h.int("mp", 0, 2)
    c = h.real("c", sgn="+")
    for label, cl in (("vola", None), ("clipped", c)):
        x = m.volatility(A, hl, min_periods=mp, clip_at=cl)
        if len(cut(x, ds)):
            h.eq(label, cut(x, ds), cut(m.volatility(B, hl, min_periods=mp, clip_at=cl), ds))


def run(h, m, R, **k):
    return {o.time: o for o in m.iterated_ewma(R, **k)}


def compare(h, x, y, ds):
    h.same("dates", [t for t in x if t in set(ds)], [t for t in y if t in set(ds)])
    for t in x:
        if t in set(ds):
            same_iewma(h, "estimate", x[t], y[t])


def iterated(h):
    m = h.mod(EW)
    T, n = h.p["T"], 2
    A, B, ds = two_histories(h, T, n, ["other", "somenan", "none"])
    k = dict(vola_halflife=h.halflife("hv"), cov_halflife=h.halflife("hc"), min_periods_vola=h.int("mv", 0, 2), min_periods_cov=h.int("mc", 0, 2))
    compare(h, run(h, m, A, **k), run(h, m, B, **k), ds)


def iterated_mean(h):
    m = h.mod(EW)
    T, n = h.p["T"], 2
    A, B, ds = two_histories(h, T, n, ["other", "none"])
    hv, hc, h1, h2 = 2, 3.5, 1.5, 5
    mv, mc = 2, h.int("mc", 1, 2)
    for X in (A, B):
        r = [list(x) for x in X.to_numpy()]
        ref_iterated(h, r, h.beta(hv), h.beta(hc), mv, mc, mean=True, b1=h.beta(h1), b2=h.beta(h2))
    k = dict(vola_halflife=hv, cov_halflife=hc, min_periods_vola=mv, min_periods_cov=mc, mean=True, mu_halflife1=h1, mu_halflife2=h2)
    compare(h, run(h, m, A, **k), run(h, m, B, **k), ds)


def iterated_clip(h):
    m = h.mod(EW)
    T, n = h.p["T"], 1
    A, B, ds = two_histories(h, T, n, ["other", "none"])
    k = dict(vola_halflife=h.p["hv"], cov_halflife=h.p["hc"], min_periods_vola=h.int("mv", 0, 2), min_periods_cov=1, clip_at=h.real("c", sgn="+"))
    compare(h, run(h, m, A, **k), run(h, m, B, **k), ds)


def clip(h):
    m = h.mod(EW)
    A, B, ds = two_histories(h, h.p["T"], 2, ["other", "nan", "none"])
    c = h.real("c", sgn="+")
    h.eq("clip", cut(m.clip(A, clip_at=c), ds), cut(m.clip(B, clip_at=c), ds))


def history(h):
    """long histories with the default warm-ups"""
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    k = h.choice("k", h.p["cuts"])
    clip, mean = h.bool("clip"), h.bool("mean")
    u = [h.real(f"unit{i}", sgn="+") for i in range(n)]
    a, z = h.shaped("y", T, n, units=u), h.shaped("z", T, n, units=u if clip or mean else True)
    fut = h.choice("future", ["other", "none", "nan"])
    b = [list(a[t]) if t <= k else list(z[t]) if fut == "other" else [NAN] * n for t in range(T if fut != "none" else k + 1)]
    A, B = h.frame(a, days(T), names(n)), h.frame(b, days(T)[: len(b)], names(n))
    ds = days(T)[: k + 1]
    q = dict(vola_halflife=10, cov_halflife=21)
    if mean:
        q["mean"] = True
    if clip:
        q["clip_at"] = 1.5
    if h.bool("early"):
        q.update(min_periods_vola=3, min_periods_cov=4)
    compare(h, run(h, m, A, **q), run(h, m, B, **q), ds)
    h.eq("volatility", cut(m.volatility(A, 10), ds), cut(m.volatility(B, 10), ds))
    x = m.center(A, 10, mean_adj=True, min_periods=5)
    y = m.center(B, 10, mean_adj=True, min_periods=5)
    h.eq("mean", cut(x[1], ds), cut(y[1], ds))
    h.eq("centered", cut(x[0], ds), cut(y[0], ds))


def years(h):
    """years of data, cut or changed late"""
    m = h.mod(EW)
    T = h.p["T"]
    _, u, y = long.table(h, "y", T, 1)
    k = h.choice("k", h.p["cuts"])
    fut = h.choice("future", ["none", "other", "nan"])
    z = h.shaped("z", 30, 1, units=u)
    b = y[: k + 1] + ([] if fut == "none" else [[NAN] if fut == "nan" else [3 * z[t % 30][0]] for t in range(k + 1, min(T, k + 40))])
    A, B = h.frame(y, days(T), ["a"]), h.frame(b, days(T)[: len(b)], ["a"])
    q = h.choice("options", [{}, dict(clip_at=1.5), dict(mean=True)])
    at = [days(T)[t] for t in (45, 250, k - 1, k)]
    x, w = ({o.time: o for o in m.iterated_ewma(R, 63, 125, **q)} for R in (A, B))
    h.same("dates", [t for t in w if t <= at[-1]], days(T)[38 : k + 1])
    for t in at:
        same_iewma(h, "years", x[t], w[t])


CASES = [
    dict(name="mean", also=[dict(T=2), dict(T=3)], fn=mean, params=dict(T=5), thorough=dict(T=6)),
    dict(name="vola", also=[dict(T=2)], fn=vola, params=dict(T=4), thorough=dict(T=5)),
    dict(name="iterated", also=[dict(T=2), dict(T=3)], fn=iterated, params=dict(T=4, nz=True), thorough=dict(T=5)),
    dict(name="iterated_mean", also=[dict(T=2), dict(T=3)], fn=iterated_mean, params=dict(T=4), thorough=dict(T=5)),
    dict(name="iterated_clip", also=[dict(T=2)], fn=iterated_clip, params=dict(T=3, nz=True, hv=1, hc=0.5), merge=True),
    dict(name="clip", fn=clip, params=dict(T=3), merge=True),
    dict(name="history", fn=history, params=dict(T=44, n=2, cuts=[20, 39, 42])),
    dict(name="years", fn=years, params=dict(T=560, cuts=[270, 530])),
]
