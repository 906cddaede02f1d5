"""Warm-up: which dates are emitted, and that min_periods never changes a value."""
from .lib import *

BOUNDS = "T<=5 (quick) / 6 (thorough) dates, 2 assets; min_periods symbolic integers in 0..T+1; halflives symbolic; returns symbolic, nonzero first row where volatilities are divided by; histories of 62 dates and 3 assets with fixed shape, symbolic units, warm-ups 1-30; warm-ups of 63-600 observations on 560 dates"
EW = "cvx.covariance.ewma"


def simple(h):
    """center and volatility: first estimate at observation max(min_periods,1), then every date"""
    m = h.mod(EW)
    T, n = h.p["T"], 2
    R = h.frame(h.reals("y", (T, n)), index=days(T), columns=names(n))
    hl = h.halflife("h")
    mp = h.int("mp", 0, T + 1)
    want = days(T)[first_visible(mp):]
    c0, m0 = m.center(R, hl, min_periods=0, mean_adj=True)
    v0 = m.volatility(R, hl, min_periods=0)
    h.same("all dates", list(m0.index), days(T))
    h.same("all dates", list(v0.index), days(T))
    if want:
        c1, m1 = m.center(R, hl, min_periods=mp, mean_adj=True)
        v1 = m.volatility(R, hl, min_periods=mp)
        h.same("mean dates", list(m1.index), want)
        h.same("vola dates", list(v1.index), want)
        h.same("centered dates", list(c1.index), want)
        h.eq("mean values", m1, m0.loc[want])
        h.eq("vola values", v1, v0.loc[want])
        h.eq("centered values", c1, c0.loc[want])
    else:
        v1 = m.volatility(R, hl, min_periods=mp)
        h.same("nothing visible", len(v1), 0)


def iterated(h):
    """iterated_ewma emits every date from max(mv-1,0)+max(mc-1,0) on, once, in order"""
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    r = h.reals("y", (T, n))
    for t in range(T):
        for j in range(n):
            h.assume(r[t][j] > 0) if t == 0 else None
    R = h.frame(r, index=days(T), columns=names(n))
    mv = h.int("mv", 0, T)
    mc = h.int("mc", 0, T)
    out = list(m.iterated_ewma(R, vola_halflife=h.halflife("hv"), cov_halflife=h.halflife("hc"), min_periods_vola=mv, min_periods_cov=mc))
    k = first_visible(mv) + first_visible(mc)
    h.same("dates", [o.time for o in out], days(T)[k:])
    for o in out:
        h.same("labels", [list(o.covariance.index), list(o.covariance.columns), list(o.volatility.index), list(o.mean.index)], [names(n)] * 4)


def iterated_mean(h):
    """with mean=True the first centered observation is exactly zero; it has no
    usable volatility, dates still follow the same schedule from the second
    usable observation on"""
    m = h.mod(EW)
    T, n = h.p["T"], 2
    r = h.reals("y", (T, n))
    R = h.frame(r, index=days(T), columns=names(n))
    mv = h.int("mv", 2, T)
    mc = h.int("mc", 2, T)
    # precondition: no degenerate (zero) volatility or standardised variance
    bv, bc = h.beta(h.p["hv"]), h.beta(h.p["hc"])
    ref_iterated(h, [list(x) for x in r], bv, bc, mv, mc, mean=True, b1=bv, b2=bc)
    out = list(m.iterated_ewma(R, vola_halflife=h.p["hv"], cov_halflife=h.p["hc"], min_periods_vola=mv, min_periods_cov=mc, mean=True))
    k = first_visible(mv) + first_visible(mc)
    h.same("dates", [o.time for o in out], days(T)[k:])


def defaults(h):
    """default warm-up is 20 observations for each stage"""
    m = h.mod(EW)
    T = h.p["T"]
    c = h.real("c", sgn="+")
    R = h.frame([[c * (1 + (5 * t) % 7)] for t in range(T)], index=days(T), columns=["x"])
    hl = h.choice("hl", [3, 21])
    out = list(m.iterated_ewma(R, vola_halflife=hl, cov_halflife=hl))
    h.same("dates", [o.time for o in out], days(T)[38:])


def covariance_values(h):
    """a longer covariance warm-up hides early dates but changes no value"""
    m = h.mod(EW)
    T, n = h.p["T"], 2
    r = h.reals("y", (T, n), nz=True)
    R = h.frame(r, index=days(T), columns=names(n))
    hv, hc = h.halflife("hv"), h.halflife("hc")
    mv = h.int("mv", 0, 2)
    mc = h.int("mc", 0, T)
    base = {o.time: o for o in m.iterated_ewma(R, hv, hc, min_periods_vola=mv, min_periods_cov=0)}
    for o in m.iterated_ewma(R, hv, hc, min_periods_vola=mv, min_periods_cov=mc):
        same_iewma(h, f"mc", o, base[o.time])


def history(h):
    """default and long warm-ups on a long history"""
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    R = h.frame(h.shaped("y", T, n), days(T), names(n))
    mean = h.bool("mean")
    mv = h.choice("mv", [1, 2, 20, 30]) if not mean else h.choice("mv", [2, 20, 30])
    mc = h.choice("mc", [1, 2, 20, 30]) if not mean else h.choice("mc", [2, 20, 30])
    k = dict(vola_halflife=10, cov_halflife=21, mean=mean)
    if h.bool("clip"):
        k["clip_at"] = 1.5
    base = {o.time: o for o in m.iterated_ewma(R, min_periods_vola=mv, min_periods_cov=2, **k)}
    w = dict(min_periods_vola=mv, min_periods_cov=mc)
    if mv == mc == 20:
        w = {}
    out = list(m.iterated_ewma(R, **w, **k))
    h.same("dates", [o.time for o in out], days(T)[first_visible(mv) + first_visible(mc):])
    for o in out:
        if o.time in base:
            same_iewma(h, "value", o, base[o.time])
    if mean:
        v = m.center(R, 10, min_periods=mv, mean_adj=True)
        h.same("centered dates", list(v[0].index), days(T)[first_visible(mv):])
    v = m.volatility(R, 10, min_periods=mv)
    h.same("volatility dates", list(v.index), days(T)[first_visible(mv):])
    h.eq("volatility values", v, m.volatility(R, 10).loc[v.index])


def years(h):
    """warm-ups of a quarter, half a year and a year"""
    m = h.mod(EW)
    T = h.p["T"]
    R = h.frame(h.shaped("y", T, 1), days(T), names(1))
    mv = h.choice("mv", [63, 126, 252, 520, 600])
    mc = h.choice("mc", [2, 70, 252, 400])
    v = m.volatility(R, 30, min_periods=mv)
    h.same("volatility dates", list(v.index), days(T)[first_visible(mv):])
    w = m.volatility(R, 30)
    for t in days(T)[259::100]:
        if t in v.index:
            h.eq("volatility", v.loc[t], w.loc[t])
    mean = h.bool("mean")
    if mean and mv < T:
        c, mu = m.center(R, 30, min_periods=mv, mean_adj=True)
        h.same("mean dates", [list(c.index), list(mu.index)], [days(T)[first_visible(mv):]] * 2)
    if mv >= T:  # no volatility, nothing to standardise
        return
    out = [o.time for o in m.iterated_ewma(R, 30, 60, min_periods_vola=mv, min_periods_cov=mc, mean=mean)]
    h.same("dates", out, days(T)[first_visible(mv) + first_visible(mc):])


CASES = [
    dict(name="simple", also=[dict(T=1), dict(T=2)], fn=simple, params=dict(T=5), thorough=dict(T=7)),
    dict(name="iterated", also=[dict(T=1), dict(T=2)], fn=iterated, params=dict(T=4, n=2), thorough=dict(T=5)),
    dict(name="iterated_mean", also=[dict(T=2), dict(T=3)], fn=iterated_mean, params=dict(T=4, hv=2, hc=3.5), thorough=dict(T=5)),
    dict(name="defaults", fn=defaults, params=dict(T=41)),
    dict(name="covariance_values", also=[dict(T=1), dict(T=2)], fn=covariance_values, params=dict(T=4), thorough=dict(T=5)),
    dict(name="history", fn=history, params=dict(T=62, n=3)),
    dict(name="years", fn=years, params=dict(T=560)),
]
