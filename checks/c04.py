"""Winsorization: one observation moves an estimate by a bounded amount."""
from . import long
from .lib import *

BOUNDS = "T<=4 (quick) / 5 (thorough) dates; data, clip level and halflife symbolic; warm-up 0..2; histories of 45 dates with fixed shape and symbolic units, fixed clip levels; 1060 dates of two assets"
EW = "cvx.covariance.ewma"


def recursion(h):
    """volatility with clip_at=c follows the winsorised recursion"""
    m = h.mod(EW)
    T = h.p["T"]
    y = h.reals("y", (T, 1))
    R = h.frame(y, index=days(T), columns=["a"])
    hl = h.halflife("h")
    b = h.beta(hl)
    c = h.real("c", sgn="+")
    mp = h.int("mp", 0, 2)
    ref = ref_clipped_vars(h, [y[t][0] for t in range(T)], b, c * c, mp)
    v = m.volatility(R, hl, min_periods=mp, clip_at=c)
    for t in range(first_visible(mp), T):
        h.eq(f"variance t={t}", v.loc[days(T)[t], "a"] ** 2, ref[t])


def bounded(h):
    """from observation min_periods+1 on, a single new observation of any size
    changes the variance by at most the documented factor, and the variance
    never drops below the zero-return update"""
    m = h.mod(EW)
    T = h.p["T"]
    y = h.reals("y", (T, 2))
    R = h.frame(y, index=days(T), columns=["a", "b"])
    hl = h.p["hl"]
    b = h.beta(hl)
    c = h.real("c", sgn="+")
    slack = 1 + 1e-9  # the last digits of the forgetting factor
    mp = 1
    v = m.volatility(R, hl, min_periods=mp, clip_at=c)
    for t in range(mp + 1, T):
        w = (1 - b) / (1 - b ** (t + 1))
        for j in "ab":
            e0 = v.loc[days(T)[t - 1], j] ** 2
            e1 = v.loc[days(T)[t], j] ** 2
            h.le(f"upper t={t}", e1, e0 * (1 - w + w * c * c) * slack)
            h.le(f"lower t={t}", e0 * (1 - w), e1 * slack)


def inactive(h):
    """observations within the bound are not affected"""
    m = h.mod(EW)
    T = h.p["T"]
    y = h.reals("y", (T, 1))
    R = h.frame(y, index=days(T), columns=["a"])
    hl = h.p["hl"]
    b = h.beta(hl)
    c = h.real("c", sgn="+")
    e = [ref_ewma(h, [y[s][0] ** 2 for s in range(t + 1)], b) for t in range(T)]
    mp = h.int("mp", 0, 2)
    for t in range(mp + 1, T):
        h.assume(y[t][0] ** 2 <= c * c * e[t - 1])
    h.eq("same", m.volatility(R, hl, min_periods=mp, clip_at=c), m.volatility(R, hl, min_periods=mp))


def clip(h):
    """clip limits every entry to +-c, keeps entries inside, the sign, the
    missing entries, and drops exactly the rows that are entirely missing"""
    m = h.mod(EW)
    T, n = 3, 2
    y = h.reals("y", (T, n))
    nan = [[h.bool(f"nan{t}{j}") for j in range(n)] for t in range(T)]
    r = [[NAN if nan[t][j] else y[t][j] for j in range(n)] for t in range(T)]
    R = h.frame(r, index=days(T), columns=names(n))
    c = h.real("c", sgn="+")
    out = m.clip(R, clip_at=c)
    keep = [t for t in range(T) if not all(nan[t])]
    h.same("rows", list(out.index), [days(T)[t] for t in keep])
    h.same("rows without clipping", list(m.clip(R).index), [days(T)[t] for t in keep])
    if keep:
        h.eq("without clipping", m.clip(R), R.iloc[keep])
    for t in keep:
        for j in range(n):
            x = out.loc[days(T)[t], names(n)[j]]
            if nan[t][j]:
                h.same("missing stays missing", bool(isnan(x)), True)
            else:
                v = y[t][j]
                h.eq("value", x, h.min(h.max(v, -c), c))


def adjusted(h):
    """iterated estimator with clipping: standardised returns enter the
    covariance winsorised at +-clip_at"""
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    y = h.reals("y", (T, n), nz=True)
    R = h.frame(y, index=days(T), columns=names(n))
    hv, hc, mv, mc = h.p["hv"], h.p["hc"], h.int("mv", *h.p["mv"]), 1
    c = h.real("c", sgn="+")
    ref = ref_iterated(h, [list(x) for x in y], h.beta(hv), h.beta(hc), mv, mc, clip=c)
    for o in m.iterated_ewma(R, hv, hc, min_periods_vola=mv, min_periods_cov=mc, clip_at=c):
        t = days(T).index(o.time)
        for i in range(n):
            h.eq("volatility", o.volatility.iloc[i] ** 2, ref[t]["vola"][i] ** 2)
            for j in range(n):
                h.eq("covariance", o.covariance.iloc[i, j], ref[t]["cov"][i][j])


def history(h):
    """long histories, warm-ups up to the default"""
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    y = h.shaped("y", T, n)
    c = h.choice("c", [0.4, 1.0, 1.7, 4.2])
    mp = h.choice("mp", [0, 5, 20])
    R = h.frame(y, days(T), names(n))
    v = m.volatility(R, 10, min_periods=mp, clip_at=c)
    for i in range(n):
        ref = ref_clipped_vars(h, [y[t][i] for t in range(T)], h.beta(10), c * c, mp)
        for t in range(first_visible(mp), T):
            h.eq(f"variance t={t}", v.iloc[t - first_visible(mp), i] ** 2, ref[t])
    mean = h.bool("mean")
    if mean and mp < 2:
        return
    b = h.beta(10)
    ref = ref_iterated(h, [list(x) for x in y], b, h.beta(21), mp, 3, mean=mean, b1=b, b2=h.beta(21), clip=c)
    out = list(m.iterated_ewma(R, 10, 21, min_periods_vola=mp, min_periods_cov=3, clip_at=c, mean=mean))
    h.same("dates", [o.time for o in out], [days(T)[t] for t in sorted(ref)])
    for o in out:
        t = days(T).index(o.time)
        for i in range(n):
            for j in range(n):
                h.eq("covariance", o.covariance.iloc[i, j], ref[t]["cov"][i][j])


def blocked(h):
    """whatever one extreme return is, the estimate right after it is bounded
    (long history, one arbitrary return)"""
    m = h.mod(EW)
    T = h.p["T"]
    y = h.shaped("y", T, 1, free=[(T - 3, 0)])
    c = h.choice("c", [0.5, 2.0])
    ref = ref_clipped_vars(h, [y[t][0] for t in range(T)], h.beta(10), c * c, 20)
    v = m.volatility(h.frame(y, days(T), ["a"]), 10, min_periods=20, clip_at=c)
    for t in range(T - 4, T):
        h.eq(f"variance t={t}", v.loc[days(T)[t], "a"] ** 2, ref[t])


def years(h):
    """years of data with a clip that binds often"""
    m = h.mod(EW)
    T, n = h.p["T"], 2
    x, unit, y = long.table(h, "y", T, n)
    R = h.frame(y, days(T), names(n))
    c = h.choice("c", [0.8, 1.6])
    w = h.choice("warm-up", [20, 300])
    v = m.volatility(R, 125, min_periods=w, clip_at=c)
    ref = long.clipped(x, 125, c, w)
    h.same("dates", list(v.index), days(T)[w - 1 :])
    for t in (w, w + 1, 330, 512, 800, T - 1):
        for i in range(n):
            h.eq(f"variance {t} {i}", v.loc[days(T)[t]].iloc[i] ** 2 / unit[i] ** 2, float(ref[t][i]))
    ref = long.iterated(x, 125, 63, w, 20, clip=c)
    out = {o.time: o for o in m.iterated_ewma(R, 125, 63, w, 20, clip_at=c)}
    h.same("dates", list(out), [days(T)[t] for t in ref])
    for t in (w + 19, 330, 512, 800, T - 1):
        long.same(h, f"estimate {t}", out[days(T)[t]], ref[t], unit)


CASES = [
    dict(name="recursion", also=[dict(T=2), dict(T=3)], fn=recursion, params=dict(T=4), thorough=dict(T=5)),
    dict(name="bounded", also=[dict(T=3)], fn=bounded, params=dict(T=4, hl=3.0), thorough=dict(T=5)),
    dict(name="inactive", also=[dict(T=1), dict(T=2)], fn=inactive, params=dict(T=4, hl=3.0)),
    dict(name="clip", fn=clip, params=dict(), merge=True),
    dict(name="adjusted", also=[dict(T=2)], fn=adjusted, params=dict(T=3, n=1, hv=2, hc=3.5, mv=[0, 2]), thorough=dict(T=4)),
    dict(name="adjusted2", fn=adjusted, params=dict(T=3, n=2, hv=2, hc=3.5, mv=[2, 2]), thorough=dict(T=3, mv=[1, 2]), max_paths=3000),
    dict(name="history", fn=history, params=dict(T=45, n=2)),
    dict(name="blocked", fn=blocked, params=dict(T=30)),
    dict(name="years", fn=years, params=dict(T=1060)),
]
