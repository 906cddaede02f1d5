"""EWMA estimates are normalised exponentially weighted averages."""
from .lib import *

BOUNDS = "halflife symbolic: up to T=5 (quick) / 7 (thorough) observations, 2 assets; concrete halflives: up to T=30 (quick) / 90 (thorough) observations; data symbolic reals throughout; histories of 70 (thorough 150) dates and 5 assets with fixed shape and symbolic units; tables of whole numbers"
EW = "cvx.covariance.ewma"


def run_center(h, r, hl, betas, T, n, minp=0):
    m = h.mod(EW)
    R = h.frame(r, index=days(T), columns=names(n))
    c, mean = m.center(R, hl, min_periods=minp, mean_adj=True)
    h.same("times", list(mean.index), days(T))
    h.same("assets", list(mean.columns), names(n))
    for t in range(T):
        for j in range(n):
            e = ref_ewma(h, [r[s][j] for s in range(t + 1)], betas)
            h.eq(f"mean t={t} asset={j}", mean.iloc[t, j], e)
            h.eq(f"centered t={t} asset={j}", c.iloc[t, j], r[t][j] - e)


def run_vola(h, r, hl, b, T, n):
    m = h.mod(EW)
    R = h.frame(r, index=days(T), columns=names(n))
    v = m.volatility(R, hl)
    h.same("times", list(v.index), days(T))
    h.same("assets", list(v.columns), names(n))
    for t in range(T):
        for j in range(n):
            e = ref_ewma(h, [r[s][j] * r[s][j] for s in range(t + 1)], b)
            h.eq(f"vola t={t} asset={j}", v.iloc[t, j] * v.iloc[t, j], e)
            h.ge0(f"vola sign t={t} asset={j}", v.iloc[t, j])


def center_sym(h):
    T, n = h.p["T"], h.p["n"]
    hl = h.halflife("h")
    run_center(h, h.reals("y", (T, n)), hl, h.beta(hl), T, n)


def vola_sym(h):
    T, n = h.p["T"], h.p["n"]
    hl = h.halflife("h")
    run_vola(h, h.reals("y", (T, n)), hl, h.beta(hl), T, n)


def center_long(h):
    T = h.p["T"]
    hl = h.choice("hl", h.p["halflives"])
    run_center(h, h.reals("y", (T, 1)), hl, h.beta(hl), T, 1)


def vola_long(h):
    T = h.p["T"]
    hl = h.choice("hl", h.p["halflives"])
    run_vola(h, h.reals("y", (T, 1)), hl, h.beta(hl), T, 1)


def inactive(h):
    """mean_adj=False leaves the data alone and reports zero mean"""
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    r = h.reals("y", (T, n))
    R = h.frame(r, index=days(T), columns=names(n))
    hl = h.halflife("h")
    mp = h.lazyint("min_periods", 0, T + 1)
    c, mean = m.center(R, hl, min_periods=mp, mean_adj=False)
    h.eq("unchanged", c, R)
    for t in range(T):
        for j in range(n):
            h.eq("zero", mean.iloc[t, j], 0)


def constant(h):
    """a constant series has its own value as mean and its size as volatility"""
    m = h.mod(EW)
    T = h.p["T"]
    c = h.real("c", nz=True)
    hl = h.halflife("h")
    R = h.frame([[c]] * T, index=days(T), columns=["x"])
    v = m.volatility(R, hl)
    d, mean = m.center(R, hl, mean_adj=True)
    for t in range(T):
        h.eq("vola", v.iloc[t, 0], h.abs(c))
        h.eq("mean", mean.iloc[t, 0], c)
        h.eq("centered", d.iloc[t, 0], 0)


def history(h):
    """long histories of several assets, each in its own units"""
    T, n = h.p["T"], h.p["n"]
    hl = h.choice("hl", h.p["halflives"])
    y = h.shaped("y", T, n, free=h.p.get("free", ()))
    if h.bool("mean"):
        run_center(h, y, hl, h.beta(hl), T, n)
    else:
        run_vola(h, y, hl, h.beta(hl), T, n)


def years(h):
    """very long histories: the weighted average at some dates"""
    m = h.mod(EW)
    T = h.p["T"]
    hl = h.p["halflife"]
    y = h.shaped("y", T, 1)
    R = h.frame(y, index=days(T), columns=["x"])
    mean = h.bool("mean")
    out = m.center(R, hl, mean_adj=True)[1] if mean else m.volatility(R, hl)
    h.same("times", list(out.index), days(T))
    for t in h.p["at"]:
        w = 2.0 ** (-np.arange(t, -1, -1) / hl)
        w = w / w.sum()
        v = out.iloc[t, 0]
        h.eq(f"{t}", v if mean else v * v, h.sum(float(w[s]) * (y[s][0] if mean else y[s][0] * y[s][0]) for s in range(t + 1)))


def integers(h):
    """tables of whole numbers"""
    m = h.mod(EW)
    A, B = whole(h, "y", 6, 2)
    hl = h.choice("hl", [1, 3, 0.5])
    k = dict(min_periods=h.int("min_periods", 0, 1))
    h.eq("volatility", m.volatility(A, hl, **k), m.volatility(B, hl, **k))
    for a, b in zip(m.center(A, hl, mean_adj=True, **k), m.center(B, hl, mean_adj=True, **k)):
        h.eq("center", a, b)


CASES = [
    dict(name="center_sym", also=[dict(T=1), dict(T=2), dict(T=3, n=1)], fn=center_sym, params=dict(T=5, n=2), thorough=dict(T=7)),
    dict(name="vola_sym", also=[dict(T=1), dict(T=2), dict(T=3, n=1)], fn=vola_sym, params=dict(T=5, n=2), thorough=dict(T=7)),
    dict(name="center_long", fn=center_long, params=dict(T=30, halflives=[1, 2.5, 21, 0.3, 400]), thorough=dict(T=90)),
    dict(name="vola_long", fn=vola_long, params=dict(T=30, halflives=[1, 2.5, 21, 0.3, 400]), thorough=dict(T=90)),
    dict(name="inactive", fn=inactive, params=dict(T=3, n=2)),
    dict(name="constant", fn=constant, params=dict(T=4)),
    dict(name="history", fn=history, also=[dict(T=280, n=1, halflives=[250])], params=dict(T=70, n=5, halflives=[250, 63, 0.7]), thorough=dict(T=150)),
    dict(name="years", fn=years, params=dict(T=1060, halflife=400, at=[0, 20, 300, 520, 780, 1030, 1059])),
    dict(name="history_free", fn=history, params=dict(T=45, n=2, halflives=[125, 10], free=[(0, 0), (44, 0), (30, 1)])),
    dict(name="integers", fn=integers, params=dict()),
]
