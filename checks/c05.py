"""Every covariance estimate is a covariance matrix consistent with its volatility."""
from . import long
from .lib import *

BOUNDS = "T<=4 (quick) / 5 (thorough) dates, 2 and 3 assets; data symbolic (nonzero volatilities); test vector of the quadratic form symbolic; halflives symbolic without mean adjustment, concrete with; histories of 42 dates and 4 assets with fixed shape, symbolic units and test vector; 560 dates of two assets, 60 dates of 14 assets"
ASSUMPTIONS = ["positive semidefiniteness is shown by a sum-of-squares certificate: x' Sigma x equals a nonnegative combination of squares for every x"]
EW = "cvx.covariance.ewma"


def check(h, o, n, ref, b, x):
    """o.covariance = diag(vola) corr diag(vola), corr a weighted Gram matrix"""
    S = o.covariance.to_numpy()
    v = o.volatility.to_numpy()
    for i in range(n):
        h.true("volatility is nonnegative", v[i] >= 0)
        h.eq("variance is the squared volatility", S[i, i], v[i] * v[i])
        for j in range(i):
            h.eq("symmetric", S[i, j], S[j, i])
    # certificate
    ts = sorted(ref["adj"])
    N = len(ts)
    w = weights(h, N, b)
    q = h.sum(x[i] * S[i, j] * x[j] for i in range(n) for j in range(n))
    cert = 0
    for s, t in enumerate(ts):
        h.true("certificate weight", w[s] >= 0)
        dot = h.sum(x[i] * v[i] * ref["adj"][t][i] / ref["sd"][i] for i in range(n))
        cert = cert + w[s] * dot * dot
    h.eq("quadratic form is a sum of squares", q, cert)


def upto(ref, t):
    r = dict(ref)
    r["adj"] = {s: a for s, a in ref["adj"].items() if s <= t}
    return r


def plain(h):
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    y = h.reals("y", (T, n))
    hv, hc = h.halflife("hv"), h.halflife("hc")
    mv, mc = h.int("mv", 0, 2), h.int("mc", 0, 2)
    ref = ref_iterated(h, [list(r) for r in y], h.beta(hv), h.beta(hc), mv, mc)
    x = h.reals("x", n)
    for o in m.iterated_ewma(h.frame(y, days(T), names(n)), hv, hc, min_periods_vola=mv, min_periods_cov=mc):
        t = days(T).index(o.time)
        check(h, o, n, upto(ref[t], t), h.beta(hc), x)


def mean(h):
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    y = h.reals("y", (T, n))
    hv, hc = h.p["hv"], h.p["hc"]
    mv, mc = 2, 2
    ref = ref_iterated(h, [list(r) for r in y], h.beta(hv), h.beta(hc), mv, mc, mean=True, b1=h.beta(hv), b2=h.beta(hc))
    x = h.reals("x", n)
    for o in m.iterated_ewma(h.frame(y, days(T), names(n)), hv, hc, min_periods_vola=mv, min_periods_cov=mc, mean=True):
        t = days(T).index(o.time)
        check(h, o, n, upto(ref[t], t), h.beta(hc), x)


def clipped(h):
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    y = h.reals("y", (T, n), nz=True)
    hv, hc = h.p["hv"], h.p["hc"]
    mv, mc = 2, 1
    c = h.real("c", sgn="+")
    ref = ref_iterated(h, [list(r) for r in y], h.beta(hv), h.beta(hc), mv, mc, clip=c)
    x = h.reals("x", n)
    for o in m.iterated_ewma(h.frame(y, days(T), names(n)), hv, hc, min_periods_vola=mv, min_periods_cov=mc, clip_at=c):
        t = days(T).index(o.time)
        check(h, o, n, upto(ref[t], t), h.beta(hc), x)


def two(h):
    """two assets, without reference to the recursion: Cauchy-Schwarz"""
    m = h.mod(EW)
    T = h.p["T"]
    y = h.reals("y", (T, 2))
    hv, hc = h.p["hv"], h.p["hc"]
    ref_iterated(h, [list(r) for r in y], h.beta(hv), h.beta(hc), 0, 0)
    for o in m.iterated_ewma(h.frame(y, days(T), names(2)), hv, hc, min_periods_vola=0, min_periods_cov=0):
        S = o.covariance.to_numpy()
        h.le("determinant", S[0, 1] * S[1, 0], S[0, 0] * S[1, 1])


def history(h):
    """long history, more assets, every asset in its own units"""
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    y = h.shaped("y", T, n)
    hv, hc = h.choice("halflives", [(10, 21), (63, 125), (3, 2)])
    clip = h.choice("clip", [None, 1.4])
    mean = h.bool("mean")
    ref = ref_iterated(h, [list(r) for r in y], h.beta(hv), h.beta(hc), 20, 20, clip=clip, mean=mean, b1=h.beta(hv), b2=h.beta(hc))
    x = h.reals("x", n)
    out = list(m.iterated_ewma(h.frame(y, days(T), names(n)), hv, hc, clip_at=clip, mean=mean))
    h.same("dates", len(out), T - 38)
    for o in out:
        t = days(T).index(o.time)
        check(h, o, n, upto(ref[t], t), h.beta(hc), x)


def years(h):
    """years of data and many assets: symmetry, variances and correlations"""
    m = h.mod(EW)
    T, n = h.p["T"], h.p["n"]
    x, unit, y = long.table(h, "y", T, n)
    clip, mean = h.choice("clip", [None, 1.4]), h.bool("mean")
    ref = long.iterated(x, 21, 63, clip=clip, mean=mean)
    out = {o.time: o for o in m.iterated_ewma(h.frame(y, days(T), [f"x{i}" for i in range(n)]), 21, 63, clip_at=clip, mean=mean)}
    h.same("dates", list(out), [days(T)[t] for t in ref])
    for t in h.p["at"]:
        o = out[days(T)[t]]
        C = ref[t][1]  # positive definite: every estimate is this matrix in the assets' units
        if not (np.linalg.eigvalsh(C / np.sqrt(np.outer(np.diag(C), np.diag(C)))) > 1e-9).all():
            h.fail("reference", "not positive definite")
        for i in range(n):
            h.eq(f"variance {t} {i}", o.covariance.iloc[i, i], o.volatility.iloc[i] ** 2)
            for j in range(i):
                h.eq(f"symmetric {t} {i}{j}", o.covariance.iloc[i, j], o.covariance.iloc[j, i])
                h.eq(f"covariance {t} {i}{j}", o.covariance.iloc[i, j] / (unit[i] * unit[j]), float(C[i, j]))


CASES = [
    dict(name="plain2", also=[dict(T=1), dict(T=2), dict(T=3, n=1)], fn=plain, params=dict(T=4, n=2), thorough=dict(T=5)),
    dict(name="plain3", fn=plain, params=dict(T=3, n=3), thorough=dict(T=4)),
    dict(name="mean", also=[dict(T=3)], fn=mean, params=dict(T=4, n=2, hv=2, hc=3.5), thorough=dict(T=5)),
    dict(name="clipped", fn=clipped, params=dict(T=3, n=2, hv=2, hc=3.5)),
    dict(name="two", fn=two, params=dict(T=2, hv=2, hc=3.5)),
    dict(name="history", fn=history, params=dict(T=42, n=4)),
    dict(name="years", fn=years, params=dict(T=560, n=2, at=[45, 300, 559]), also=[dict(T=60, n=14, at=[50, 59])]),
]
