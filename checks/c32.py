"""Low-rank iterated EWMA against its recursion and the full estimator."""
from fractions import Fraction

from . import long
from .lib import *

LR = "experiments.utils.low_rank_ewma"
EW = "cvx.covariance.ewma"
BOUNDS = "2-3 assets, ranks 1-2, up to 4 dates; returns, half-lives 1, 1/2 and clip levels symbolic; warm-ups up to 3; 20-25 dates of 3-4 assets, ranks 1-2, clipping and mean adjustment with fixed shape and symbolic units; 16 dates of 24 assets, rank 11; tables of whole numbers"


def dense(c, n):
    F, d = c.F.values, c.d.values
    return [[sum(F[i][k] * F[j][k] for k in range(F.shape[1])) + (d[i] if i == j else 0) for j in range(n)] for i in range(n)]


def setup(h, T, n, mv, mc, **k):
    u, dd = names(n), days(T)
    if h.p.get("shaped"):  # fixed shape in arbitrary units
        r = [list(x) for x in h.shaped("r", T, n)]
        hv, hc = h.choice("half-lives", h.p["shaped"])
        return r, h.frame(r, dd, u), hv, hc, h.beta(hv), h.beta(hc)
    r = [[h.real(f"r_{t}_{i}", nz=True, sgn=("+-"[i % 2] if h.p.get("signed") else None)) for i in range(n)] for t in range(T)]
    hv, hc = 1, h.choice("cov halflife", [1, 0.5][: h.p.get("halflives", 2)])
    return r, h.frame(r, dd, u), hv, hc, h.beta(hv), h.beta(hc)


def recursion(h):
    """each step keeps the leading components of the correlation-scaled sum of
    the old low-rank part and the new observation, and moves the rest of every
    variance to the idiosyncratic part"""
    T, n, rank, mv, mc = h.p["T"], h.p["n"], h.p["rank"], h.p["mv"], h.p["mc"]
    m = h.mod(LR)
    r, R, hv, hc, bv, bc = setup(h, T, n, mv, mc)
    k, kr = {}, {}
    if h.p.get("clip"):
        k["clip_at"] = kr["clip"] = h.p["clip"] if h.p.get("shaped") else h.real("clip", sgn="+")
    if h.p.get("mean"):
        given = h.choice("given", h.p.get("given", ["both"]))
        k.update(mean=True, **{"both": dict(mu_halflife1=1, mu_halflife2=0.5), "first": dict(mu_halflife1=1), "second": dict(mu_halflife2=0.5), "none": {}}[given])
        kr.update(mean=True, b1=h.beta(k.get("mu_halflife1", hv)), b2=h.beta(k.get("mu_halflife2", hc)))
    ref = ref_iterated(h, r, bv, bc, mv, mc, **kr)
    out = ref[min(ref)]
    first, adj = out["first"], out["adj"]
    FF = [[None] * n for _ in range(n)]
    d = [0] * n
    want = {}
    for t in range(first, T):
        y = adj[t]
        if t == first:
            FF = [[y[i] * y[j] for j in range(n)] for i in range(n)]
            if mc == 1:
                for i in range(n):
                    h.assume(FF[i][i] > 0)
        else:
            tot = h.sum(bc**q for q in range(t - first + 1))
            cn = 1 / tot
            co = 1 - cn
            S = [[co * FF[i][j] + cn * y[i] * y[j] for j in range(n)] for i in range(n)]
            for i in range(n):
                h.assume(S[i][i] > 0)
            sc = [h.sqrt(S[i][i]) for i in range(n)]
            C = [[S[i][j] / (sc[i] * sc[j]) for j in range(n)] for i in range(n)]
            lam, Q = h.eigh(C)
            for x in lam[n - rank :]:  # C is a Gram matrix
                h.assume(x > 0)
                h.assume(x + lam[0] > 0)
            h.assume(lam[n - rank] > lam[n - rank - 1])  # otherwise the leading components are ambiguous
            G = [[h.sum(lam[q] * Q[i][q] * Q[j][q] for q in range(n - rank, n)) for j in range(n)] for i in range(n)]
            for i in range(n):
                rest = h.sum(lam[q] * Q[i][q] ** 2 for q in range(n - rank))
                h.eq(f"lemma {t} {i}", 1 - G[i][i], rest)
                h.assume(1 - G[i][i] + co * d[i] / S[i][i] >= (0 if h.symbolic else -1e-9))
            FF = [[sc[i] * sc[j] * G[i][j] for j in range(n)] for i in range(n)]
            d = [co * d[i] + S[i][i] - FF[i][i] for i in range(n)]
        if t not in ref:
            continue
        v = ref[t]["vola"]
        sd = [h.sqrt(FF[i][i] + d[i]) for i in range(n)]
        want[t] = ([[v[i] * v[j] * FF[i][j] / (sd[i] * sd[j]) for j in range(n)] for i in range(n)], [v[i] ** 2 * d[i] / sd[i] ** 2 for i in range(n)], v)
    out = list(m.low_rank_iterated_ewma(R, hv, hc, rank, min_periods_vola=mv, min_periods_cov=mc, **k))
    h.same("dates", [o.time for o in out], [days(T)[t] for t in sorted(ref)])
    for o, t in zip(out, sorted(ref)):
        c = o.covariance
        A, b, v = want[t]
        F = c.F.values
        h.same("shapes", (np.shape(F), np.shape(c.d)), ((n, rank), (n,)))
        h.same("labels", (list(c.F.index), list(c.d.index)), (names(n), names(n)))
        h.eq(f"{t} volatility", o.volatility.values, v)
        h.eq(f"{t} mean", o.mean.values, ref[t]["mean"])
        for i in range(n):
            h.eq(f"{t} idiosyncratic {i}", c.d.iloc[i], b[i])
            h.eq(f"{t} variance {i}", h.sum(F[i][k] ** 2 for k in range(rank)) + c.d.iloc[i], v[i] ** 2)
            for j in range(i):
                h.eq(f"{t} factor part {i}{j}", h.sum(F[i][k] * F[j][k] for k in range(rank)), A[i][j])


def dates(h):
    """estimates exist on the dates of the full estimator, however short the
    history"""
    T, n = h.int("T", 1, h.p["T"]), 2
    m, e = h.mod(LR), h.mod(EW)
    mv, mc = h.int("min periods vola", 2, 3), h.int("min periods cov", 1, 2)
    r = h.p["rows"][:T]
    s = h.real("scale", sgn="+")
    R = h.frame([[s * x for x in row] for row in r], days(T), names(n))
    full = [o.time for o in e.iterated_ewma(R, 1, 1, min_periods_vola=mv, min_periods_cov=mc)]
    low = [o.time for o in m.low_rank_iterated_ewma(R, 1, 1, 1, min_periods_vola=mv, min_periods_cov=mc)]
    h.same("dates", low, full)
    h.same("number", len(full), max(0, T - mv - mc + 2))


def integers(h):
    """tables of whole numbers"""
    m = h.mod(LR)
    A, B = whole(h, "y", 7, 3)
    k = h.choice("options", [{}, dict(clip_at=1.5), dict(mean=True)])
    k = dict(k, min_periods_vola=1, min_periods_cov=1)
    a, b = (list(m.low_rank_iterated_ewma(X, 2, 5, 1, **k)) for X in (A, B))
    h.same("dates", [o.time for o in a], [o.time for o in b])
    for x, y in zip(a, b):
        h.eq("volatility", x.volatility, y.volatility)
        h.eq("mean", x.mean, y.mean)
        h.eq("idiosyncratic", x.covariance.d, y.covariance.d)
        F, G = x.covariance.F.values, y.covariance.F.values
        for i in range(3):
            for j in range(i + 1):
                h.eq("factor part", F[i][0] * F[j][0], G[i][0] * G[j][0])


def wide(h):
    """many assets, a large rank, long histories"""
    m = h.mod(LR)
    T, n, rank = h.p["T"], h.p["n"], h.p["rank"]
    x, unit, y = long.table(h, "y", T, n)
    hv, hc = h.p["hl"]
    b = 2.0 ** (-1.0 / hc)
    mv, mc = 3, 2
    vola = np.sqrt(long.average(x * x, hv))[mv - 1 :]
    a = x[mv - 1 :] / vola
    want = {}
    F, d, tot = np.outer(a[0], a[0]), np.zeros(n), 1.0
    for q in range(1, len(a)):
        tot = 1 + b * tot
        S = (1 - 1 / tot) * F + np.outer(a[q], a[q]) / tot
        d = (1 - 1 / tot) * d
        sc = np.sqrt(np.diag(S))
        lam, Q = np.linalg.eigh(S / np.outer(sc, sc))
        lam, Q = lam[-rank:], Q[:, -rank:]
        F = np.outer(sc, sc) * ((Q * lam) @ Q.T)
        d = d + np.diag(S - F)
        e = vola[q] / np.sqrt(np.diag(F) + d)
        want[q + mv - 1] = np.outer(e, e) * F, e * e * d
    out = {o.time: o for o in m.low_rank_iterated_ewma(h.frame(y, days(T), names(n)), hv, hc, rank, min_periods_vola=mv, min_periods_cov=mc)}
    h.same("dates", list(out), [days(T)[t] for t in range(mv + mc - 2, T)])
    for t in h.p["at"]:
        c = out[days(T)[t]].covariance
        A, e = want[t]
        h.same("shapes", (np.shape(c.F), np.shape(c.d)), ((n, rank), (n,)))
        for i in range(0, n, h.p["step"]):
            h.eq(f"{t} idiosyncratic {i}", c.d.iloc[i] / unit[i] ** 2, float(e[i]))
            for j in range(0, i, h.p["step"]):
                h.eq(f"{t} factor part {i}{j}", h.sum(c.F.iloc[i, k] * c.F.iloc[j, k] for k in range(rank)) / (unit[i] * unit[j]), float(A[i, j]))


CASES = [
    dict(name="wide", fn=wide, params=dict(T=16, n=24, rank=11, hl=[5, 10], at=[4, 9, 15], step=5)),
    dict(name="dates", fn=dates, params=dict(T=2, rows=[[1, 2], [3, -1]])),
    dict(name="rank_1", fn=recursion, params=dict(T=3, n=2, rank=1, mv=2, mc=1)),
    dict(name="rank_1_long", fn=recursion, params=dict(T=4, n=2, rank=1, mv=2, mc=2), thorough_only=True),
    dict(name="three_1", fn=recursion, params=dict(T=3, n=3, rank=1, mv=2, mc=1, halflives=1), timeout=1500, thorough=dict(halflives=2)),
    dict(name="three_2", fn=recursion, params=dict(T=3, n=3, rank=2, mv=2, mc=1, halflives=1), timeout=1500, thorough=dict(halflives=2)),
    dict(name="mean", fn=recursion, params=dict(T=3, n=2, rank=1, mv=2, mc=2, mean=True), timeout=1500),
    dict(name="clip", fn=recursion, params=dict(T=3, n=2, rank=1, mv=2, mc=1, clip=True, signed=True, halflives=1), timeout=1500),
    dict(name="history", fn=recursion, params=dict(T=25, n=4, rank=2, mv=5, mc=3, shaped=[[5, 10], [1, 0.5]])),
    dict(name="history_clip", fn=recursion, params=dict(T=20, n=4, rank=1, mv=4, mc=3, shaped=[[5, 10]], clip=1.25)),
    dict(name="history_mean", fn=recursion, params=dict(T=20, n=4, rank=1, mv=4, mc=3, shaped=[[5, 10]], mean=True, given=["both", "first", "second", "none"])),
    dict(name="integers", fn=integers, params=dict()),
]
