"""Causal factor model: training windows, dates, and the parts of each date."""
import collections
import contextlib
import io
import sys

from symex import cvxs
from .lib import *

FM = "experiments.utils.factor_model"
EW = "cvx.covariance.ewma"
CO = "cvx.covariance.combination"
BOUNDS = "2-3 assets, 1 factor, memory 12, up to 3 dates after the first training window; the last 1-2 returns symbolic, exposures, combination weights and earlier returns fixed; every update frequency 1-3; 4-7 dates after the window, 4-5 assets, 2-3 factors, 2-3 half-life pairs with fixed shape and a symbolic unit; up to 50 dates after the window"

PCA = collections.namedtuple("PCA", ["exposure", "factors", "idiosyncratic"])


def quiet():
    return contextlib.redirect_stderr(io.StringIO())


def table(h, T, n, sym, seed):
    """integer returns, symbolic on the last rows; or a fixed shape in an
    arbitrary unit"""
    if h.p.get("shaped"):
        return [list(x) for x in h.shaped("r", T, n, units=[h.real("unit", sgn="+")] * n)]
    rows = []
    for t in range(T):
        if t >= T - sym:
            rows.append([h.real(f"r{t}_{i}") for i in range(n)])
        else:
            rows.append([((7 * t + 5 * i + seed) * (t + 3) % 11) - 5 or 3 for i in range(n)])
    return rows


def assembly(h):
    n, k, mem, extra = h.p["n"], h.p["k"], h.p["memory"], h.p["extra"]
    T = mem + extra
    m = h.mod(FM)
    ew, co = h.mod(EW), h.mod(CO)
    u, d = names(n), days(T)
    r = table(h, T, n, h.p["sym"], h.p.get("seed", 1))
    R = h.frame(r, d, u)
    freq = h.choice("update frequency", h.p["freq"]) if "freq" in h.p else h.int("update frequency", 1, min(3, extra))
    pairs = h.p.get("pairs", [(1, 1), (0.5, 1)])
    w = [0.25, 0.75] if len(pairs) == 2 else [0.25, 0.5, 0.25]
    seen = []

    def pca(returns, n_components=10, *a, **kw):
        c = len(seen)
        h.same("components", n_components, k)
        if h.p.get("shaped"):
            e = [list(x) for x in h.shaped(f"e{c}", k, n, units=False)]
        else:
            e = [[h.p["exposures"][c][q][i] for i in range(n)] for q in range(k)]
        seen.append((returns.copy(), e))
        X = h.frame(e, list(range(k)), u)
        return PCA(X, returns @ X.T, None)

    def on_solve(prob, c, kw):
        (v,) = prob.variables()
        cvxs.assign(v, list(w))

    old = m.__dict__.get("pca"), sys.modules["cvx.linalg"].pca
    m.pca = sys.modules["cvx.linalg"].pca = pca
    try:
        with cvxs.standin(h, on_solve), quiet(), h.regular():
            out = list(m.construct_cmiewma_factor_model(R, k, pairs, update_frequency=freq, memory=mem))
            h.same("dates", [o.time for o in out], d[mem:])
            blocks = list(range(mem, T, freq))
            h.same("number of trainings", len(seen), len(blocks))
            pos = 0
            for b, t in enumerate(blocks):
                X, e = seen[b]
                h.same(f"training window {b}", list(X.index), d[t - mem : t])
                h.eq(f"training data {b}", X.values, h.array(r[t - mem : t]))
                end = min(t + freq, T)
                F = [[h.sum(r[s][i] * e[q][i] for i in range(n)) for q in range(k)] for s in range(end)]
                U = [[r[s][i] - h.sum(F[s][q] * e[q][i] for q in range(k)) for i in range(n)] for s in range(end)]
                FF = h.frame(F, d[:end], list(range(k)))
                S = {}
                for j, (a, c) in enumerate(pairs):
                    S[j] = {}
                    for x in ew.iterated_ewma(FF, a, c, min_periods_vola=k, min_periods_cov=2 * k):
                        if x.time < d[t - 10]:
                            continue
                        M = x.covariance.values
                        S[j][x.time] = h.frame([[M[p][q] * (1.05 if p == q and j == 0 else 1) for q in range(k)] for p in range(k)], list(range(k)), list(range(k)))
                want = {x.time: x.covariance for x in co.from_sigmas(S, FF, means=None).solve(window=10)}
                beta = h.beta(21)
                for s in range(t, end):
                    o = out[pos]
                    pos += 1
                    h.eq(f"{s} exposure", o.exposure.values, h.array(e))
                    h.eq(f"{s} factor covariance", o.factor_covariance.values, want[d[s]].values)
                    for i in range(n):
                        h.eq(f"{s} idiosyncratic {i}", o.diagonal.iloc[i], ref_ewma(h, [U[q][i] ** 2 for q in range(s + 1)], beta))
    finally:
        m.pca, sys.modules["cvx.linalg"].pca = old


E1 = [[[1, 2]], [[2, -1]], [[1, 1]]]
CASES = [
    dict(name="one_factor", fn=assembly, params=dict(n=2, k=1, memory=12, extra=2, sym=1, exposures=E1), thorough=dict(extra=3, sym=2)),
    dict(name="three_assets", fn=assembly, params=dict(n=3, k=1, memory=12, extra=3, sym=1, seed=4, exposures=[[[1, 2, -1]], [[2, -1, 1]], [[1, 1, 2]]])),
    dict(name="longer", fn=assembly, params=dict(n=4, k=2, memory=20, extra=7, shaped=True, freq=[3, 20], sym=0)),
    dict(name="longer_3", fn=assembly, params=dict(n=5, k=3, memory=24, extra=4, shaped=True, freq=[2, 1], sym=0, pairs=[[1, 1], [5, 10], [10, 21]])),
    dict(name="long", fn=assembly, params=dict(n=2, k=1, memory=12, extra=50, shaped=True, freq=[13], sym=0)),
]
