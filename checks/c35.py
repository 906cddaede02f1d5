"""Tuning scores and yearly Sharpe ratios."""
import contextlib
import io
import types
import warnings
from fractions import Fraction

import pandas as pd

from .lib import *

RC = "experiments.utils.return_combination"
EU = "experiments.utils.experiment_utils"
BOUNDS = "tuning: 1-2 assets, 1 predictor, 3-5 dates, memory 1-3, 1-2 candidate values; yearly ratios: every placement of 100 to 102 returns in up to three calendar years, two returns of each year symbolic; tuning over 10 dates of 3 assets, 2 predictors, up to 3 candidates with fixed shape and a symbolic unit"


def tune(h):
    """per candidate: weights, correlation and error of its own forecasts"""
    m = h.mod(RC)
    n, T, K = h.p["n"], h.p["T"], 1
    u, d = names(n), days(T + 1)
    r = [[h.real(f"r_{t}_{i}") if t >= T - h.p["free"] else x * (i + 1) for i in range(n)] for t, x in enumerate(h.p["rows"][: T + 1])]
    P = [[[h.real(f"p{i}_{t}", nz=True, sgn="+") if t == T - 1 and i < h.p.get("free_pred", n) else y + i] for t, y in enumerate(h.p["pred"][:T])] for i in range(n)]
    memory = h.p["memory"]
    al = [h.real(f"alpha{k}", sgn="+") for k in range(h.p["alphas"])]
    R = h.frame(r, d, u)
    F = [h.frame(P[i], d[1:], ["p"]) for i in range(n)]
    with contextlib.redirect_stderr(io.StringIO()):
        a, c, e, W = m.tune_alpha(R, F, al, memory=memory)
        runs = [m.ReturnCombinator().fit(R, F, memory, x) for x in al]
    h.same("lengths", (len(a), len(c), len(e), len(W)), (len(al),) * 4)
    for k in range(len(al)):
        h.eq(f"{k} candidate", list(a)[k], al[k])
        hat, w = runs[k]
        f, y = [], []
        for j in range(T - memory):
            for i in range(n):
                f.append(hat.iloc[j, i])
                y.append(r[1 + memory + j][i])
                h.eq(f"{k} weights {j} {i}", W[k][i].iloc[j, 0], w[i].iloc[j, 0])
        N = len(f)
        h.eq(f"{k} error", e[k] * e[k], h.sum((p - q) ** 2 for p, q in zip(f, y)) / N)
        h.ge0(f"{k} error sign", e[k])
        fm, ym = h.sum(f) / N, h.sum(y) / N
        cv = h.sum((p - fm) * (q - ym) for p, q in zip(f, y))
        vf, vy = h.sum((p - fm) ** 2 for p in f), h.sum((q - ym) ** 2 for q in y)
        h.assume(vf > 0)
        h.assume(vy > 0)
        h.eq(f"{k} correlation", c[k] * h.sqrt(vf) * h.sqrt(vy), cv)


def yearly(h):
    """exactly the years with more than 100 returns"""
    m = h.mod(EU)
    years = [2001, 2002, 2003][: h.p["years"]]
    cnt = h.choice("returns per year", h.p["counts"])
    idx, x, by = [], [], {}
    for q, (y, c) in enumerate(zip(years, cnt)):
        dd = list(pd.date_range(f"{y}-01-03", periods=c))
        # two arbitrary returns among fixed ones, in arbitrary units
        v = [h.real(f"x{y}_{t}") if t in (0, c - 1) else Fraction((7 * t + 3 * q) % 11 - 5, 100) for t in range(c)]
        if not h.symbolic:
            v = [float(z) for z in v]
        by[y] = v
        idx += dd
        x += v
    tr = types.SimpleNamespace(rets=h.array(x).reshape(-1, 1), returns=h.frame([[z] for z in x], idx, ["a"]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        S = m.yearly_SR(tr, plot=False)
    got = {t.year: S.loc[t] for t in S.index}
    keep = [y for y, c in zip(years, cnt) if c > 100]
    h.same("years", sorted(got), list(range(keep[0], keep[-1] + 1)) if keep else [])
    for y in got:
        if y not in keep:
            h.true(f"{y} undefined", h.isnan(got[y]))
            continue
        v = by[y]
        N = len(v)
        mean = h.sum(v) / N
        var = h.sum((z - mean) ** 2 for z in v) / (N - 1)
        h.assume(var > 0)
        h.eq(f"{y}", got[y] * h.sqrt(var) * h.sqrt(252), 252 * mean)


def tune_longer(h):
    """several assets, predictors and candidates over a longer history on an
    irregular calendar; everything in one arbitrary unit"""
    m = h.mod(RC)
    n, T, K = h.p["n"], h.p["T"], h.p["K"]
    u, lab = names(n), ["p", "q", "s"][:K]
    memory = h.choice("memory", h.p["memory"])
    s = h.real("unit", sgn="+")
    allday = [x + pd.Timedelta(days=2 * (i // 3)) for i, x in enumerate(days(T + 3))]
    skip = h.choice("dates without predictions", [[0, 1, 2], [0, 4, T + 2]])
    d = [x for i, x in enumerate(allday) if i not in skip]
    rows = h.shaped("r", T + 3, n, units=[s] * n)
    r = [list(x) for i, x in enumerate(rows) if i not in skip]
    P = [h.shaped(f"p{i}", T, K, units=[s] * K) for i in range(n)]
    al = h.choice("candidates", [[0.5, 0.01, 2], [3]])
    R = h.frame(rows, allday, u)
    F = [h.frame(P[i], d, lab) for i in range(n)]
    with contextlib.redirect_stderr(io.StringIO()):
        a, c, e, W = m.tune_alpha(R, F, al, memory=memory)
        runs = [m.ReturnCombinator().fit(R, F, memory, x) for x in al]
    h.same("candidates", list(a), al)
    h.same("lengths", (len(c), len(e), len(W)), (len(al),) * 3)
    for k in range(len(al)):
        hat, w = runs[k]
        f, y = [], []
        for j in range(T - memory):
            for i in range(n):
                f.append(hat.iloc[j, i] / s)
                y.append(r[memory + j][i] / s)
                h.eq(f"{k} weights {j} {i}", W[k][i].iloc[j], w[i].iloc[j])
        N = len(f)
        h.eq(f"{k} error", (e[k] / s) ** 2, h.sum((p - q) ** 2 for p, q in zip(f, y)) / N)
        h.ge0(f"{k} error sign", e[k])
        fm, ym = h.sum(f) / N, h.sum(y) / N
        cv = h.sum((p - fm) * (q - ym) for p, q in zip(f, y))
        vf, vy = h.sum((p - fm) ** 2 for p in f), h.sum((q - ym) ** 2 for q in y)
        h.eq(f"{k} correlation", c[k] * h.sqrt(vf) * h.sqrt(vy), cv)


CASES = [
    dict(name="tune_1", fn=tune, params=dict(n=1, T=4, memory=2, alphas=2, free=1, rows=[1, -2, 3, 1, 2], pred=[1, 2, -1, 1])),
    dict(name="tune_2", fn=tune, params=dict(n=2, T=3, memory=1, alphas=1, free=1, free_pred=0, rows=[1, -2, 3, 1], pred=[1, 2, -1])),
    dict(name="tune_long", fn=tune, params=dict(n=1, T=5, memory=3, alphas=1, free=2, rows=[1, -2, 3, 1, 2, 1], pred=[1, 2, -1, 1, 2])),
    dict(name="yearly_1", fn=yearly, params=dict(years=1, counts=[[101], [100], [102]])),
    dict(name="yearly_3", fn=yearly, params=dict(years=3, counts=[[101, 100, 102], [100, 101, 101], [102, 101, 99]])),
    dict(name="tune_longer", fn=tune_longer, params=dict(n=3, K=2, T=10, memory=[2, 6])),
]
