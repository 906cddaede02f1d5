"""Backtests over several covariance predictors: which prediction meets which
return, which trader belongs to which predictor; the printed table."""
import contextlib
import io

from .trade import *

BOUNDS = "2 predictors, 1-2 assets, 4 dates, every start and end date; returns, covariances, expected returns, targets and solver answers symbolic; 3 predictors, 3 assets, 8-9 dates with fixed shapes and one symbolic scale"


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


class Answers:
    """records every solved problem: point, objective value, feasibility"""

    def __init__(self, h, sgn=None):
        self.h, self.sgn, self.all = h, sgn, []

    def __call__(self, prob, c, kw):
        (v,) = prob.variables()
        x = [self.h.real(f"x{c}_{i}", sgn=self.sgn) for i in range(v.size)]
        cvxs.assign(v, x)
        self.all.append((x, *cvxs.objective(prob), cvxs.feasible(self.h, prob)))

    def of(self, row, scaled):
        for a in self.all:
            s = self.h.sum(a[0]) if scaled else 1
            if len(a[0]) == len(row) and all(zero(self.h, row[i] * s - a[0][i]) for i in range(len(row))):
                return a
        self.h.fail("weights", "weights are no answer of the solver")


def pairing(h):
    n, K, T = h.p["n"], 2, h.p["T"]
    kind = h.p["kind"]
    m = h.mod(PB)
    u, d = names(n), days(T)
    r = h.reals("r", (T, n))
    first = h.choice("predictions start", [0, 1])  # returns known before the first prediction
    S = [{t: Cov(h, f"s{k}_{t}_", n) for t in range(first, T)} for k in range(K)]
    R = h.frame(r, d, u)
    P = [{d[t]: h.frame(S[k][t].m(), u, u) for t in S[k]} for k in range(K)]
    a = h.choice("start", [None, first, first + 1] if first + 2 < T else [None, first])
    b = h.choice("end", [None] + [e for e in (T - 2, T - 1) if e > (first if a is None else a)])
    k = {}
    if a is not None:
        k["start_date"] = d[a]
    if b is not None:
        k["end_date"] = d[b]
    lo, hi = first if a is None else a, T - 1 if b is None else b
    dates = list(range(lo, hi))  # the prediction of date t trades into date t+1
    lab = ["one", "two"]
    A = Answers(h, "+" if kind in ("MaxDiverse", "RiskParity") else None)
    with solver(h, A), quiet():
        if kind == "MeanVariance":
            mu = h.reals("mu", (K, T, n))
            s = h.real("target", sgn="+")
            M = [h.frame(mu[q], d, u) for q in range(K)]
            X = m.MeanVariance(R, P, lab, M, **k).backtest(additonal_cons={}, sigma_tar=s)
        elif kind in ("MinRisk", "MaxDiverse"):
            X = getattr(m, kind)(R, P, lab, **k).backtest(additonal_cons={"upper_bound": 1} if kind == "MaxDiverse" else {})
        else:
            X = getattr(m, kind)(R, P, lab, **k).backtest()
    h.same("names", list(X), lab)
    cash = kind == "MeanVariance"
    for q in range(K):
        tr = X[lab[q]]
        h.same("periods", np.shape(tr.ws), (len(dates), n + cash))
        tr.get_total_returns()
        for j, t in enumerate(dates):
            w = list(tr.ws[j])
            h.eq(f"{q} {t} return", np.ravel(tr.rets)[j], h.sum(w[i] * r[t + 1][i] for i in range(n)))
            C = S[q][t]
            if kind == "EqWeighted":
                h.eq(f"{q} {t} weights", w, [1 / n] * n)
                continue
            x, sense, obj, ok = A.of(w, kind in ("MaxDiverse", "RiskParity"))
            if kind == "MinRisk":
                h.eq(f"{q} {t} risk", obj * obj, C.var(x))
            elif kind == "MaxDiverse":
                h.eq(f"{q} {t} risk", obj * obj, C.var(x))
                equiv(h, f"{q} {t}", ok, h.And(h.sum(C.sd(i) * x[i] for i in range(n)) == 1, *[v >= 0 for v in x], *[v <= h.sum(x) for v in x]))
            elif kind == "RiskParity":
                p = 1
                for v in x:
                    p = p * v
                h.eq(f"{q} {t} risk", obj, h.sqrt(C.var(x)) / 2 - h.log(p if n == 1 else h.sqrt(p)))
            else:
                h.eq(f"{q} {t} expected return", obj, h.sum(mu[q][t][i] * x[i] for i in range(n)))
                equiv(h, f"{q} {t}", ok, h.And(h.sum(x) == 1, h.sqrt(C.var(x[:n])) <= s / h.sqrt(252)))
        if kind == "EqWeighted":  # its covariances enter through the dilution
            s = h.real(f"dilute{q}", sgn="+")
            tr.get_total_returns(diluted_with_cash=True, sigma_des=s)
            for j, t in enumerate(dates):
                x = list(tr.ws_diluted[j])
                h.eq(f"{q} {t} diluted", 252 * S[q][t].var(x[:n]), s * s)


def table(h):
    """every trader has a row with the metrics of the requested setting;
    PRESCIENT comes last"""
    m = h.mod(PB)
    tm = h.mod(TM)
    order = h.choice("order", [["A", "B"], ["PRESCIENT", "A"], ["A", "PRESCIENT", "B"]])
    want = h.bool("prescient row") if "PRESCIENT" in order else False
    s = h.real("target vol", sgn="+") if h.bool("target") else h.choice("no target", [None, 0])
    F = h.series([h.real("rf")], days(1)) if h.bool("cash rate") else None
    ex = h.bool("excess") if F is not None else False

    class Duck:
        """a trader whose metrics depend on everything it is asked for"""

        def __init__(self, name):
            self.v = {b: [h.real(f"{name}{b}{q}") for q in range(4)] for b in ("right", "wrong")}

        def get_metrics(self, diluted_with_cash=False, sigma_des=0.1, rf=None, excess=False):
            ok = bool(diluted_with_cash) == bool(s is not None and not (isinstance(s, int) and s == 0)) and (not diluted_with_cash or sigma_des is s) and rf is F and excess == ex
            return tm.metrics(*self.v["right" if ok else "wrong"])

    X = {name: Duck(name) for name in order}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m.create_table(X, s, F, ex, prescient=want)
    rows = [x.strip() for x in out.getvalue().split("\n") if "&" in x and "{Predictor}" not in x]
    names_ = [x for x in order if x != "PRESCIENT"] + (["PRESCIENT"] if want else [])
    h.same("rows", [x.split("&")[0].strip() for x in rows], names_)
    for name, row in zip(names_, rows):
        cells = [c.replace("\\\\", "").replace("\\%", "").strip() for c in row.split("&")[1:]]
        h.same("columns", len(cells), 4)
        v = X[name].v["right"]
        for q, (c, f, what) in enumerate(zip(cells, [100, 100, 1, 100], ["return", "risk", "sharpe", "drawdown"])):
            h.shown(f"{name} {what}", c, f * v[q])


def longer(h):
    """more predictors, assets and dates, irregular calendar, predictions that
    start after the returns and end before them"""
    n, K, T = h.p["n"], h.p["K"], h.p["T"]
    kind = h.p["kind"]
    m = h.mod(PB)
    u = names(n)
    d = [x + pd.Timedelta(days=2 * (i // 3)) for i, x in enumerate(days(T))]
    unit = [h.real("scale", sgn="+")] * n
    r = h.shaped("r", T, n, units=False)
    lo0, hi0 = h.choice("coverage", [(0, T), (2, T), (0, T - 2), (3, T - 1)])
    # the other predictors may reach further than the last one
    early, late = h.choice("others reach further", [(0, 0), (1, 0), (0, 1), (2, 1)])
    reach = [(lo0, hi0) if k == K - 1 else (max(0, lo0 - early), min(T, hi0 + late)) for k in range(K)]
    S = [{t: Cov.fixed(h, f"s{k}_{t}_", n, unit) for t in range(*reach[k])} for k in range(K)]
    R = h.frame(r, d, u)
    P = [{d[t]: h.frame(S[k][t].m(), u, u) for t in S[k]} for k in range(K)]
    a = h.choice("start", [None, lo0, lo0 + 1])
    b = h.choice("end", [None, hi0 - 2, hi0 - 1])
    kw = {}
    if a is not None:
        kw["start_date"] = d[a]
    if b is not None:
        kw["end_date"] = d[b]
    lo, hi = lo0 if a is None else a, hi0 - 1 if b is None else b
    dates = list(range(lo, hi))
    lab = h.choice("names", [["one", "two", "three", "four"][:K], ["z", "PRESCIENT", "a", "b"][:K]])
    A = Answers(h)
    s = h.real("target", sgn="+")
    mu = [h.shaped(f"mu{q}", T, n, units=False) for q in range(K)]
    with solver(h, A), quiet():
        if kind == "MeanVariance":
            X = m.MeanVariance(R, P, lab, [h.frame(x, d, u) for x in mu], **kw).backtest(additonal_cons={}, sigma_tar=s)
        elif kind == "MinRisk":
            X = m.MinRisk(R, P, lab, **kw).backtest(additonal_cons={})
        else:
            X = m.EqWeighted(R, P, lab, **kw).backtest()
    h.same("names", list(X), lab)
    cash = kind == "MeanVariance"
    for q in range(K):
        tr = X[lab[q]]
        h.same("periods", np.shape(tr.ws), (len(dates), n + cash))
        tr.get_total_returns()
        for j, t in enumerate(dates):
            w = list(tr.ws[j])
            h.eq(f"{q} {t} return", np.ravel(tr.rets)[j], h.sum(w[i] * r[t + 1][i] for i in range(n)))
            C = S[q][t]
            if kind == "EqWeighted":
                h.eq(f"{q} {t} weights", w, [1 / n] * n)
                continue
            x, sense, obj, ok = A.of(w, False)
            if kind == "MinRisk":
                h.eq(f"{q} {t} risk", obj * obj, C.var(x))
            else:
                h.eq(f"{q} {t} expected return", obj, h.sum(mu[q][t][i] * x[i] for i in range(n)))
        if kind == "EqWeighted":
            tr.get_total_returns(diluted_with_cash=True, sigma_des=s)
            for j, t in enumerate(dates):
                x = list(tr.ws_diluted[j])
                h.eq(f"{q} {t} diluted", 252 * S[q][t].var(x[:n]) / s**2, 1)


CASES = [
    dict(name="eq_weighted", fn=pairing, params=dict(kind="EqWeighted", n=2, T=4)),
    dict(name="min_risk", fn=pairing, params=dict(kind="MinRisk", n=2, T=4)),
    dict(name="max_diverse", fn=pairing, params=dict(kind="MaxDiverse", n=2, T=3), thorough=dict(T=4)),
    dict(name="risk_parity", fn=pairing, params=dict(kind="RiskParity", n=2, T=3), thorough=dict(T=4)),
    dict(name="mean_variance", fn=pairing, params=dict(kind="MeanVariance", n=2, T=3), thorough=dict(T=4)),
    dict(name="table", fn=table, params={}),
    dict(name="longer_eq_weighted", fn=longer, params=dict(kind="EqWeighted", n=3, K=3, T=8)),
    dict(name="longer_min_risk", fn=longer, params=dict(kind="MinRisk", n=3, K=3, T=9)),
    dict(name="longer_mean_variance", fn=longer, params=dict(kind="MeanVariance", n=3, K=3, T=9)),
]
