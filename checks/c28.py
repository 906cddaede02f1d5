"""Risk targeting: cash dilution, volatility control, risk-adjusted returns."""
import contextlib
import io

from .trade import *

BOUNDS = "1-2 assets, 2 dates; weights, covariances, returns, targets symbolic; sequences of up to two dilutions and two backtests; 2-5 dates of 4-6 assets with fixed shape and symbolic units, up to four requests"
Q = 1 / 252


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def check(h, ws, w, r, S, target, T, n, rets=None):
    h.same("shape", np.shape(ws), (T, n + 1))
    for t in range(T):
        x = [ws[t][i] for i in range(n)]
        # the risky part keeps its composition, has the target volatility, and
        # cash takes the rest
        th = h.sqrt(Q) * target / h.sqrt(S[t].var(w[t]))
        for i in range(n):
            h.eq(f"{t} weight {i}", x[i], th * w[t][i])
        h.eq(f"{t} variance", S[t].var(x), h.sqrt(Q) * h.sqrt(Q) * target * target)
        h.eq(f"{t} cash", ws[t][n], 1 - th)
        if rets is not None:
            h.eq(f"{t} return", np.ravel(rets)[t], th * h.sum(w[t][i] * r[t][i] for i in range(n)))


def make(h, T, n):
    tr, r, S = trader(h, T, n)
    tr.backtest("eq_weighted")
    w = h.reals("w", (T, n), nz=True)
    for t in range(T):
        h.assume(S[t].var(w[t]) > 0)
    tr.ws = h.array(w)
    return tr, r, S, w


def dilute(h):
    T, n = h.p["T"], h.p["n"]
    tr, r, S, w = make(h, T, n)
    s = h.real("target", sgn="+")
    if h.bool("through returns"):
        tr.get_total_returns(diluted_with_cash=True, sigma_des=s)
        check(h, tr.ws_diluted, w, r, S, s, T, n, tr.rets)
    else:
        tr.dilute_with_cash(s)
        check(h, tr.ws_diluted, w, r, S, s, T, n)
    h.eq("weights unchanged", tr.ws, h.array(w))


def again(h):
    """a second request with another target, or after another backtest"""
    T, n = 2, h.p["n"]
    tr, r, S, w = make(h, T, n)
    a, b = h.real("first", sgn="+"), h.real("second", sgn="+")
    with quiet():
        tr.get_total_returns(diluted_with_cash=True, sigma_des=a)
        what = h.choice("then", ["other", "same", "plain", "backtest"])
        if what == "other":
            tr.get_total_returns(diluted_with_cash=True, sigma_des=b)
            check(h, tr.ws_diluted, w, r, S, b, T, n, tr.rets)
        elif what == "same":
            tr.get_total_returns(diluted_with_cash=True, sigma_des=a)
            check(h, tr.ws_diluted, w, r, S, a, T, n, tr.rets)
        elif what == "plain":
            tr.get_total_returns()
            for t in range(T):
                h.eq("plain return", np.ravel(tr.rets)[t], h.sum(w[t][i] * r[t][i] for i in range(n)))
        else:
            tr.backtest("eq_weighted")
            tr.get_total_returns(diluted_with_cash=True, sigma_des=b)
            one = 1 / h.real("one", lo=1, hi=1)
            check(h, tr.ws_diluted, [[one / n] * n for _ in range(T)], r, S, b, T, n, tr.rets)


def metrics(h):
    """get_metrics(diluted): the diluted portfolio's, cash earning the rate"""
    T, n = 2, 1
    tr, r, S, w = make(h, T, n)
    a = h.real("target", sgn="+")
    f = [h.real(f"f{t}") for t in range(T)]
    k = dict(rf=h.series(f, days(T))) if h.bool("rate") else {}
    x = []
    for t in range(T):
        th = h.sqrt(Q) * a / h.sqrt(S[t].var(w[t]))
        x.append(th * w[t][0] * r[t][0] + ((1 - th) * f[t] if k else 0))
    h.assume((x[0] - x[1]) ** 2 > 0)
    h.assume(1 + x[0] > 0)
    h.assume((1 + x[0]) * (1 + x[1]) > 0)
    out = tr.get_metrics(diluted_with_cash=True, sigma_des=a, **k)
    h.eq("mean", out.mean_return, 126 * (x[0] + x[1]))
    h.eq("variance", out.risk**2, 63 * (x[0] - x[1]) ** 2)


def control(h):
    """vol_cont: minimum-risk weights of each date scaled to the target"""
    T, n = 2, h.p["n"]
    tr, r, S = trader(h, T, n)
    s, a = h.real("target", sgn="+"), h.real("adjust", sgn="+")
    w = h.reals("w", (T, n), nz=True)
    for t in range(T):
        h.assume(S[t].var(w[t]) > 0)

    def on_solve(prob, k, kw):
        (v,) = prob.variables()
        cvxs.assign(v, list(w[k]))
        return None

    with solver(h, on_solve):
        tr.backtest("vol_cont", sigma_des=s, adjust_factor=a)
    for t in range(T):
        th = h.sqrt(Q) * s * h.sqrt(a) / h.sqrt(S[t].var(w[t]))
        for i in range(n):
            h.eq(f"{t} weight {i}", tr.ws[t][i], th * w[t][i])
        h.eq(f"{t} cash", tr.ws[t][n], 1 - th)
    tr.get_total_returns()
    for t in range(T):
        h.eq(f"{t} return", np.ravel(tr.rets)[t], h.sum(tr.ws[t][i] * r[t][i] for i in range(n)))


def adjusted(h):
    """risk-adjusted returns: same returns scaled to the target risk"""
    T = h.p["T"]
    tr, r, S = trader(h, T, 1)
    tr.backtest("eq_weighted")
    s = h.real("target", sgn="+")
    mu = h.sum(r[t][0] for t in range(T)) / T
    var = h.sum((r[t][0] - mu) ** 2 for t in range(T)) / T
    h.assume(var > 0)
    tr.get_total_returns()
    tr.get_risk_adj_portfolio_growth(sigma_des=s)
    x = np.ravel(tr.rets_adjusted)
    m2 = h.sum(x) / T
    h.eq("risk", h.sum((v - m2) ** 2 for v in x) / T * 252, s * s)
    v = 1
    for t in range(T):
        h.eq("proportional", x[t] * r[0][0], x[0] * r[t][0])
        h.ge0("same direction", x[t] * r[t][0])
        v = v * (1 + x[t])
        h.eq("growth", np.ravel(tr.Vs_adjusted)[t], v)


def larger(h):
    """more assets and dates: covariances of fixed shape in arbitrary units,
    several targets one after the other"""
    T, n = h.p["T"], h.p["n"]
    m = h.mod(TM)
    u, d = names(n), days(T)
    unit = [h.real(f"unit{i}", sgn="+") for i in range(n)]
    S = [Cov.fixed(h, f"s{t}_", n, unit) for t in range(T)]
    r = h.shaped("r", T, n, units=unit)
    w = h.shaped("w", T, n, units=[1 / x for x in unit])
    tr = m.Trader(h.frame(r, d, u), {d[t]: h.frame(S[t].m(), u, u) for t in range(T)})
    tr.backtest("eq_weighted")
    tr.ws = h.array(w)
    a = h.real("first", sgn="+")
    b = a + h.real("more", sgn="+")
    with quiet():
        for q in h.choice("targets", [[a], [a, b], [a, b, a], [b, None, a, a]]):
            tr.get_total_returns(**(dict(diluted_with_cash=True, sigma_des=q) if q is not None else {}))
            if q is None:
                for t in range(T):
                    h.eq(f"plain return {t}", np.ravel(tr.rets)[t], h.sum(w[t][i] * r[t][i] for i in range(n)))
            else:
                check(h, tr.ws_diluted, w, r, S, q, T, n, tr.rets)


CASES = [
    dict(name="dilute_1", fn=dilute, params=dict(T=2, n=1)),
    dict(name="dilute_2", also=[dict(T=1)], fn=dilute, params=dict(T=2, n=2)),
    dict(name="again_1", fn=again, params=dict(n=1)),
    dict(name="again_2", fn=again, params=dict(n=2)),
    dict(name="metrics", fn=metrics, params=dict()),
    dict(name="control_1", fn=control, params=dict(n=1)),
    dict(name="control_2", fn=control, params=dict(n=2)),
    dict(name="adjusted", fn=adjusted, params=dict(T=2), thorough=dict(T=3)),
    dict(name="larger", fn=larger, params=dict(T=5, n=4), also=[dict(T=2, n=6)]),
]
