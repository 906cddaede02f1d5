"""Portfolio accounting: daily returns, growth, drawdown and summary metrics."""
from .trade import *

BOUNDS = "T<=3 (quick) / 4 (thorough) dates, 2 assets; weights, returns, cash rate, adjustment factor symbolic; 25 dates of 4 assets with fixed shape and one symbolic day; value paths of 10 dates with one symbolic value; 300 days of one asset (metrics) and value paths of 520 days"


def held(h, T, n, cash=False):
    """a trader holding arbitrary weights"""
    tr, r, S = trader(h, T, n)
    a = h.real("adjust", sgn="+") if h.p.get("adjust") else 1
    tr.backtest("eq_weighted", **({"adjust_factor": a} if h.p.get("adjust") else {}))
    w = h.reals("w", (T, n))
    tr.ws = h.array(w)
    return tr, r, w, a


def ret(h, w, r):
    return h.sum(x * y for x, y in zip(w, r))


def total(h):
    T, n = h.p["T"], 2
    tr, r, w, a = held(h, T, n)
    tr.get_total_returns()
    h.eq("returns", np.ravel(tr.rets), h.array([ret(h, w[t], r[t]) for t in range(T)]))
    tr.get_portfolio_growth()
    v = 1
    for t in range(T):
        v = v * (1 + ret(h, w[t], r[t]) / a)
        h.eq(f"growth {t}", np.ravel(tr.Vs)[t], v)


def equal(h):
    """the equally weighted portfolio"""
    T, n = h.p["T"], h.int("n", 1, 3)
    tr, r, S = trader(h, T, n)
    tr.backtest("eq_weighted")
    h.same("shape", np.shape(tr.ws), (T, n))
    tr.get_total_returns()
    for t in range(T):
        h.eq(f"weights {t}", h.sum(tr.ws[t]), 1)
        h.eq(f"return {t}", np.ravel(tr.rets)[t], h.sum(r[t]) / n)


def drawdown(h):
    """largest relative fall from the running maximum"""
    T = h.p["T"]
    tr, r, S = trader(h, T, 1)
    tr.backtest("eq_weighted")
    V = [h.real(f"V{t}", sgn="+") for t in range(T)]
    tr.Vs = h.array(V).reshape(-1, 1)
    dd = tr.compute_max_drawdown()
    falls = [(V[s] - V[t]) / V[s] for s in range(T) for t in range(s, T)]
    for i, x in enumerate(falls):
        h.le(f"fall {i}", x, dd)
    h.true("attained", h.Or(*[abs(x - dd) <= 1e-9 if not h.symbolic else x == dd for x in falls]))


def metrics(h):
    T, n = h.p["T"], 1
    tr, r, w, a = held(h, T, n)
    d = days(T)
    kind = h.choice("kind", ["plain", "excess"])
    k = {}
    f = [0] * T
    if kind == "excess":
        f = [h.real(f"f{t}") for t in range(T)]
        k = dict(rf=h.series(f, d), excess=True)
    x = [ret(h, w[t], r[t]) / a for t in range(T)]
    mu = h.sum(x) / T
    var = h.sum((v - mu) ** 2 for v in x) / T
    h.assume(var > 0)
    v = 1
    V = []
    for t in range(T):
        v = v * (1 + x[t])
        h.assume(v > 0)
        V.append(v)
    out = tr.get_metrics(**k)
    e = h.sum(x[t] - f[t] for t in range(T)) / T
    h.eq("mean", out.mean_return, 252 * e)
    h.eq("risk", out.risk, h.sqrt(var) * h.sqrt(252))
    h.eq("sharpe", out.sharpe * out.risk, 252 * e)
    h.eq("drawdown", out.drawdown, tr.compute_max_drawdown())
    h.eq("growth", np.ravel(tr.Vs)[T - 1], V[-1])


def cash(h):
    """with cash the last weight earns the cash rate (zero without one)"""
    T, n = h.p["T"], 2
    tr, r, S = trader(h, T, n)
    tr.backtest("eq_weighted")
    tr.portfolio_type = h.choice("type", ["vol_cont", "mean_variance"])
    w = h.reals("w", (T, n + 1))
    tr.ws = h.array(w)
    f = [h.real(f"f{t}") for t in range(T)] if h.bool("rate") else [0] * T
    k = dict(rf=h.series(f, days(T))) if h.p.get("x") or not isinstance(f[0], int) else {}
    tr.get_total_returns(**k)
    for t in range(T):
        h.eq(f"return {t}", np.ravel(tr.rets)[t], ret(h, w[t], list(r[t]) + [f[t]]))


def history(h):
    """long backtests of several assets: fixed shapes, one arbitrary day, weight
    level arbitrary"""
    T, n = h.p["T"], h.p["n"]
    m = h.mod(TM)
    u, d = names(n), days(T)
    day = h.choice("free day", [0, T // 2, T - 1])
    r = h.shaped("r", T, n, units=False, lo=-0.04, hi=0.04, free=[(day, i) for i in range(n)])
    a = h.choice("adjust", [1, 100])
    tr = m.Trader(h.frame(r, d, u), {t: pd.DataFrame(np.eye(n), u, u) if not h.symbolic else h.frame([[int(i == j) for j in range(n)] for i in range(n)], u, u) for t in d})
    tr.backtest("eq_weighted", adjust_factor=a)
    w = h.shaped("w", T, n, units=False)
    tr.ws = h.array(w)
    x = [ret(h, w[t], r[t]) / a for t in range(T)]
    tr.get_total_returns()
    for t in range(T):
        h.eq(f"return {t}", np.ravel(tr.rets)[t] / a, x[t])
    mu = h.sum(x) / T
    var = h.sum((v - mu) ** 2 for v in x) / T
    h.assume(var > 0)
    tr.get_portfolio_growth()
    v = 1
    for t in range(T):
        v = v * (1 + x[t])
        h.eq(f"growth {t}", np.ravel(tr.Vs)[t], v)
    tr.compute_max_drawdown = lambda: 0
    f = [row[0] for row in h.shaped("f", T, 1, units=False, lo=0, hi=0.001)]
    ex = h.bool("excess")
    out = tr.get_metrics(rf=h.series(f, d), excess=ex)
    e = mu - (h.sum(f) / T if ex else 0)
    h.eq("mean", out.mean_return, 252 * e)
    h.eq("risk", out.risk**2, 252 * var)
    h.ge0("risk sign", out.risk)
    h.eq("sharpe", out.sharpe * out.risk, 252 * e)


def slump(h):
    """drawdown of long value paths of fixed shape, arbitrary level, one
    arbitrary value"""
    T = h.p["T"]
    tr, r, S = trader(h, 1, 1)
    tr.backtest("eq_weighted")
    V = [row[0] for row in h.shaped(h.choice("path", ["p", "q"]), T, 1, units=[1], lo=0.5, hi=1.5)]
    V[h.choice("free", [0, 3, T - 1])] = h.real("V", sgn="+")
    level = h.real("level", sgn="+")
    tr.Vs = h.array([v * level for v in V]).reshape(-1, 1)
    dd = tr.compute_max_drawdown()
    falls = [(V[s] - V[t]) / V[s] for s in range(T) for t in range(s, T)]
    for i, x in enumerate(falls):
        h.le(f"fall {i}", x, dd)
    h.true("attained", h.Or(*[abs(x - dd) <= 1e-9 if not h.symbolic else x == dd for x in falls]))


def decline(h):
    """drawdown of years of values of fixed shape at an arbitrary level"""
    T = h.p["T"]
    tr, r, S = trader(h, 1, 1)
    tr.backtest("eq_weighted")
    x = np.array(h.shaped(h.choice("path", ["p", "q"]), T, 1, units=False, lo=-0.02, hi=0.021), dtype=float)[:, 0]
    v = np.cumprod(1 + x)
    level = h.real("level", sgn="+")
    tr.Vs = h.array([float(a) * level for a in v]).reshape(-1, 1)
    h.eq("drawdown", tr.compute_max_drawdown(), float(np.max(1 - v / np.maximum.accumulate(v))))


CASES = [
    dict(name="total", also=[dict(T=1), dict(T=2)], fn=total, params=dict(T=3, adjust=True), thorough=dict(T=4)),
    dict(name="equal", also=[dict(T=1)], fn=equal, params=dict(T=2), thorough=dict(T=3)),
    dict(name="drawdown", also=[dict(T=1), dict(T=2)], fn=drawdown, params=dict(T=3), thorough=dict(T=4)),
    dict(name="metrics", fn=metrics, params=dict(T=2), thorough=dict(T=3)),
    dict(name="metrics_adjusted", fn=metrics, params=dict(T=2, adjust=True)),
    dict(name="cash", also=[dict(T=1)], fn=cash, params=dict(T=2), thorough=dict(T=3)),
    dict(name="history", fn=history, params=dict(T=25, n=4)),
    dict(name="slump", fn=slump, params=dict(T=10)),
    dict(name="decline", fn=decline, params=dict(T=520)),
    dict(name="years", fn=history, params=dict(T=300, n=1)),
]
