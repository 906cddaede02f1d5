"""The optimisation problem solved for each date, and the weights taken from it."""
from .trade import *

BOUNDS = "2 assets (1 for the robust portfolio), 2 dates; covariances, expected returns, uncertainties, limits and solver answers symbolic; limits present or absent; 3-4 assets with covariances of fixed shape and one symbolic scale"


def run(h, kind, T, n, size, normalise=False, limits=("short_lim", "upper_bound", "lower_bound"), build=None, before=None, **k):
    """backtest; -> for each date (point, objective, feasibility) of the
    problem whose answer became that date's weights"""
    tr, r, S = build(h, T, n) if build else trader(h, T, n)
    lim = {}
    for q in limits:
        lim[q] = h.real(q)
    lim = h.choice("limits", [{}, lim]) if len(limits) == 3 else lim
    A = []

    def on_solve(prob, c, kw):
        (v,) = prob.variables()
        h.same("size", v.size, size)
        x = [h.real(f"x{c}_{i}", sgn="+" if normalise else None) for i in range(size)]
        cvxs.assign(v, x)
        sense, obj = cvxs.objective(prob)
        A.append((x, sense, obj, cvxs.feasible(h, prob)))

    with solver(h, on_solve):
        if before is not None and h.bool("backtested before"):  # leaves no trace
            tr.backtest(**before)
            A.clear()
        tr.backtest(kind, additonal_cons=dict(lim), **k)
    h.same("shape", np.shape(tr.ws), (T, size))
    out = []
    for t in range(T):
        row = list(tr.ws[t])
        for a in A:
            s = h.sum(a[0]) if normalise else 1
            if all(zero(h, row[i] * s - a[0][i]) for i in range(size)):
                out.append(a)
                break
        else:
            h.fail("weights", f"the weights of date {t} are no answer of the solver")
    return out, S, lim, tr


def box(h, x, lim):
    c = []
    if "short_lim" in lim:
        c.append(h.sum(h.abs(v) for v in x) <= lim["short_lim"])
    if "upper_bound" in lim:
        c += [v <= lim["upper_bound"] for v in x]
    if "lower_bound" in lim:
        c += [v >= lim["lower_bound"] for v in x]
    return c


def min_risk(h):
    T, n = 2, h.p["n"]
    out, S, lim, tr = run(h, "min_risk", T, n, n, before=dict(portfolio_type="min_risk", additonal_cons={"upper_bound": 1}))
    for t, (x, sense, obj, ok) in enumerate(out):
        h.same("sense", sense, "min")
        h.eq(f"{t} risk", obj * obj, S[t].var(x))
        h.ge0(f"{t} risk", obj)
        equiv(h, f"{t} feasible", ok, h.And(h.sum(x) == 1, *box(h, x, lim)))


def robust(h):
    T, n = 2, h.p["n"]
    kap = h.real("kappa", sgn="0+")
    out, S, lim, tr = run(h, "robust_min_risk", T, n, n, kappa=kap)
    for t, (x, sense, obj, ok) in enumerate(out):
        h.same("sense", sense, "min")
        pen = h.sum(S[t].sd(i) * h.abs(x[i]) for i in range(n))
        risk = obj - kap * pen * pen
        h.eq(f"{t} risk", risk * risk, S[t].var(x))
        h.ge0(f"{t} risk", risk)
        equiv(h, f"{t} feasible", ok, h.And(h.sum(x) == 1, *box(h, x, lim)))


def mean_variance(h):
    T, n = 2, h.p["n"]
    m = h.mod(TM)
    u, d = names(n), days(T)
    mu = h.reals("mu", (T, n))
    rho = [[h.real(f"rho{t}{i}", sgn="0+") for i in range(n)] for t in range(T)] if h.bool("uncertainty") else None
    k = dict(rhos=h.frame(rho, d, u)) if rho else {}
    s, a = h.real("target", sgn="+"), h.real("adjust", sgn="+")

    def build(h, T, n):
        return trader(h, T, n, r_hats=h.frame(mu, d, u), **k)

    out, S, lim, tr = run(h, "mean_variance", T, n, n + 1, build=build, before=dict(portfolio_type="mean_variance", additonal_cons={}, sigma_des=1), sigma_des=s, adjust_factor=a, **k)
    for t, (x, sense, obj, ok) in enumerate(out):
        h.same("sense", sense, "max")
        risky = x[:n]
        h.eq(f"{t} return", obj, h.sum(mu[t][i] * x[i] - (rho[t][i] * h.abs(x[i]) if rho else 0) for i in range(n)))
        equiv(h, f"{t} feasible", ok, h.And(h.sum(x) == 1, h.sqrt(S[t].var(risky)) <= s * a / h.sqrt(252), *box(h, risky, lim)))


def max_diverse(h):
    T, n = 2, h.p["n"]
    out, S, lim, tr = run(h, "max_diverse", T, n, n, normalise=True, limits=("upper_bound",))
    for t, (x, sense, obj, ok) in enumerate(out):
        h.same("sense", sense, "min")
        h.eq(f"{t} risk", obj * obj, S[t].var(x))
        h.ge0(f"{t} risk", obj)
        equiv(h, f"{t} feasible", ok, h.And(h.sum(S[t].sd(i) * x[i] for i in range(n)) == 1, *[v >= 0 for v in x], *[v <= lim["upper_bound"] * h.sum(x) for v in x]))


def max_sharpe(h):
    T, n = 2, h.p["n"]
    u, d = names(n), days(T)
    mu = h.reals("mu", (T, n))

    def build(h, T, n):
        return trader(h, T, n, r_hats=h.frame(mu, d, u))

    out, S, lim, tr = run(h, "max_sharpe", T, n, n, normalise=True, limits=("upper_bound",), build=build)
    for t, (x, sense, obj, ok) in enumerate(out):
        h.same("sense", sense, "min")
        h.eq(f"{t} risk", obj * obj, S[t].var(x))
        h.ge0(f"{t} risk", obj)
        equiv(h, f"{t} feasible", ok, h.And(h.sum(mu[t][i] * x[i] for i in range(n)) == 1, *[v >= 0 for v in x]))


def risk_parity(h):
    """stationary points of the objective have equal risk contributions"""
    T, n = 2, h.p["n"]
    out, S, lim, tr = run(h, "risk_parity", T, n, n, normalise=True, limits=("upper_bound",))
    for t, (x, sense, obj, ok) in enumerate(out):
        h.same("sense", sense, "min")
        p = 1
        for v in x:
            p = p * v
        h.eq(f"{t} objective", obj, h.sqrt(S[t].var(x)) / 2 - h.log(p if n == 1 else h.sqrt(p)))
        h.true(f"{t} unconstrained", ok)


def larger(h):
    """more assets: covariances of fixed shape, one arbitrary scale"""
    T, n = h.p["T"], h.p["n"]
    m = h.mod(TM)
    u, d = names(n), days(T)
    kind = h.p["kind"]
    s = h.real("scale", sgn="+")
    S = [Cov.fixed(h, f"s{t}_", n, [s] * n) for t in range(T)]
    mu = h.shaped("mu", T, n, units=False)
    if kind == "max_sharpe":
        mu = abs(mu) if not h.symbolic else h.array([[x if x > 0 else -x for x in row] for row in mu])
    k = {}
    if kind in ("max_sharpe", "mean_variance"):
        k["r_hats"] = h.frame(mu, d, u)

    def build(h, T, n):
        r = h.shaped("r", T, n, units=False)
        return m.Trader(h.frame(r, d, u), {d[t]: h.frame(S[t].m(), u, u) for t in range(T)}, **k), r, S

    kap = h.real("kappa", sgn="0+") if kind == "robust_min_risk" else None
    a = h.real("target", sgn="+") if kind == "mean_variance" else None
    extra = {} if kap is None else dict(kappa=kap)
    if a is not None:
        extra["sigma_des"] = a
    ratio = kind in ("max_diverse", "max_sharpe", "risk_parity")
    out, _, lim, tr = run(h, kind, T, n, n + (kind == "mean_variance"), normalise=ratio, limits=("upper_bound",) if ratio else ("short_lim", "upper_bound", "lower_bound"), build=build, **extra)
    for t, (x, sense, obj, ok) in enumerate(out):
        y = x[:n]
        h.same("sense", sense, "max" if kind == "mean_variance" else "min")
        if kind in ("min_risk", "max_diverse", "max_sharpe"):
            h.eq(f"{t} risk", obj * obj, S[t].var(y))
            h.ge0(f"{t} risk", obj)
        if kind == "min_risk":
            equiv(h, f"{t} feasible", ok, h.And(h.sum(x) == 1, *box(h, x, lim)))
        if kind == "max_sharpe":
            equiv(h, f"{t} feasible", ok, h.And(h.sum(mu[t][i] * x[i] for i in range(n)) == 1, *[v >= 0 for v in x]))
        if kind == "max_diverse":
            h.true(f"{t} feasible implies signs", h.Or(h.Not(ok), h.And(*[v >= 0 for v in x], *[v <= lim["upper_bound"] * h.sum(x) for v in x])))
        if kind == "robust_min_risk":
            pen = h.sum(S[t].sd(i) * h.abs(x[i]) for i in range(n))
            risk = obj - kap * pen * pen
            h.eq(f"{t} risk", risk * risk, S[t].var(x))
        if kind == "mean_variance":
            h.eq(f"{t} return", obj, h.sum(mu[t][i] * x[i] for i in range(n)))
            h.true(f"{t} feasible", h.Or(h.Not(ok), h.And(h.sum(x) == 1, *box(h, y, lim))))
        if kind == "risk_parity":
            h.true(f"{t} unconstrained", ok)


CASES = [
    dict(name="min_risk_1", fn=min_risk, params=dict(n=1)),
    dict(name="min_risk_diag", fn=min_risk, params=dict(n=2, diag=True)),
    dict(name="min_risk_2", fn=min_risk, params=dict(n=2)),
    dict(name="robust_1", fn=robust, params=dict(n=1)),
    dict(name="robust_diag", fn=robust, params=dict(n=2, diag=True)),
    dict(name="robust_2", fn=robust, params=dict(n=2), thorough_only=True),
    dict(name="mean_variance_1", fn=mean_variance, params=dict(n=1)),
    dict(name="mean_variance_diag", fn=mean_variance, params=dict(n=2, diag=True)),
    dict(name="mean_variance_2", fn=mean_variance, params=dict(n=2)),
    dict(name="max_diverse_diag", fn=max_diverse, params=dict(n=2, diag=True)),
    dict(name="max_diverse_2", fn=max_diverse, params=dict(n=2)),
    dict(name="max_sharpe_diag", fn=max_sharpe, params=dict(n=2, diag=True)),
    dict(name="max_sharpe_2", fn=max_sharpe, params=dict(n=2)),
    dict(name="risk_parity_diag", fn=risk_parity, params=dict(n=2, diag=True)),
    dict(name="risk_parity_2", fn=risk_parity, params=dict(n=2)),
    dict(name="larger_min_risk", fn=larger, params=dict(T=2, n=4, kind="min_risk")),
    dict(name="larger_robust", fn=larger, params=dict(T=2, n=3, kind="robust_min_risk")),
    dict(name="larger_mean_variance", fn=larger, params=dict(T=2, n=4, kind="mean_variance")),
    dict(name="larger_max_diverse", fn=larger, params=dict(T=2, n=4, kind="max_diverse")),
    dict(name="larger_max_sharpe", fn=larger, params=dict(T=2, n=4, kind="max_sharpe")),
]
