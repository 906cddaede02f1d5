"""Reference semantics shared by the checks (written from the documentation,
not from the code): plain arithmetic on scalars, usable symbolically and
concretely."""
import numpy as np
import pandas as pd

NAN = float("nan")


def names(n):
    return list("abcdefghijklmnopqrstuvwxyz"[:n])


def days(T, start="2021-03-01"):
    return list(pd.date_range(start, periods=T, freq="D"))


def isnan(x):
    return isinstance(x, (float, np.floating)) and x != x


def ref_ewma(h, xs, b):
    """normalised exponentially weighted average, newest observation last"""
    n = len(xs)
    return h.sum(b ** (n - 1 - k) * xs[k] for k in range(n)) / h.sum(b**k for k in range(n))


def weights(h, n, b):
    den = h.sum(b**k for k in range(n))
    return [b ** (n - 1 - k) / den for k in range(n)]


def ref_clipped_vars(h, xs, b, c2, minp):
    """recursive EWMA of squares with winsorised updates: from observation
    number minp+1 (0-based) on, the new square enters as at most c2 * (previous
    estimate)"""
    out = []
    e = None
    for n, x in enumerate(xs):
        q = x * x
        if n == 0:
            e = q
        else:
            if c2 is not None and n >= minp + 1:
                q = h.min(q, c2 * e)
            w = (1 - b) / (1 - b ** (n + 1))
            e = e + w * (q - e)
        out.append(e)
    return out


def first_visible(minp):
    return max(minp - 1, 0)


def ref_iterated(h, r, bv, bc, mv, mc, mean=False, b1=None, b2=None, clip=None, regular=True):
    """Reference iterated EWMA for a table r[t][i] without missing values and
    with nonzero volatilities.  -> {t: dict(mean, cov, vola)} for the emitted t."""
    T, n = len(r), len(r[0])
    if mean:
        m1 = [[ref_ewma(h, [r[s][i] for s in range(t + 1)], b1) for i in range(n)] for t in range(T)]
    else:
        m1 = [[0] * n for _ in range(T)]
    rc = [[r[t][i] - m1[t][i] for i in range(n)] for t in range(T)]
    c2 = clip * clip if clip is not None else None
    cols = [ref_clipped_vars(h, [rc[t][i] for t in range(T)], bv, c2, mv) for i in range(n)]
    s0 = first_visible(mv)
    if regular:  # precondition: no volatility is zero
        for t in range(s0, T):
            for i in range(n):
                h.assume(cols[i][t] > 0)
    vol = {t: [h.sqrt(cols[i][t]) for i in range(n)] for t in range(s0, T)}
    adj = {}
    for t in range(s0, T):
        row = []
        for i in range(n):
            x = rc[t][i] / vol[t][i]
            if clip is not None:
                x = h.min(h.max(x, -clip), clip)
            row.append(x)
        adj[t] = row
    ts = list(range(s0, T))
    if mean:
        m2 = {t: [ref_ewma(h, [adj[s][i] for s in range(s0, t + 1)], b2) for i in range(n)] for t in ts}
        adjc = {t: [adj[t][i] - m2[t][i] for i in range(n)] for t in ts}
    else:
        m2 = {t: [0] * n for t in ts}
        adjc = adj
    out = {}
    for t in ts[first_visible(mc):]:
        C = [[ref_ewma(h, [adjc[s][i] * adjc[s][j] for s in range(s0, t + 1)], bc) for j in range(n)] for i in range(n)]
        if regular:
            for i in range(n):
                h.assume(C[i][i] > 0)
        d = [h.sqrt(C[i][i]) for i in range(n)]
        cov = [[vol[t][i] * vol[t][j] * C[i][j] / (d[i] * d[j]) for j in range(n)] for i in range(n)]
        out[t] = dict(mean=[m1[t][i] + vol[t][i] * m2[t][i] for i in range(n)], cov=cov, vola=vol[t], adj=adjc, sd=d, first=s0)
    return out


def same_iewma(h, label, a, b):
    """two IEWMA results agree"""
    h.same(label + " time", a.time, b.time)
    h.eq(label + " mean", a.mean, b.mean)
    h.eq(label + " covariance", a.covariance, b.covariance)
    h.eq(label + " volatility", a.volatility, b.volatility)


def whole(h, name, T, n, lo=-4, index=None, columns=None, free=True):
    """the same table of whole numbers as integers and as
    floating point numbers; one
    number is chosen by the solver"""
    import random

    g = random.Random(f"{name}{T}{n}")
    rows = [[g.choice([x for x in range(lo, 6) if x]) for _ in range(n)] for _ in range(T)]
    if free:
        rows[-1][0] = h.int(name, 1, 2)
        rows[T // 2][n - 1] = h.int(name + "2", 2, 3)
    index, columns = index or days(T), columns or names(n)
    A = pd.DataFrame(rows, index=index, columns=columns)
    return A, A.astype(float)
