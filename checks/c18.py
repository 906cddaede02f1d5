"""The regularised covariance is the leading eigen-components plus a
nonnegative diagonal: positive semidefinite, exact at full rank."""
from .reg import *

BOUNDS = "n=2..3 assets (thorough 4), every rank 1<=r<=n; volatilities, correlations and test vector symbolic, eigen-decomposition by its contract; up to 9 (thorough 12) assets, every rank, with fixed correlations and symbolic volatilities"


def run(h, X, r, low):
    m = h.mod(RG)
    (_, o), = m.regularize_covariance({0: X.sigma()}, r, low_rank_format=low)
    return o


def spectrum(h):
    """off-diagonal entries are those of the r leading eigen-components; what is
    left out is the diagonal of the remaining ones"""
    n, r = h.p["n"], h.int("r", 1, h.p["n"])
    X = Cov(h, n)
    T, U = X.top(r), X.rest(r)
    A = run(h, X, r, False).to_numpy()
    for i in range(n):
        for j in range(n):
            if i != j:
                h.eq(f"component {i}{j}", A[i, j], X.v[i] * X.v[j] * T[i][j])
    o = run(h, X, r, True)
    d = o.d.to_numpy()
    F = o.F.to_numpy()
    for i in range(n):
        h.eq(f"diagonal {i}", d[i], X.v[i] * X.v[i] * U[i][i])
        h.ge0(f"diagonal sign {i}", U[i][i])
        for j in range(i):
            h.eq(f"factor {i}{j}", h.sum(F[i, k] * F[j, k] for k in range(r)), X.v[i] * X.v[j] * T[i][j])
    # factors in descending order of strength: V^-1 F has columns of length^2 lambda
    for k in range(r):
        h.eq(f"factor length {k}", h.sum(F[i, k] * F[i, k] / X.v[i] ** 2 for i in range(n)), X.lam[n - 1 - k])


def psd(h):
    n, r = h.p["n"], h.int("r", 1, h.p["n"])
    X = Cov(h, n)
    A = run(h, X, r, False).to_numpy()
    T, U = X.top(r), X.rest(r)
    # in units of volatility: entry by entry leading components plus diagonal ...
    for i in range(n):
        for j in range(n):
            h.eq(f"entry {i}{j}", A[i, j] / (X.v[i] * X.v[j]), T[i][j] + (U[i][i] if i == j else 0))
    # ... hence a sum of squares with nonnegative weights
    y = [h.real(f"y{i}") for i in range(n)]
    q = h.sum(y[i] * y[j] * (T[i][j] + (U[i][i] if i == j else 0)) for i in range(n) for j in range(n))
    sq = h.sum(X.lam[k] * h.sum(y[i] * X.Q[i][k] for i in range(n)) ** 2 for k in range(n - r, n)) + h.sum(U[i][i] * y[i] ** 2 for i in range(n))
    h.eq("sum of squares", q, sq)
    for k in range(n - r, n):
        h.ge0(f"weight {k}", X.lam[k])
    for i in range(n):
        h.ge0(f"weight {i}", U[i][i])


def full(h):
    n = h.p["n"]
    X = Cov(h, n)
    h.eq("full rank", run(h, X, n, False), X.sigma())
    o = run(h, X, n, True)
    for i, x in enumerate(o.d.to_numpy()):
        h.eq(f"nothing left {i}", x, 0)


def larger(h):
    """larger universes: the correlation matrix fixed, volatilities arbitrary"""
    n, r = h.p["n"], h.int("r", 1, h.p["n"])
    X = Cov.fixed(h, n, "x")
    T, U = X.top(r), X.rest(r)
    low = h.bool("low rank format")
    o = run(h, X, r, low)
    if low:
        F, d = o.F.to_numpy(), o.d.to_numpy()
        for i in range(n):
            h.eq(f"diagonal {i}", d[i] + X.v[i] ** 2, X.v[i] ** 2 * (1 + U[i][i]))
            h.true(f"diagonal sign {i}", d[i] >= (0 if r < n else -1e-9 * X.v[i] ** 2))
        for k in range(r):
            h.eq(f"factor length {k}", h.sum(F[i, k] * F[i, k] / X.v[i] ** 2 for i in range(n)), X.lam[n - 1 - k])
        return
    A = o.to_numpy()
    for i in range(n):
        for j in range(n):
            h.eq(f"component {i}{j}", A[i, j], X.v[i] * X.v[j] * (T[i][j] if i != j else 1))


CASES = [
    dict(name="spectrum_2", fn=spectrum, params=dict(n=2)),
    dict(name="spectrum_3", fn=spectrum, params=dict(n=3)),
    dict(name="psd_2", fn=psd, params=dict(n=2)),
    dict(name="psd_3", fn=psd, params=dict(n=3)),
    dict(name="full_2", fn=full, params=dict(n=2)),
    dict(name="full_3", fn=full, params=dict(n=3)),
    dict(name="spectrum_4", fn=spectrum, params=dict(n=4), thorough_only=True),
    dict(name="full_4", fn=full, params=dict(n=4), thorough_only=True),
    dict(name="larger", fn=larger, params=dict(n=6), also=[dict(n=4), dict(n=9)], thorough=dict(n=12)),
]
