"""Factor regularisation keeps the variances; both output formats describe the
same matrix; dates, labels and inputs are preserved."""
from .reg import *

BOUNDS = "n=2..3 assets (thorough 4), every rank 1<=r<=n, 2 dates; volatilities and correlations symbolic, eigen-decomposition by its contract; up to 9 (thorough 12) assets, every rank, with fixed correlations and symbolic volatilities"


def formats(h):
    m = h.mod(RG)
    n, r = h.p["n"], h.int("r", 1, h.p["n"])
    X = Cov(h, n)
    a = list(m.regularize_covariance({"d": X.sigma()}, r))
    b = list(m.regularize_covariance({"d": X.sigma()}, r, low_rank_format=True))
    h.same("dates", [[t for t, _ in a], [t for t, _ in b]], [["d"], ["d"]])
    A, B = a[0][1], b[0][1]
    h.same("labels", [list(A.index), list(A.columns), list(B.F.index), list(B.d.index)], [names(n)] * 4)
    h.same("rank", B.F.shape, (n, r))
    A = A.to_numpy()
    F, d = B.F.to_numpy(), B.d.to_numpy()
    for i in range(n):
        h.eq(f"variance {i}", A[i, i], X.v[i] ** 2)
        for j in range(i):
            h.eq(f"symmetry {i}{j}", A[i, j], A[j, i])
        for j in range(i + 1):
            t = h.sum(F[i, k] * F[j, k] for k in range(r))
            h.eq(f"formats {i}{j}", t + d[i] if i == j else t, A[i, j])


def several(h):
    """dates are treated separately, in the order given, lazily; inputs unchanged"""
    m = h.mod(RG)
    n, r = 2, h.int("r", 1, 2)
    low = h.bool("low rank format")
    X, Y = Cov(h, n, "x"), Cov(h, n, "y")
    keys = days(2) if h.bool("ascending") else days(2)[::-1]
    S = {keys[0]: X.sigma(), keys[1]: Y.sigma(["p", "q"])}
    both = list(m.regularize_covariance(S, r, low_rank_format=low))
    one = [list(m.regularize_covariance({k: q.sigma(l)}, r, low_rank_format=low))[0] for k, q, l in zip(keys, (X, Y), (names(2), ["p", "q"]))]
    h.same("dates", [t for t, _ in both], keys)
    for (t, a), (_, b) in zip(both, one):
        if low:
            h.eq("F", a.F, b.F, trace=False)
            h.eq("d", a.d, b.d)
        else:
            h.eq("covariance", a, b)
    h.same("untouched keys", list(S), keys)
    h.eq("untouched", S[keys[0]], X.sigma())
    h.eq("untouched", S[keys[1]], Y.sigma(["p", "q"]))


def larger(h):
    """larger universes: the correlation matrix fixed, volatilities arbitrary"""
    m = h.mod(RG)
    n, r = h.p["n"], h.int("r", 1, h.p["n"])
    X = Cov.fixed(h, n, "x")
    u = h.choice("labels", [names(n), list(range(n))[::-1]])
    S = X.sigma(u)
    a = list(m.regularize_covariance({"d": S}, r))
    b = list(m.regularize_covariance({"d": S}, r, low_rank_format=True))
    h.same("dates", [[t for t, _ in a], [t for t, _ in b]], [["d"], ["d"]])
    A, B = a[0][1], b[0][1]
    h.same("labels", [list(A.index), list(A.columns), list(B.F.index), list(B.d.index)], [list(u)] * 4)
    h.same("rank", B.F.shape, (n, r))
    A = A.to_numpy()
    F, d = B.F.to_numpy(), B.d.to_numpy()
    for i in range(n):
        h.eq(f"variance {i}", A[i, i], X.v[i] ** 2)
        for j in range(i + 1):
            h.eq(f"symmetry {i}{j}", A[i, j], A[j, i])
            t = h.sum(F[i, k] * F[j, k] for k in range(r))
            h.eq(f"formats {i}{j}", t + d[i] if i == j else t, A[i, j])
    h.eq("input unchanged", S, X.sigma(u))


CASES = [
    dict(name="formats_2", fn=formats, params=dict(n=2)),
    dict(name="formats_3", fn=formats, params=dict(n=3)),
    dict(name="several", fn=several, params=dict()),
    dict(name="formats_4", fn=formats, params=dict(n=4), thorough_only=True),
    dict(name="larger", fn=larger, params=dict(n=6), also=[dict(n=4), dict(n=9)], thorough=dict(n=12)),
]
