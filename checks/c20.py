"""EM keeps the approximation valid and never makes it worse: diagonals stay
positive, each loading update is the best regression, and with one asset the
fitted variance moves monotonically towards the true one."""
from .c19 import *

BOUNDS = "one iteration from an arbitrary state: 1-2 assets with 1-2 factors, unrelated assets up to 3 with one factor each, everything symbolic (thorough: 3 assets); all passes of a call: one asset, three starting models, variance symbolic; all passes at 4-6 assets and 1-3 factors, fixed shapes in symbolic units"


def positive(h):
    """the diagonal stays positive and the implied covariance positive definite"""
    n, k = h.p["n"], h.p["k"]
    X = Model(h, n, k)
    C = [[h.real(f"s{i}{j}", sgn="+" if i == j else None) if j <= i else 0 for j in range(n)] for i in range(n)]
    S = [[h.sum(C[i][q] * C[j][q] for q in range(n)) for j in range(n)] for i in range(n)]
    m = h.mod(RG)
    with once(h, m):
        F, d = em(h, S, X.low(h, names(n)), names(n))
    for i in range(n):
        # strictly positive: the expected squared residual given the factor
        h.true(f"positive {i}", d[i] > 0)


def regression(h):
    """no other loading/diagonal update fits the posterior moments better"""
    n, k = h.p["n"], h.p["k"]
    X = Model(h, n, k)
    if h.p.get("separate"):  # unrelated assets, one factor each
        X.F = [[X.F[i][j] if i == j else 0 for j in range(k)] for i in range(n)]
        S = [[h.real(f"s{i}", sgn="+") if i == j else 0 for j in range(n)] for i in range(n)]
    else:
        S = spd_input(h, n)
    m = h.mod(RG)
    with once(h, m):
        F, d = em(h, S, X.low(h, names(n)), names(n))
    _, _, Css, Cxs = update(h, S, X)
    for i in range(n):
        g = [h.real(f"g{i}{j}") for j in range(k)]
        err = S[i][i] - 2 * h.sum(Cxs[i][j] * g[j] for j in range(k)) + h.sum(g[a] * Css[a][b] * g[b] for a in range(k) for b in range(k))
        e = [g[j] - F[i, j] for j in range(k)]
        # err - d = (g - F) Css (g - F)', a nonnegative form
        h.eq(f"excess {i}", err - d[i], h.sum(e[a] * Css[a][b] * e[b] for a in range(k) for b in range(k)))
    if k == 1:
        h.true("form", Css[0][0] > 0)


def closer(h):
    """one asset: the fitted variance f^2+d moves towards the variance and does
    not overshoot"""
    X = Model(h, 1, 1)
    s = h.real("s", sgn="+")
    m = h.mod(RG)
    with once(h, m):
        F, d = em(h, [[s]], X.low(h, ["u"]), ["u"])
    a = X.F[0][0] ** 2 + X.d[0] - s
    b = F[0, 0] ** 2 + d[0] - s
    h.true("same side", a * b >= 0)
    h.true("closer", b * b <= a * a)


def whole(h):
    """all passes of one call, from fixed starting models, any covariance"""
    n = h.p["n"]
    F0, d0 = h.choice("start", h.p["start"])
    m = h.mod(RG)
    if n == 1:
        S = [[h.real("s", sgn="+")]]
    else:
        c = h.real("s01")
        S = [[1 + c * c, c], [c, 1]]
    low = m.LowRankDiag(F=h.frame([[v] for v in F0], names(n)), d=h.series(d0, names(n)))
    F, d = em(h, S, low, names(n))
    for i in range(n):
        h.true(f"positive {i}", d[i] > 0)
    if n == 1:
        a = F0[0] ** 2 + d0[0] - S[0][0]
        b = F[0, 0] ** 2 + d[0] - S[0][0]
        h.true("same side", a * b >= 0)
        h.true("closer", b * b <= a * a)


def larger(h):
    """all passes on larger universes, fixed shapes in arbitrary units: the
    diagonal stays positive and the Gaussian likelihood never falls"""
    from .c19 import Exact, fixed_shape

    n, k = h.p["n"], h.p["k"]
    c = [h.real(f"c{i}", sgn="+") for i in range(n)]
    m = h.mod(RG)
    x = (lambda q: q) if h.symbolic else float
    A, F0, d0 = fixed_shape(n, k, h.choice("start", h.p["start"]))
    S = [[c[i] * c[j] * x(A[i][j]) for j in range(n)] for i in range(n)]
    low = m.LowRankDiag(F=h.frame([[c[i] * x(F0[i][j]) for j in range(k)] for i in range(n)], names(n)), d=h.series([c[i] ** 2 * x(d0[i]) for i in range(n)], names(n)))
    F, d = em(h, S, low, names(n))
    for i in range(n):
        h.true(f"positive {i}", d[i] > 0)
    # likelihood loss tr(S X^-1) + log det X, in units of the assets
    G = [[F[i, j] / c[i] for j in range(k)] for i in range(n)]
    e = [d[i] / c[i] ** 2 for i in range(n)]
    before = [[h.sum(F0[i][q] * F0[j][q] for q in range(k)) + (d0[i] if i == j else 0) for j in range(n)] for i in range(n)]
    after = [[h.sum(G[i][q] * G[j][q] for q in range(k)) + (e[i] if i == j else 0) for j in range(n)] for i in range(n)]

    def loss(X):
        X = h.array(X)
        I = np.linalg.inv(X)
        return np.sum(h.array(A) * I.T), np.linalg.det(X)

    (ta, da), (tb, db) = loss(after), loss(before)
    import math

    if h.symbolic:  # the units cancel
        from symex import alg

        q = [alg.lift(v) for v in (ta, da, tb, db)]
        h.assume(all(v.is_const() for v in q))
        ta, da, tb, db = (float(v.cval()) for v in q)
    h.le("loss", ta + math.log(da), tb + math.log(db))


CASES = [
    dict(name="whole_1", fn=whole, params=dict(n=1, start=[([1], [1]), ([2], [1]), ([-1], [3])])),
    dict(name="positive_11", fn=positive, params=dict(n=1, k=1)),
    dict(name="positive_21", fn=positive, params=dict(n=2, k=1)),
    dict(name="regression_11", fn=regression, params=dict(n=1, k=1)),
    dict(name="regression_21", fn=regression, params=dict(n=2, k=1)),
    dict(name="regression_separate", fn=regression, params=dict(n=2, k=2, separate=True), also=[dict(n=3, k=3)]),
    dict(name="closer", fn=closer, params=dict()),
    dict(name="regression_22", fn=regression, params=dict(n=2, k=2)),
    dict(name="regression_31", fn=regression, params=dict(n=3, k=1), thorough_only=True),
    dict(name="larger", fn=larger, params=dict(n=4, k=2, start=["p", "q", "r"]), also=[dict(n=6, k=3), dict(n=5, k=1)]),
]
