"""Convex-concave regularisation: parametrisation, objective, surrogate problem,
gradients."""
import contextlib
import io

from symex import cvxs
from .lib import *

CC = "experiments.utils.ccp_regularize"
BOUNDS = "2 assets (1 for the solver problem with several steps), rank 1 (gradients: ranks 1-2); covariance, factor model, trial points symbolic; two solver steps; 3-5 assets, ranks 1-3 with fixed shapes and symbolic units"


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def model(h, n, rank, tag=""):
    F = [[h.real(f"{tag}f{i}{k}", nz=(i == 0)) for k in range(rank)] for i in range(n)]
    d = [h.real(f"{tag}d{i}", sgn="+") for i in range(n)]
    M = [[h.sum(F[i][k] * F[j][k] for k in range(rank)) + (d[i] if i == j else 0) for j in range(n)] for i in range(n)]
    return F, d, M


def det(M):
    if len(M) == 1:
        return M[0][0]
    return M[0][0] * M[1][1] - M[0][1] * M[1][0]


def inv(M):
    if len(M) == 1:
        return [[1 / M[0][0]]]
    D = det(M)
    return [[M[1][1] / D, -M[0][1] / D], [-M[1][0] / D, M[0][0] / D]]


def spd(h, n, tag="s"):
    C = [[h.real(f"{tag}{i}{j}", sgn="+" if i == j else None) if j <= i else 0 for j in range(n)] for i in range(n)]
    return [[h.sum(C[i][k] * C[j][k] for k in range(n)) for j in range(n)] for i in range(n)]


def roundtrip(h):
    """the internal parameters stand for the same covariance model"""
    n, rank = h.p["n"], h.p["rank"]
    m = h.mod(CC)
    F, d, M = model(h, n, rank)
    S = spd(h, n)
    for cls in (m._State, m._State2):
        st = cls(h.array(S), h.array(F), h.array(d))
        with quiet():
            A, b = st.build()
            o = st.objective()
        h.same("shapes", (np.shape(A), np.shape(b)), ((n, rank), (n,)))
        for i in range(n):
            h.eq(f"idiosyncratic {i}", b[i], d[i])
            for j in range(i + 1):
                h.eq(f"factor part {i}{j}", h.sum(A[i][k] * A[j][k] for k in range(rank)), h.sum(F[i][k] * F[j][k] for k in range(rank)))
        I = inv(M)
        want = h.log(det(M)) + h.sum(S[i][j] * I[j][i] for i in range(n) for j in range(n))
        h.eq("objective is twice the negative log-likelihood", o, want)


def surrogate(h):
    """each step minimises a majoriser of the objective that touches it at the
    current point, and moves to the solver's answer"""
    n, rank, steps = h.p["n"], h.p["rank"], h.p["steps"]
    m = h.mod(CC)
    F, d, M = model(h, n, rank)
    S = spd(h, n)
    st = m._State(h.array(S), h.array(F), h.array(d))
    answers = []
    cur = []

    def on_solve(prob, c, kw):
        e = [h.real(f"e{c}_{i}", sgn="+") for i in range(n)]
        G = [[h.real(f"g{c}_{i}{k}") for k in range(rank)] for i in range(n)]
        cvxs.assign(st.e_var, e)
        cvxs.assign(st.G_var, [G[i][k] for k in range(rank) for i in range(n)])
        sense, obj = cvxs.objective(prob)
        h.same("sense", sense, "min")
        h.true("unconstrained", cvxs.feasible(h, prob))
        Gk = cur[-1] if cur else None
        P = [[(e[i] if i == j else 0) - h.sum(G[i][k] * G[j][k] for k in range(rank)) for j in range(n)] for i in range(n)]
        for q in range(n):  # the model of the answer is valid
            h.assume(P[q][q] > 0)
        h.assume(det(P) > 0)
        if Gk is not None:
            true = -h.log(det(P)) + h.sum(S[i][j] * P[j][i] for i in range(n) for j in range(n))
            gap = h.sum(S[i][j] * (G[i][k] - Gk[i][k]) * (G[j][k] - Gk[j][k]) for i in range(n) for j in range(n) for k in range(rank))
            const = h.sum(S[i][j] * Gk[i][k] * Gk[j][k] for i in range(n) for j in range(n) for k in range(rank))
            h.eq("majoriser", obj + const, true + gap)
        cur.append(G)
        answers.append((e, G))

    with cvxs.standin(h, on_solve), quiet():
        st.construct_problem()
        for c in range(steps):
            st.iterate()
    with quiet():
        A, b = st.build()
    e, G = answers[-1]
    P = [[(e[i] if i == j else 0) - h.sum(G[i][k] * G[j][k] for k in range(rank)) for j in range(n)] for i in range(n)]
    I = inv(P)
    for i in range(n):
        h.eq(f"idiosyncratic {i}", b[i] * e[i], 1)
        for j in range(i + 1):
            h.eq(f"model {i}{j}", h.sum(A[i][k] * A[j][k] for k in range(rank)) + (b[i] if i == j else 0), I[i][j])


def gradients(h):
    """the gradient of the log-determinant of the precision, used by the
    gradient variant"""
    n, rank = h.p["n"], h.p["rank"]
    m = h.mod(CC)
    if not all(hasattr(m, q) for q in ("_common_factor", "_grad_G", "_grad_e")):
        return
    e = [h.real(f"e{i}", sgn="+") for i in range(n)]
    G = [[h.real(f"g{i}{k}") for k in range(rank)] for i in range(n)]
    P = [[(e[i] if i == j else 0) - h.sum(G[i][k] * G[j][k] for k in range(rank)) for j in range(n)] for i in range(n)]
    h.assume(P[0][0] > 0)
    h.assume(det(P) > 0)
    I = inv(P)
    E, GG = h.array(e), h.array(G)
    c = m._common_factor(E, GG)
    h.eq("with respect to G", m._grad_G(c), h.array([[2 * h.sum(I[i][j] * G[j][k] for j in range(n)) for k in range(rank)] for i in range(n)]))
    h.eq("with respect to e", m._grad_e(E, GG, c), h.array([-I[i][i] for i in range(n)]))


def shapes(h, n, rank, tag):
    """fixed shape: covariance, loadings, diagonal"""
    import random
    from fractions import Fraction

    g = random.Random(f"{tag}{n}{rank}")
    q = lambda: Fraction(g.randint(-100, 100), 100)
    C = [[q() if j < i else 1 + abs(q()) if i == j else 0 for j in range(n)] for i in range(n)]
    S = [[sum(C[i][a] * C[j][a] for a in range(n)) for j in range(n)] for i in range(n)]
    F = [[q() for _ in range(rank)] for _ in range(n)]
    d = [1 + abs(q()) for _ in range(n)]
    x = (lambda v: v) if h.symbolic else float
    return [[x(v) for v in row] for row in S], [[x(v) for v in row] for row in F], [x(v) for v in d]


def larger(h):
    """more assets and factors: fixed shapes in arbitrary units, from the
    starting model through two solver steps"""
    n, rank, steps = h.p["n"], h.p["rank"], 2
    m = h.mod(CC)
    u = [h.real(f"unit{i}", sgn="+") for i in range(n)]
    S0, F0, d0 = shapes(h, n, rank, "a")
    S = [[u[i] * u[j] * S0[i][j] for j in range(n)] for i in range(n)]
    F = [[u[i] * F0[i][k] for k in range(rank)] for i in range(n)]
    d = [u[i] ** 2 * d0[i] for i in range(n)]

    def cov(F, d):  # free of units
        return [[h.sum(F[i][k] * F[j][k] for k in range(rank)) + (d[i] if i == j else 0) for j in range(n)] for i in range(n)]

    def precision(e, G):
        return [[(e[i] if i == j else 0) - h.sum(G[i][k] * G[j][k] for k in range(rank)) for j in range(n)] for i in range(n)]

    logu = 2 * h.sum(h.log(x) for x in u)

    def loss(P):  # P: precision free of units
        return -h.log(np.linalg.det(h.array(P))) + logu + h.sum(S0[i][j] * P[j][i] for i in range(n) for j in range(n))

    P0 = np.linalg.inv(h.array(cov(F0, d0)))
    for cls in (m._State, m._State2):
        st = cls(h.array(S), h.array(F), h.array(d))
        with quiet():
            A, b = st.build()
            o = st.objective()
        A = [[A[i][k] / u[i] for k in range(rank)] for i in range(n)]
        M, N = cov(A, [b[i] / u[i] ** 2 for i in range(n)]), cov(F0, d0)
        for i in range(n):
            h.eq(f"idiosyncratic {i}", b[i], d[i])
            for j in range(i + 1):
                h.eq(f"covariance {i}{j}", M[i][j], N[i][j])
        h.eq("objective", o, loss(P0.tolist()))
    st = m._State(h.array(S), h.array(F), h.array(d))
    cur = []

    def on_solve(prob, c, kw):
        _, F1, d1 = shapes(h, n, rank, f"step{c}")
        e0 = [1 / x for x in d1]
        G0 = [[F1[i][k] / (4 * d1[i] * n) for k in range(rank)] for i in range(n)]
        e = [e0[i] / u[i] ** 2 for i in range(n)]
        G = [[G0[i][k] / u[i] for k in range(rank)] for i in range(n)]
        cvxs.assign(st.e_var, e)
        cvxs.assign(st.G_var, [G[i][k] for k in range(rank) for i in range(n)])
        sense, obj = cvxs.objective(prob)
        h.same("sense", sense, "min")
        h.true("unconstrained", cvxs.feasible(h, prob))
        P = precision(e0, G0)
        if cur:
            Gk = cur[-1][1]
            gap = h.sum(S0[i][j] * (G0[i][k] - Gk[i][k]) * (G0[j][k] - Gk[j][k]) for i in range(n) for j in range(n) for k in range(rank))
            const = h.sum(S0[i][j] * Gk[i][k] * Gk[j][k] for i in range(n) for j in range(n) for k in range(rank))
            h.eq("majoriser", obj + const, loss(P) + gap)
        cur.append((e0, G0))

    with cvxs.standin(h, on_solve), quiet():
        st.construct_problem()
        for c in range(steps):
            st.iterate()
    with quiet():
        A, b = st.build()
    I = np.linalg.inv(h.array(precision(*cur[-1])))
    for i in range(n):
        for j in range(i + 1):
            h.eq(f"model {i}{j}", (h.sum(A[i][k] * A[j][k] for k in range(rank)) + (b[i] if i == j else 0)) / (u[i] * u[j]), I[i, j])


def descent(h):
    """the gradient variant takes the stated number of gradient steps"""
    n, rank, steps = h.p["n"], h.p["rank"], h.p["steps"]
    m = h.mod(CC)
    if not all(hasattr(m, q) for q in ("_common_factor", "_grad_G", "_grad_e", "_solve_proximal_gradient")):
        return
    x = h.real("x", sgn="+")  # the numbers are fixed but one
    h.assume(x < 2)
    h.assume(x > 1)
    S0, F0, d0 = shapes(h, n, rank, "descent")
    e = [30 * v + (x if i == 0 else 0) for i, v in enumerate(d0)]
    G = [[F0[i][k] / 4 + (x / 8 if i == n - 1 else 0) for k in range(rank)] for i in range(n)]
    S = [[v / 16 for v in row] for row in S0]
    Gk = [[v / 3 for v in row] for row in F0]
    a, b = h.array(e), h.array(G)
    for _ in range(steps):
        P = h.array([[(a[i] if i == j else 0) - h.sum(b[i, k] * b[j, k] for k in range(rank)) for j in range(n)] for i in range(n)])
        I = np.linalg.inv(P)
        gG = [[2 * h.sum(I[i, j] * b[j, k] for j in range(n)) - 2 * h.sum(S[i][j] * Gk[j][k] for j in range(n)) for k in range(rank)] for i in range(n)]
        ge = [S[i][i] - I[i, i] for i in range(n)]
        a = h.array([a[i] - ge[i] for i in range(n)])
        b = h.array([[b[i, k] - gG[i][k] for k in range(rank)] for i in range(n)])
    with quiet():
        out = m._solve_proximal_gradient(h.array(e), h.array(G), h.array(Gk), h.array(S), maxiters=steps)
    h.eq("e", np.asarray(out[0]), a)
    h.eq("G", np.asarray(out[1]), b)


CASES = [
    dict(name="roundtrip_1", fn=roundtrip, params=dict(n=1, rank=1)),
    dict(name="roundtrip_2", fn=roundtrip, params=dict(n=2, rank=1)),
    dict(name="surrogate_1", fn=surrogate, params=dict(n=1, rank=1, steps=2)),
    dict(name="surrogate_2", fn=surrogate, params=dict(n=2, rank=1, steps=2)),
    dict(name="gradients_1", fn=gradients, params=dict(n=1, rank=1)),
    dict(name="gradients_2", fn=gradients, params=dict(n=2, rank=1)),
    dict(name="gradients_2_2", fn=gradients, params=dict(n=2, rank=2)),
    dict(name="larger", fn=larger, params=dict(n=4, rank=2), also=[dict(n=5, rank=1), dict(n=3, rank=3)]),
    dict(name="descent", fn=descent, params=dict(n=1, rank=1, steps=2), also=[dict(n=1, rank=1, steps=3), dict(n=2, rank=1, steps=2), dict(n=1, rank=1, steps=0)]),
]
