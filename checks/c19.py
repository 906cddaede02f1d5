"""The EM low-rank approximation follows the EM iteration of the factor model:
exact models are fixed points, one iteration is the EM update, units and asset
order carry through, dates are separate."""
from .reg import *

import builtins

BOUNDS = "one iteration: n=1..3 assets, 1..2 factors, everything symbolic; fixed point and equivariance: all five iterations at 2 assets (3 assets: one); all five iterations at 4-6 (thorough 8) assets and 1-3 factors, two dates, with fixed shapes and symbolic units"


class Model:
    def __init__(self, h, n, k, tag=""):
        self.n, self.k = n, k
        self.F = [[h.real(f"{tag}F{i}{j}", sgn="+" if i == j and i == 0 else None) for j in range(k)] for i in range(n)]
        self.d = [h.real(f"{tag}d{i}", sgn="+") for i in range(n)]

    def low(self, h, labels):
        m = h.mod(RG)
        return m.LowRankDiag(F=h.frame(self.F, labels), d=h.series(self.d, labels))

    def cov(self, h):
        n, k, F = self.n, self.k, self.F
        return [[h.sum(F[i][q] * F[j][q] for q in range(k)) + (self.d[i] if i == j else 0) for j in range(n)] for i in range(n)]


def spd_input(h, n, tag="s"):
    C = [[h.real(f"{tag}{i}{j}", sgn="+" if i == j else None) if j <= i else 0 for j in range(n)] for i in range(n)]
    return [[h.sum(C[i][k] * C[j][k] for k in range(n)) for j in range(n)] for i in range(n)]


class once:
    """run the EM loop body once instead of five times (the claim about one
    iteration is from an arbitrary state, so it carries over to any number)"""

    def __init__(self, h, m):
        self.h, self.m, self.hit = h, m, False

    def range(self, *a):
        if a == (5,):
            self.hit = True
            return builtins.range(1)
        return builtins.range(*a)

    def __enter__(self):
        self.m.range = self.range

    def __exit__(self, exc, *a):
        del self.m.range
        if exc is None:  # another kind of loop: not decided
            self.h.assume(self.hit)


def em(h, S, init, labels):
    m = h.mod(RG)
    out = list(m.em_regularize_covariance({"t": h.frame(S, labels, labels)}, {"t": init}))
    h.same("dates", [t for t, _ in out], ["t"])
    o = out[0][1]
    h.same("labels", [list(o.F.index), list(o.d.index)], [list(labels)] * 2)
    return o.F.to_numpy(), o.d.to_numpy()


def inverse(h, M):
    n = len(M)
    if n == 1:
        return [[1 / M[0][0]]]
    if n == 2:
        D = M[0][0] * M[1][1] - M[0][1] * M[1][0]
        return [[M[1][1] / D, -M[0][1] / D], [-M[1][0] / D, M[0][0] / D]]
    c = lambda i, j: M[(i + 1) % 3][(j + 1) % 3] * M[(i + 2) % 3][(j + 2) % 3] - M[(i + 1) % 3][(j + 2) % 3] * M[(i + 2) % 3][(j + 1) % 3]
    D = h.sum(M[0][j] * c(0, j) for j in range(3))
    return [[c(j, i) / D for j in range(3)] for i in range(3)]


def update(h, S, X):
    """EM update of the model x = F s + e: posterior of s given x, then
    regression of x on s.  -> F, d, Css, Cxs"""
    n, k = X.n, X.k
    Ft = [[X.F[i][j] for i in range(n)] for j in range(k)]
    L = h.matmul(Ft, inverse(h, X.cov(h)))  # E[s|x] = L x
    LF = h.matmul(L, X.F)
    LS = h.matmul(L, S)
    Lt = [[L[j][i] for j in range(k)] for i in range(n)]
    LSL = h.matmul(LS, Lt)
    Css = [[(1 if a == b else 0) - LF[a][b] + LSL[a][b] for b in range(k)] for a in range(k)]
    Cxs = [[LS[j][i] for j in range(k)] for i in range(n)]
    F = h.matmul(Cxs, inverse(h, Css))
    d = [S[i][i] - h.sum(F[i][j] * Cxs[i][j] for j in range(k)) for i in range(n)]
    return F, d, Css, Cxs


def one_step(h):
    n, k = h.p["n"], h.p["k"]
    X = Model(h, n, k)
    S = spd_input(h, n)
    m = h.mod(RG)
    with once(h, m):
        F, d = em(h, S, X.low(h, names(n)), names(n))
    F2, d2, _, _ = update(h, S, X)
    h.eq("factors", F, h.array(F2))
    h.eq("diagonal", d, h.array(d2))


def fixed_point(h):
    n, k = h.p["n"], h.p["k"]
    X = Model(h, n, k)
    F, d = em(h, X.cov(h), X.low(h, names(n)), names(n))
    h.eq("factors", F, h.array(X.F))
    h.eq("diagonal", d, h.array(X.d))


BASE = [[4, 1, Fraction(1, 2)], [1, 3, Fraction(-1, 2)], [Fraction(1, 2), Fraction(-1, 2), 2]]
F0 = [[1, Fraction(1, 4)], [Fraction(1, 2), Fraction(-1, 2)], [Fraction(-1, 4), 1]]
D0 = [1, 2, Fraction(3, 2)]


def units(h):
    """all five iterations: rescaling assets rescales loadings and diagonal;
    reordering assets reorders them"""
    n, k = h.p["n"], h.p["k"]
    c = [h.real(f"c{i}", sgn="+") for i in range(n)]
    m = h.mod(RG)

    def go(c, order):
        lab = [names(n)[i] for i in order]
        S = [[c[i] * c[j] * BASE[i][j] for j in order] for i in order]
        init = m.LowRankDiag(F=h.frame([[c[i] * F0[i][j] for j in range(k)] for i in order], lab), d=h.series([c[i] ** 2 * D0[i] for i in order], lab))
        if h.p.get("once"):
            with once(h, m):
                return em(h, S, init, lab)
        return em(h, S, init, lab)

    one = h.real("one", lo=1, hi=1)  # keeps the numbers exact
    F, d = go([one] * n, range(n))
    order = h.choice("order", [list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0]])
    G, e = go(c, order)
    for p, i in enumerate(order):
        for j in range(k):
            h.eq(f"factor {i}{j}", G[p, j], c[i] * F[i, j])
        h.eq(f"diagonal {i}", e[p], c[i] ** 2 * d[i])


def dates(h):
    """each date uses its own covariance and start; inputs unchanged"""
    m = h.mod(RG)
    X, Y = Model(h, h.choice("assets", [1, 2]), 1, "x"), Model(h, 2, 1, "y")
    u = names(X.n)
    S = {"p": h.frame(X.cov(h), u, u), "q": h.frame(Y.cov(h), names(2), names(2))}
    init = {"q": Y.low(h, names(2)), "p": X.low(h, u)}
    keys = ["p", "q"] if h.bool("order") else ["q", "p"]
    if h.p.get("once"):
        with once(h, m):
            out = list(m.em_regularize_covariance({k: S[k] for k in keys}, init))
    else:
        out = list(m.em_regularize_covariance({k: S[k] for k in keys}, init))
    h.same("dates", [t for t, _ in out], keys)
    for t, o in out:
        Z, l = (X, u) if t == "p" else (Y, names(2))
        h.eq("factors", o.F, h.frame(Z.F, l))
        h.eq("diagonal", o.d, h.series(Z.d, l))
        h.eq("start unchanged", init[t].F, h.frame(Z.F, l))
        h.eq("start unchanged", init[t].d, h.series(Z.d, l))
        h.eq("input unchanged", S[t], h.frame(Z.cov(h), l, l))


class Exact:
    """the EM iteration on fixed numbers, in rational arithmetic"""

    @staticmethod
    def cut(x):
        return Fraction(round(x * 2**200), 2**200)

    @classmethod
    def mul(cls, A, B):
        return [[cls.cut(sum(a * b for a, b in zip(row, col))) for col in zip(*B)] for row in A]

    @classmethod
    def inv(cls, A):
        n = len(A)
        M = [list(map(Fraction, row)) + [Fraction(int(i == j)) for j in range(n)] for i, row in enumerate(A)]
        for i in range(n):
            p = max(range(i, n), key=lambda q: builtins.abs(M[q][i]))
            M[i], M[p] = M[p], M[i]
            M[i] = [cls.cut(x / M[i][i]) for x in M[i]]
            for q in range(n):
                if q != i:
                    M[q] = [cls.cut(x - M[q][i] * y) for x, y in zip(M[q], M[i])]
        return [row[n:] for row in M]

    @classmethod
    def step(cls, S, F, d):
        n, k = len(F), len(F[0])
        Ft = [list(c) for c in zip(*F)]
        C = cls.mul(F, Ft)
        for i in range(n):
            C[i][i] += d[i]
        L = cls.mul(Ft, cls.inv(C))
        Lt = [list(c) for c in zip(*L)]
        Cxs = cls.mul(S, Lt)
        A, B = cls.mul(L, F), cls.mul(L, Cxs)
        Css = [[int(a == b) - A[a][b] + B[a][b] for b in range(k)] for a in range(k)]
        G = cls.mul(Cxs, cls.inv(Css))
        return G, [cls.cut(S[i][i] - sum(G[i][j] * Cxs[i][j] for j in range(k))) for i in range(n)]


def fixed_shape(n, k, tag):
    import random

    g = random.Random(f"{tag}{n}{k}")
    q = lambda: Fraction(g.randint(-100, 100), 100)
    C = [[q() if j < i else 1 + abs(q()) if i == j else 0 for j in range(n)] for i in range(n)]
    S = [[sum(C[i][a] * C[j][a] for a in range(n)) for j in range(n)] for i in range(n)]
    return S, [[q() for _ in range(k)] for _ in range(n)], [1 + abs(q()) for _ in range(n)]


def larger(h):
    """all five iterations on larger universes, several dates: fixed shapes in
    arbitrary units"""
    n, k = h.p["n"], h.p["k"]
    c = [h.real(f"c{i}", sgn="+") for i in range(n)]
    m = h.mod(RG)
    u = h.choice("labels", [names(n), list(range(n))[::-1]])
    x = (lambda q: q) if h.symbolic else float
    S, init, ref = {}, {}, {}
    for t in h.p["dates"]:
        A, F, d = fixed_shape(n, k, t)
        S[t] = h.frame([[c[i] * c[j] * x(A[i][j]) for j in range(n)] for i in range(n)], u, u)
        init[t] = m.LowRankDiag(F=h.frame([[c[i] * x(F[i][j]) for j in range(k)] for i in range(n)], u), d=h.series([c[i] ** 2 * x(d[i]) for i in range(n)], u))
        for _ in range(5):
            F, d = Exact.step(A, F, d)
        ref[t] = F, d
    out = list(m.em_regularize_covariance(S, {t: init[t] for t in h.p["dates"][::-1]}))
    h.same("dates", [t for t, _ in out], list(h.p["dates"]))
    for t, o in out:
        h.same("labels", [list(o.F.index), list(o.d.index)], [list(u)] * 2)
        F, d = o.F.to_numpy(), o.d.to_numpy()
        h.same("rank", F.shape, (n, k))
        for i in range(n):
            for j in range(k):
                h.eq(f"{t} factor {i}{j}", F[i, j] / c[i], x(ref[t][0][i][j]))
            h.eq(f"{t} diagonal {i}", d[i] / c[i] ** 2, x(ref[t][1][i]))
            h.true(f"{t} positive {i}", d[i] > 0)


CASES = [
    dict(name="one_11", fn=one_step, params=dict(n=1, k=1)),
    dict(name="one_21", fn=one_step, params=dict(n=2, k=1)),
    dict(name="fixed_11", fn=fixed_point, params=dict(n=1, k=1)),
    dict(name="fixed_21", fn=fixed_point, params=dict(n=2, k=1)),
    dict(name="fixed_22", fn=fixed_point, params=dict(n=2, k=2)),
    dict(name="fixed_31", fn=fixed_point, params=dict(n=3, k=1)),
    dict(name="units_21", fn=units, params=dict(n=2, k=1)),
    dict(name="units_31", fn=units, params=dict(n=3, k=1, once=True)),
    dict(name="units_32", fn=units, params=dict(n=3, k=2, once=True)),
    dict(name="units_22", fn=units, params=dict(n=2, k=2)),
    dict(name="dates", fn=dates, params=dict()),
    dict(name="dates_once", fn=dates, params=dict(once=True)),
    dict(name="one_31", fn=one_step, params=dict(n=3, k=1), thorough_only=True),
    dict(name="one_22", fn=one_step, params=dict(n=2, k=2), thorough_only=True),
    dict(name="larger", fn=larger, params=dict(n=4, k=2, dates=["p", "q"]), also=[dict(n=6, k=3), dict(n=5, k=1)], thorough=dict(n=8, k=3)),
]
