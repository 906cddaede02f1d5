"""Trading checks: covariances with known Cholesky factor of the inverse,
in-process worker pool, convex-solver stand-in."""
import contextlib
import multiprocessing
import random
from fractions import Fraction

from symex import cvxs
from .lib import *

TM = "experiments.utils.trading_model"
PB = "experiments.utils.portfolio_backtests"


class Cov:
    """arbitrary positive definite matrix (L L')^-1"""

    def __init__(self, h, tag, n):
        self.h, self.n = h, n
        if h.p.get("diag"):  # uncorrelated assets given by their volatilities
            s = [h.real(f"{tag}{i}", sgn="+") for i in range(n)]
            self.L = [[1 / s[i] if i == j else 0 for j in range(n)] for i in range(n)]
        else:
            self.L = [[h.real(f"{tag}{i}{j}", sgn="+" if i == j else None) if j <= i else 0 for j in range(n)] for i in range(n)]
        self.invert()

    def invert(self):
        h, n = self.h, self.n
        self.M = M = [[0] * n for _ in range(n)]
        L = self.L
        for j in range(n):
            M[j][j] = 1 / L[j][j]
            for i in range(j + 1, n):
                M[i][j] = -h.sum(L[i][q] * M[q][j] for q in range(j, i)) / L[i][i]

    @classmethod
    def fixed(cls, h, tag, n, units):
        """fixed shape, asset i in arbitrary units"""
        X = cls.__new__(cls)
        X.h, X.n = h, n
        g = random.Random(f"{tag}{n}")
        q = lambda: Fraction(g.randint(-60, 60), 100) if h.symbolic else g.randint(-60, 60) / 100
        X.L = [[(1 + abs(q()) if i == j else q()) / units[i] if j <= i else 0 for j in range(n)] for i in range(n)]
        X.invert()
        return X

    def m(self):
        M, n = self.M, self.n
        return [[self.h.sum(M[q][i] * M[q][j] for q in range(max(i, j), n)) for j in range(n)] for i in range(n)]

    def var(self, w):
        """w' Sigma w as a sum of squares"""
        M, n = self.M, self.n
        return self.h.sum(self.h.sum(M[q][i] * w[i] for i in range(q + 1)) ** 2 for q in range(n))

    def sd(self, i):
        return self.h.sqrt(self.h.sum(self.M[q][i] ** 2 for q in range(i, self.n)))


class Pool:
    """multiprocessing.Pool run in this process (one task after the other)"""

    def __init__(self, *a, **k):
        pass

    def starmap(self, fn, tasks, *a, **k):
        return [fn(*t) for t in tasks]

    def map(self, fn, tasks, *a, **k):
        return [fn(t) for t in tasks]

    imap = map

    def apply(self, fn, args=(), kwds={}):
        return fn(*args, **kwds)

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


@contextlib.contextmanager
def solver(h, on_solve):
    orig = multiprocessing.Pool
    multiprocessing.Pool = Pool
    try:
        with cvxs.standin(h, on_solve) as calls:
            yield calls
    finally:
        multiprocessing.Pool = orig


def trader(h, T, n, **k):
    """trader on symbolic returns and covariances; -> trader, returns, Covs"""
    m = h.mod(TM)
    u, d = names(n), days(T)
    r = h.reals("r", (T, n))
    S = [Cov(h, f"s{t}_", n) for t in range(T)]
    tr = m.Trader(h.frame(r, d, u), {d[t]: h.frame(S[t].m(), u, u) for t in range(T)}, **k)
    return tr, r, S


def zero(h, x):
    if h.symbolic:
        from symex import alg

        x = alg.lift(x)
        return isinstance(x, alg.Sym) and not x.num
    return abs(x) <= 1e-9


def equiv(h, label, A, B):
    h.true(label + " (spec => problem)", h.Or(h.Not(B), A))
    h.true(label + " (problem => spec)", h.Or(h.Not(A), B))
