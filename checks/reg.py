"""Covariances with symbolic volatilities and correlations, shared by the
regularisation checks."""
import random
from fractions import Fraction

from .lib import *

RG = "cvx.covariance.regularization"


class Cov:
    """an arbitrary positive definite covariance: volatilities v > 0 and a
    positive definite correlation matrix (smallest eigenvalue > 0)"""

    def __init__(self, h, n, tag="", pd=True):
        self.h, self.n = h, n
        self.v = [h.real(f"{tag}v{i}", sgn="+") for i in range(n)]
        self.C = [[1] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                c = h.real(f"{tag}c{i}{j}", lo=-1, hi=1, sample=Fraction((7 * i + 3 * j + ord(tag[-1:] or "a")) % 9 - 4, 12))
                self.C[i][j] = self.C[j][i] = c
        if pd:
            self.lam, self.Q = h.eigh(self.C)
            for x in self.lam:
                h.assume(x > 0)

    @classmethod
    def fixed(cls, h, n, tag=""):
        """a fixed correlation matrix (one common factor plus noise), arbitrary
        volatilities"""
        X = cls.__new__(cls)
        X.h, X.n = h, n
        X.v = [h.real(f"{tag}v{i}", sgn="+") for i in range(n)]
        g = random.Random(f"{tag}{n}")
        b = [Fraction(g.randint(20, 90) * g.choice([-1, 1]), 100) for _ in range(n)]
        X.C = [[1] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                c = b[i] * b[j] + Fraction(g.randint(-9, 9), 100)
                X.C[i][j] = X.C[j][i] = c if h.symbolic else float(c)
        X.lam, X.Q = h.eigh(X.C)
        return X

    def sigma(self, labels=None):
        v, C, n = self.v, self.C, self.n
        labels = labels or names(n)
        return self.h.frame([[v[i] * C[i][j] * v[j] for j in range(n)] for i in range(n)], labels, labels)

    def top(self, r):
        """sum of the r leading eigen-components of the correlation matrix"""
        n = self.n
        return [[self.h.sum(self.lam[k] * self.Q[i][k] * self.Q[j][k] for k in range(n - r, n)) for j in range(n)] for i in range(n)]

    def rest(self, r):
        n = self.n
        return [[self.h.sum(self.lam[k] * self.Q[i][k] * self.Q[j][k] for k in range(n - r)) for j in range(n)] for i in range(n)]
