"""Harness interface: the same harness runs symbolically (solver decides) and
concretely (replay of a counterexample on the real float code)."""
from __future__ import annotations

import contextlib
import importlib
import math
import os
import random
import sys
from fractions import Fraction

import numpy as np
import pandas as pd

REPO = os.environ.get("VERIF_REPO", "/repo")
RTOL = 1e-8
ATOL = 1e-10


_nocache = False


def setup_path():
    global _nocache
    sys.dont_write_bytecode = True
    if not _nocache:
        # always compile /repo's sources (never trust a cached .pyc there)
        _nocache = True
        import importlib._bootstrap_external as be

        orig = be.cache_from_source

        def cache_from_source(path, *a, **k):
            if os.fspath(path).startswith(REPO + os.sep):
                raise NotImplementedError
            return orig(path, *a, **k)

        be.cache_from_source = cache_from_source
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if "cvx.linalg" not in sys.modules:
        # factor_model.py needs the (absent) package cvx.linalg for pca; only
        # the functions that do not use it are exercised
        import types

        import cvx  # namespace package in /repo

        m = types.ModuleType("cvx.linalg")

        def pca(*a, **k):
            raise NotImplementedError("cvx.linalg is not installed")

        m.pca = pca
        sys.modules["cvx.linalg"] = m


class Violation(Exception):
    def __init__(self, label, detail):
        super().__init__(f"{label}: {detail}")
        self.label = label
        self.detail = detail


class AssumeFailed(Exception):
    pass


class SolverFailure(Exception):
    pass


class Base:
    """shared conveniences"""

    symbolic = None
    tracing = True

    def __init__(self, params):
        self.p = params
        self.trace = []
        self.nchecks = 0

    def mod(self, name):
        setup_path()
        fresh = name not in sys.modules
        m = importlib.import_module(name)
        if fresh and self.symbolic:
            from . import shim

            for k, v in list(sys.modules.items()):
                if k.startswith(shim.REPO_PREFIXES) and hasattr(v, "__dict__"):
                    shim.after_import(v)
        return m

    # inputs
    def reals(self, name, shape, **k):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=object if self.symbolic else float)
        for ix in np.ndindex(*shape):
            a[ix] = self.real(name + "".join(f"_{i}" for i in ix), **k)
        return a

    def shaped(self, name, T, n, free=(), units=True, lo=-1.0, hi=1.0):
        """T x n numbers of fixed shape in arbitrary units per column: the
        fixed pseudo-random number of each cell times the column's symbolic
        unit; the cells in free are arbitrary"""
        rng = random.Random(name)
        free = {(t % T, i) for t, i in free}
        unit = units if isinstance(units, list) else [self.real(f"{name}_unit{i}", sgn="+") if units else 1 for i in range(n)]
        a = np.empty((T, n), dtype=object if self.symbolic else float)
        for t in range(T):
            for i in range(n):
                x = lo + (hi - lo) * rng.random()
                x = Fraction(round(x * 10**6) or 1, 10**6)
                if (t, i) in free:
                    a[t, i] = self.real(f"{name}_{t}_{i}")
                else:
                    a[t, i] = unit[i] * (x if self.symbolic else float(x))
        return a

    def array(self, x):
        """nested list of scalars -> array usable by the code under test"""
        a = np.empty(np.shape(np.asarray(x, dtype=object)), dtype=object)
        a[...] = np.asarray(x, dtype=object)
        if self.symbolic:
            from . import shim

            return shim.obj(a)
        return a.astype(float)

    def frame(self, a, index=None, columns=None):
        return pd.DataFrame(self.array(a), index=index, columns=columns)

    def series(self, a, index=None):
        return pd.Series(self.array(a), index=index)

    def spd(self, name, n, kind="chol"):
        """arbitrary symmetric positive definite matrix (every SPD matrix is
        C C' for a lower triangular C with positive diagonal)"""
        C = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                C[i][j] = self.real(f"{name}_{i}{j}", sgn="+" if i == j else None)
        M = [[sum(C[i][k] * C[j][k] for k in range(min(i, j) + 1)) for j in range(n)] for i in range(n)]
        return self.array(M)

    def shown(self, label, text, value):
        """the printed number is the value, rounded as printed"""
        text = text.strip()
        if self.symbolic:
            from . import alg

            if text.startswith("<sym "):
                return self.eq(label, alg.FORMATTED[int(text[5:-1])], value)
        d = len(text.split(".")[1]) if "." in text else 0
        self.true(label, abs(float(text) - value) <= 0.51 * 10.0**-d)

    def sum(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def matmul(self, A, B):
        return [[self.sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]

    @staticmethod
    def isnan(x):
        return isinstance(x, (float, np.floating)) and x != x

    def elements(self, label, a, b, same_labels=True):
        """pairs of scalars; structural differences are reported at once"""
        if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
            if not (isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame)):
                self.fail(label, f"types {type(a).__name__} / {type(b).__name__}")
            if same_labels and (list(a.index) != list(b.index) or list(a.columns) != list(b.columns)):
                self.fail(label, f"labels {list(a.index)}x{list(a.columns)} / {list(b.index)}x{list(b.columns)}")
            a, b = a.to_numpy(), b.to_numpy()
        elif isinstance(a, pd.Series) or isinstance(b, pd.Series):
            if not (isinstance(a, pd.Series) and isinstance(b, pd.Series)):
                self.fail(label, f"types {type(a).__name__} / {type(b).__name__}")
            if same_labels and list(a.index) != list(b.index):
                self.fail(label, f"labels {list(a.index)} / {list(b.index)}")
            a, b = a.to_numpy(), b.to_numpy()
        a = np.asarray(a, dtype=object)
        b = np.asarray(b, dtype=object)
        if a.size == b.size == 1 and not (a.ndim and b.ndim):
            a, b = a.reshape(()), b.reshape(())
        if a.shape != b.shape:
            self.fail(label, f"shapes {a.shape} / {b.shape}")
        for ix in np.ndindex(a.shape):
            x, y = a[ix], b[ix]
            # a 1x1 array stored into a float array becomes its element
            if isinstance(x, np.ndarray) and x.size == 1:
                x = x.ravel()[0]
            if isinstance(y, np.ndarray) and y.size == 1:
                y = y.ravel()[0]
            yield ix, x, y

    def eq(self, label, a, b, trace=True):
        """trace=False: a value the contract leaves open (e.g. up to sign), not
        compared between symbolic run and real run"""
        self.tracing = trace
        for ix, x, y in self.elements(label, a, b):
            self._eq(f"{label}{list(ix) if ix else ''}", x, y)
        self.tracing = True

    def same(self, label, a, b):
        """plain (concrete) equality, e.g. of labels"""
        self.nchecks += 1
        if a != b:
            self.fail(label, f"{a!r} / {b!r}")

    def le(self, label, a, b):
        self.true(label, a <= b)

    def ge0(self, label, a):
        self.true(label, a >= 0)

    @contextlib.contextmanager
    def regular(self):
        """precondition on the inputs: within this block no matrix inverse or
        Cholesky factorisation fails"""
        if self.symbolic:
            from . import shim

            shim.REGULAR[0] = True
            try:
                yield
            finally:
                shim.REGULAR[0] = False
        else:
            try:
                yield
            except np.linalg.LinAlgError:
                raise AssumeFailed("singular matrix") from None

    def raises(self, label, fn, exc=Exception):
        try:
            fn()
        except exc:
            self.nchecks += 1
            return
        self.fail(label, "no exception")


class Concrete(Base):
    symbolic = False

    def __init__(self, params, inputs, rtol=RTOL, atol=ATOL):
        super().__init__(params)
        self.inputs = inputs
        self.rtol, self.atol = rtol, atol
        self.worst = 0.0
        self.soft = None  # small-unit replay: differing pairs are collected

    def get(self, name, default):
        """inputs beyond the point where a symbolic path stopped get a default"""
        v = self.inputs.get(name)
        return float(default if v is None else v)

    def real(self, name, sgn=None, lo=None, hi=None, nz=False, sample=None):
        d = 0.7 + 0.01 * (sum(map(ord, name)) % 83)
        if sgn in ("-", "0-"):
            d = -d
        if lo is not None or hi is not None:
            d = float(lo) + 0.37 * float(hi - lo) if lo is not None and hi is not None else float(lo) + d if lo is not None else float(hi) - d
        v = self.get(name, d)
        if sgn == "+" and not v > 0:
            raise AssumeFailed(name)
        if nz and v == 0:
            raise AssumeFailed(name)
        return v

    def halflife(self, name):
        return self.get(name, 2.5)

    def beta(self, h):
        return math.exp(-math.log(2) / h)

    def int(self, name, lo, hi):
        return int(round(self.get(name, lo)))

    lazyint = int

    def bool(self, name):
        return bool(round(self.get(name, 0)))

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed("assumption")

    def fresh(self, name, shape=(), given=None, sgn=None):
        raise NotImplementedError

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else math.nan

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def abs(self, x):
        return abs(x)

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)

    def ite(self, c, a, b):
        return a if c else b

    def eigh(self, M):
        """ascending eigenvalues, orthonormal eigenvectors"""
        return np.linalg.eigh(np.asarray(M, dtype=float))

    def And(self, *c):
        return all(bool(x) for x in c)

    def Or(self, *c):
        return any(bool(x) for x in c)

    def Not(self, c):
        return not c

    def fail(self, label, detail):
        raise Violation(label, detail)

    def _num(self, x):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.ravel()[0]
        return float(x)

    def _eq(self, label, x, y):
        self.nchecks += 1
        try:
            x, y = self._num(x), self._num(y)
        except (TypeError, ValueError):
            if x is None and y is None:
                return
            self.fail(label, f"{x!r} / {y!r}")
        if self.tracing and len(self.trace) < 4000:
            self.trace.append(x)
        if x != x and y != y:
            return
        if self.soft is not None:
            if x == x and y == y and abs(x - y) > 1e-4 * max(abs(x), abs(y)):
                self.soft.append((self.nchecks, label, x, y))
            return
        if x != x or y != y:
            self.fail(label, f"{x!r} / {y!r}")
        if x == y:
            return
        d = abs(x - y) / (self.atol / self.rtol + max(abs(x), abs(y)))
        self.worst = max(self.worst, d)
        if not d <= self.rtol:
            self.fail(label, f"{x!r} / {y!r}")

    def true(self, label, c, slack=None):
        self.nchecks += 1
        if self.soft is not None:
            return
        if slack is not None:
            # numeric slack of an inequality: >= -tolerance
            if not slack >= -self.atol * 100:
                self.fail(label, f"slack {slack!r}")
            return
        if not bool(c):
            self.fail(label, "condition is false")

    def le(self, label, a, b):
        self.nchecks += 1
        if self.soft is not None:
            return
        a, b = self._num(a), self._num(b)
        if not a <= b + self.rtol * (abs(a) + abs(b)) + self.atol:
            self.fail(label, f"{a!r} > {b!r}")

    def ge0(self, label, a):
        self.le(label, 0.0, a)

    def lt(self, label, a, b):
        self.le(label, a, b)


class Symbolic(Base):
    symbolic = True

    def __init__(self, path, params, runner):
        super().__init__(params)
        self.path = path
        self.r = runner
        self.asserted = 0

    # ---- inputs
    def real(self, name, sgn=None, lo=None, hi=None, nz=False, sample=None):
        return self.path.var(name, sgn=sgn, lo=lo, hi=hi, nz=nz, sample=sample)

    def halflife(self, name):
        from . import alg

        h = self.path.var(name, sgn="+", sample=Fraction(self.path.rng.randint(80, 400), 100))
        b = alg.sexp(-math.log(2) / h)
        (m, _), = b.num.items()
        (mh, _), = h.num.items()
        self.path.hl[name] = (mh[0][0], m[0][0])
        return h

    def beta(self, h):
        from . import alg

        if isinstance(h, alg.Sym):
            return alg.sexp(-math.log(2) / h)
        x = -math.log(2) / h
        e = alg.halfpow(x)
        return alg.lift(math.exp(x)) if e is None else e

    def lazyint(self, name, lo, hi):
        return self.path.var(name, dom=list(range(lo, hi + 1)))

    def int(self, name, lo, hi):
        if lo == hi:
            self.path.var(name, dom=[lo])
            return lo
        return int(self.lazyint(name, lo, hi))

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def assume(self, c):
        self.path.assume(c)

    # ---- functions
    def sqrt(self, x):
        from . import alg

        return alg.sqrt(x)

    def exp(self, x):
        from . import alg

        return alg.sexp(x)

    def log(self, x):
        from . import alg

        return alg.slog(x)

    def abs(self, x):
        from . import alg

        return alg.sabs(x)

    def min(self, a, b):
        return self.path.minmax("min", a, b)

    def max(self, a, b):
        return self.path.minmax("max", a, b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def eigh(self, M):
        from . import shim

        return shim.eigen(shim.obj(np.asarray(M, dtype=object)))

    def And(self, *c):
        from . import alg

        return alg.sand(*c)

    def Or(self, *c):
        from . import alg

        return alg.sor(*c)

    def Not(self, c):
        from . import alg

        return alg.snot(c)

    # ---- assertions
    def fail(self, label, detail):
        self.r.structural(self, label, detail)

    def _eq(self, label, x, y):
        self.nchecks += 1
        self.r.prove_eq(self, label, x, y)

    def true(self, label, c, slack=None):
        self.nchecks += 1
        self.r.prove(self, label, c)

    def lt(self, label, a, b):
        self.true(label, a < b)
