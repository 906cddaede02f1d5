"""Makes the real numpy / pandas / scipy / cvxpy calls of the code under test
work on symbolic scalars held in object arrays.

Every wrapper passes straight through to the original when no symbolic value
is involved.  numpy's own object-dtype loops do the elementwise arithmetic,
matrix products, reductions, indexing and broadcasting; what is modelled here
is only what numpy implements in compiled float-only code (factorisations,
transcendental functions, clip) or what would lose symbolic values (float
buffers).  Installed only in symbolic runs; replays never load it.
"""
from __future__ import annotations

import ast
import importlib.machinery
import importlib.util
import math
import sys
from fractions import Fraction

import numpy as np
import pandas as pd

from . import alg
from .alg import Sym, SymBool, Unsupported, ZERO, ONE, lift

nan = float("nan")
REPO_PREFIXES = ("cvx.covariance", "experiments", "repo_mutant")
ORIG = {}


# ------------------------------------------------------------------ helpers
def is_sym_array(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def has_sym(x, depth=3):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, (Sym, SymBool)) for v in x.ravel())
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return has_sym(x.to_numpy())
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(v, depth - 1) for v in x)
    return False


def objlike(x):
    """does x carry (possibly) symbolic data?"""
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, pd.Series):
        return x.dtype == object
    if isinstance(x, pd.DataFrame):
        return any(d == object for d in x.dtypes)
    if isinstance(x, (list, tuple)):
        return any(objlike(v) for v in x)
    return False


def tosym(v):
    """element -> Sym or float nan/inf"""
    r = lift(v)
    if r is NotImplemented:
        if isinstance(v, (np.ndarray,)) and v.size == 1:
            return tosym(v.ravel()[0])
        raise Unsupported(f"cannot lift {type(v).__name__}")
    return r


def obj(x):
    """object ndarray with Sym entries (nan stays float)"""
    if isinstance(x, (pd.Series, pd.DataFrame)):
        x = x.to_numpy()
    a = np.asarray(x) if not isinstance(x, (list, tuple)) else ORIG["array"](x, dtype=object)
    if isinstance(x, (Sym, SymBool)):
        a = np.empty((), dtype=object)
        a[()] = x
    out = np.empty(a.shape, dtype=object)
    of, af = out.ravel(), a.ravel()
    for i in range(af.size):
        of[i] = tosym(af[i])
    return of.reshape(a.shape)


def isnan1(v):
    return isinstance(v, float) and v != v


def anynan(a):
    return any(isnan1(v) for v in np.ravel(a))


def unwrap(a):
    """0-d object array -> scalar"""
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a[()]
    return a


def rewrap(like, arr):
    if isinstance(like, pd.DataFrame):
        return pd.DataFrame(arr, index=like.index, columns=like.columns)
    if isinstance(like, pd.Series):
        return pd.Series(arr, index=like.index, name=like.name)
    return unwrap(arr)


def from_repo(depth=2):
    f = sys._getframe(depth)
    n = f.f_globals.get("__name__", "")
    return n.startswith(REPO_PREFIXES)


def ctx():
    return alg.CTX


# ------------------------------------------------------- elementwise wrappers
def _const_sqrt(r):
    """exact root of a simple number"""
    if isinstance(r, Sym):
        c = r.cval()
        if c > 0 and alg._perfect(c) is None and alg._nice(c):
            return alg.sqrt(r)


def _const_exp(r):
    """exact 2^(-p/q)"""
    if isinstance(r, Sym):
        return alg.halfpow(r.cval())


class Elem:
    """callable replacing a ufunc: elementwise on object data, else original"""

    def __init__(self, orig, fn, nin=1, boolean=False, const_exact=False):
        self._orig = orig
        self._fn = fn
        self._nin = nin
        self._boolean = boolean
        self._exact = const_exact
        self.__name__ = orig.__name__
        self.__doc__ = orig.__doc__

    def __getattr__(self, k):
        return getattr(self.__dict__["_orig"], k)

    def __call__(self, *args, **kw):
        ins = args[: self._nin]
        if not any(objlike(x) for x in ins):
            if self._exact and isinstance(ins[0], (int, float, np.integer, np.floating)) and ctx() is not None and from_repo():
                r = self._exact(lift(ins[0]))
                if r is not None:
                    return r
            return self._orig(*args, **kw)
        outarg = kw.pop("out", None)
        if len(args) > self._nin:
            outarg = args[self._nin]
        where = kw.pop("where", True)
        kw.pop("dtype", None)
        kw.pop("casting", None)
        like = next((x for x in ins if isinstance(x, (pd.Series, pd.DataFrame))), None)
        if like is not None and self._nin == 2:
            a, b = ins
            if isinstance(a, (pd.Series, pd.DataFrame)) and isinstance(b, (pd.Series, pd.DataFrame)):
                a, b = a.align(b)
                like = a
            elif isinstance(b, pd.Series) or isinstance(b, pd.DataFrame):
                like = b
            ins = (a, b)
        arrs = [obj(x) for x in ins]
        if self._nin == 2:
            arrs = list(np.broadcast_arrays(*arrs))
        sh = arrs[0].shape
        out = np.empty(sh, dtype=object)
        wh = np.broadcast_to(np.asarray(where), sh) if where is not True else None
        fl = [a.ravel() for a in arrs]
        of = out.reshape(-1)
        base = np.broadcast_to(outarg, sh).ravel() if (wh is not None and isinstance(outarg, np.ndarray)) else None
        for i in range(of.size):
            if wh is not None and not wh.ravel()[i]:
                of[i] = base[i] if base is not None else ZERO
                continue
            of[i] = self._fn(*(f[i] for f in fl))
        out = of.reshape(sh)
        if self._boolean and not any(isinstance(v, SymBool) for v in of):
            out = out.astype(bool)
        if isinstance(outarg, tuple):
            outarg = outarg[0]
        if outarg is not None:
            outarg[...] = out
            return outarg
        return rewrap(like, out)


def _sqrt(v):
    return alg.sqrt(v)


def _min(a, b):
    if isnan1(a) or isnan1(b):
        return nan
    return ctx().minmax("min", a, b)


def _max(a, b):
    if isnan1(a) or isnan1(b):
        return nan
    return ctx().minmax("max", a, b)


def _fmin(a, b):
    return b if isnan1(a) else a if isnan1(b) else ctx().minmax("min", a, b)


def _fmax(a, b):
    return b if isnan1(a) else a if isnan1(b) else ctx().minmax("max", a, b)


def clip1(v, lo, hi):
    if isnan1(v):
        return v
    if hi is not None and not isnan1(hi):
        v = ctx().minmax("min", v, hi)
    if lo is not None and not isnan1(lo):
        v = ctx().minmax("max", v, lo)
    return v


def np_clip1(v, lo, hi):
    # numpy: min(max(v, lo), hi), nan in any operand propagates
    if isnan1(v) or (lo is not None and isnan1(lo)) or (hi is not None and isnan1(hi)):
        return nan
    if lo is not None and hi is not None:
        m = ctx().clipped(v, lo, hi)
        if m is not None:
            return m
    if lo is not None:
        v = ctx().minmax("max", v, lo)
    if hi is not None:
        v = ctx().minmax("min", v, hi)
    return v


def _sign(v):
    if isnan1(v):
        return v
    if bool(alg.compare("gt", v, 0)):
        return ONE
    return ZERO if bool(alg.compare("eq", v, 0)) else lift(-1)


def _isfin(v):
    return not isinstance(v, float)


def _clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.pop("min", a_min)
    a_max = kw.pop("max", a_max)
    if not (objlike(a) or objlike(a_min) or objlike(a_max)):
        return ORIG["clip"](a, a_min, a_max, out=out, **kw)
    if isinstance(a, (pd.Series, pd.DataFrame)):
        r = a.clip(lower=a_min, upper=a_max)
        return r
    A = obj(a)
    L = obj(a_min) if a_min is not None else None
    U = obj(a_max) if a_max is not None else None
    sh = np.broadcast_shapes(A.shape, *(x.shape for x in (L, U) if x is not None))
    A = np.broadcast_to(A, sh).ravel()
    L = np.broadcast_to(L, sh).ravel() if L is not None else None
    U = np.broadcast_to(U, sh).ravel() if U is not None else None
    r = np.empty(A.size, dtype=object)
    for i in range(A.size):
        r[i] = np_clip1(A[i], None if L is None else L[i], None if U is None else U[i])
    r = r.reshape(sh)
    if out is not None:
        out[...] = r
        return out
    return unwrap(r)


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if not objlike(x):
        return ORIG["nan_to_num"](x, copy=copy, nan=nan, posinf=posinf, neginf=neginf)
    fill = lift(nan)
    A = obj(x)
    f = A.reshape(-1)
    for i in range(f.size):
        if isinstance(f[i], float):
            if f[i] == f[i]:
                raise Unsupported("nan_to_num of an infinity")
            f[i] = fill
    r = rewrap(x, f.reshape(A.shape))
    if not copy and isinstance(x, np.ndarray):
        x[...] = r
        return x
    return r


# ---------------------------------------------------------------- allocation
def _alloc(name, fill):
    def w(shape, *a, **k):
        if ctx() is None or not from_repo():
            return ORIG[name](shape, *a, **k)
        dt = k.get("dtype", a[0 if name != "full" else 1] if len(a) > (0 if name != "full" else 1) else float)
        if dt not in (None, float, np.float64, "float", "float64", object):
            return ORIG[name](shape, *a, **k)
        r = ORIG["empty"](shape, dtype=object)
        if name == "full":
            v = k.get("fill_value", a[0] if a else None)
            r[...] = obj(v) if not isinstance(v, Sym) else v
        else:
            r[...] = fill
        return r

    w.__name__ = name
    return w


def _alloc_like(name, fill):
    def w(x, *a, **k):
        if not objlike(x) or k.get("dtype", a[0] if a and name != "full_like" else None) in (bool, int):
            return ORIG[name](x, *a, **k)
        sh = np.shape(x) if not isinstance(x, Sym) else ()
        r = ORIG["empty"](sh, dtype=object)
        r[...] = (k.get("fill_value", a[0] if a else None) if name == "full_like" else fill)
        r = obj(r)
        return r

    w.__name__ = name
    return w


def _eye(name):
    def w(n, *a, **k):
        r = ORIG[name](n, *a, **k)
        if ctx() is not None and from_repo() and r.dtype.kind == "f":
            return obj(r)
        return r

    w.__name__ = name
    return w


FLOATS = (float, np.float64, "float", "float64", "f8", "d")


SHORT = {np.float32: (np.float32, 24), np.float16: (np.float16, 11)}
SHORT.update({str(np.dtype(t)): v for t, v in list(SHORT.items())})
SHORT.update({np.dtype(t).str[1:]: v for t, v in list(SHORT.items()) if isinstance(t, type)})
SHORT["f"] = SHORT["single"] = SHORT[np.float32]
SHORT["half"] = SHORT[np.float16]


def short_type(dtype):
    """single or half precision, else None"""
    if isinstance(dtype, np.dtype):
        dtype = dtype.type
    try:
        return SHORT.get(dtype)
    except TypeError:
        return None


def shorten(a, kind):
    """numbers rounded to fewer digits: equal up to a relative error"""
    t, bits = kind
    eps = Fraction(1, 2**bits)
    A = np.asarray(a, dtype=object)
    out = np.empty(A.size, dtype=object)
    for i, v in enumerate(A.reshape(-1)):
        v = v.ravel()[0] if isinstance(v, np.ndarray) and v.size == 1 else v
        if isinstance(v, Sym) and not v.is_const():
            out[i] = ctx().relative(np.dtype(t).name, v, eps, lambda x: float(t(x)))
        elif isinstance(v, (float, int, Fraction, Sym, np.number)):
            out[i] = lift(float(t(float(v))))
        else:
            out[i] = v
    return out.reshape(A.shape)


def astype(a, *args, **k):
    """a.astype(...) in the repository's code"""
    dtype = args[0] if args else k.get("dtype")
    if isinstance(a, np.ndarray) and a.dtype == object and has_sym(a) and ctx() is not None:
        if short_type(dtype):
            return shorten(a, short_type(dtype))
        if dtype in FLOATS:
            return a.copy()
    return a.astype(*args, **k)


def _array(name):
    def w(x, dtype=None, *a, **k):
        if dtype is not None and short_type(dtype) and objlike(x) and has_sym(x):
            return shorten(ORIG[name](x, object), short_type(dtype))
        if dtype in FLOATS and objlike(x) and has_sym(x):
            dtype = object
        if dtype is None and isinstance(x, (list, tuple)) and ctx() is not None and has_sym(x):
            r = ORIG[name](x, *a, **k)
            if r.dtype == object and r.ndim and any(isinstance(v, np.ndarray) for v in r.ravel()):
                raise Unsupported("ragged array of symbolic values")
            return obj(r) if r.dtype == object else r
        if dtype is None:
            return ORIG[name](x, *a, **k)
        return ORIG[name](x, dtype, *a, **k)

    w.__name__ = name
    return w


# ------------------------------------------------------------ linear algebra
def mat(a):
    A = obj(a)
    if A.ndim < 2:
        raise np.linalg.LinAlgError(f"{A.ndim}-dimensional array given. Array must be at least two-dimensional")
    return A


def square_mat(a):
    A = mat(a)
    if A.shape[-1] != A.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    return A


def det_rec(M):
    n = len(M)
    if n == 0:
        return ONE
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    t = ZERO
    for j in range(n):
        if isinstance(M[0][j], Sym) and not M[0][j].num:
            continue
        sub = [r[:j] + r[j + 1 :] for r in M[1:]]
        c = M[0][j] * det_rec(sub)
        t = t + c if j % 2 == 0 else t - c
    return t


# precondition in force: the matrices handed to inv/cholesky are regular
REGULAR = [False]


def stacked(fn, A, outs=None):
    if A.ndim == 2:
        return fn(A)
    lead = A.shape[:-2]
    flat = A.reshape((-1,) + A.shape[-2:])
    res = [fn(x) for x in flat]
    if isinstance(res[0], np.ndarray):
        return obj(ORIG["stack"](res)).reshape(lead + res[0].shape)
    r = np.empty(len(res), dtype=object)
    r[:] = res
    return r.reshape(lead)


def blocks(A):
    """connected components of the sparsity pattern (exact zeros)"""
    n = A.shape[0]
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i

    for i in range(n):
        for j in range(n):
            v = A[i, j]
            if i != j and not (isinstance(v, Sym) and not v.num):
                a, b = find(i), find(j)
                if a != b:
                    comp[max(a, b)] = min(a, b)
    g = {}
    for i in range(n):
        g.setdefault(find(i), []).append(i)
    return list(g.values())


def inv2(A):
    n = A.shape[0]
    if anynan(A):
        r = np.empty((n, n), dtype=object)
        r[...] = nan
        return r
    r = np.empty((n, n), dtype=object)
    r[...] = ZERO
    for b in blocks(A):
        M = [[A[i, j] for j in b] for i in b]
        k = len(b)
        d = det_rec(M)
        if REGULAR[0]:
            ctx().assume(alg.snot(alg.compare("eq", d, 0)))
        elif not (ctx().nonzero(d)):
            raise np.linalg.LinAlgError("Singular matrix")
        di = alg.div(ONE, d)
        for x in range(k):
            for y in range(k):
                sub = [row[:x] + row[x + 1 :] for t, row in enumerate(M) if t != y]
                c = det_rec(sub) * di
                r[b[x], b[y]] = c if (x + y) % 2 == 0 else -c
    return r


def chol2(A):
    """lower factor from the lower triangle, as LAPACK potrf"""
    n = A.shape[0]
    L = np.empty((n, n), dtype=object)
    L[...] = ZERO
    for j in range(n):
        d = A[j, j]
        for k in range(j):
            d = d - L[j, k] * L[j, k]
        if isinstance(d, float):
            if d != d:
                raise np.linalg.LinAlgError("Matrix is not positive definite")
        elif REGULAR[0]:
            ctx().assume(alg.compare("gt", d, 0))
        elif not bool(alg.compare("gt", d, 0)):
            raise np.linalg.LinAlgError("Matrix is not positive definite")
        L[j, j] = alg.sqrt(d)
        for i in range(j + 1, n):
            s = A[i, j]
            for k in range(j):
                s = s - L[i, k] * L[j, k]
            L[i, j] = s / L[j, j]
    return L


def _inv(a, *x, **k):
    if not objlike(a):
        return ORIG["inv"](a, *x, **k)
    return rewrap_mat(a, stacked(inv2, square_mat(a)))


def rewrap_mat(a, r):
    return r


def _det(a):
    if not objlike(a):
        return ORIG["det"](a)
    return stacked(lambda A: nan if anynan(A) else det_rec([list(r) for r in A]), square_mat(a))


def _slogdet(a):
    if not objlike(a):
        return ORIG["slogdet"](a)
    A = square_mat(a)
    if A.ndim != 2:
        d = stacked(lambda M: det_rec([list(r) for r in M]), A).reshape(-1)
    else:
        d = [det_rec([list(r) for r in A])]
    s, l = [], []
    for v in d:
        if bool(alg.compare("eq", v, 0)):
            s.append(ZERO)
            l.append(-math.inf)
        else:
            pos = bool(alg.compare("gt", v, 0))
            s.append(ONE if pos else lift(-1))
            l.append(alg.slog(v if pos else -v))
    from numpy.linalg._linalg import SlogdetResult

    if A.ndim == 2:
        return SlogdetResult(s[0], l[0])
    return SlogdetResult(obj(s).reshape(A.shape[:-2]), obj(l).reshape(A.shape[:-2]))


def _cholesky(a, *x, upper=False, **k):
    if not objlike(a):
        return ORIG["cholesky"](a, *x, **k)
    L = stacked(chol2, square_mat(a))
    if upper:
        return np.swapaxes(L, -1, -2)
    return L


def _solve(a, b, *x, **k):
    if not (objlike(a) or objlike(b)):
        return ORIG["solve"](a, b, *x, **k)
    A = square_mat(a)
    B = obj(b)
    I = stacked(inv2, A)
    if B.ndim == 1:
        return I @ B
    return I @ B


def _squares(t):
    """a sum of squares is not negative"""
    if isinstance(t, Sym) and t.num and not t.is_const() and alg.sign(t) not in ("+", "0+", "0"):
        alg.CTX.mark_sign(t, "0+")
    return t


def _norm(x, ord=None, axis=None, keepdims=False):
    if not objlike(x):
        return ORIG["norm"](x, ord=ord, axis=axis, keepdims=keepdims)
    A = obj(x)
    if axis is None and ord in (None, "fro") or (axis is None and ord == 2 and A.ndim == 1):
        t = ZERO
        for v in A.ravel():
            t = t + v * v
        return alg.sqrt(_squares(t))
    if axis is None and A.ndim == 1 or axis is not None and not isinstance(axis, tuple):
        ax = 0 if axis is None else axis
        if ord in (None, 2):
            r = np.sum(A * A, axis=ax, keepdims=keepdims)
            for v in obj(r).ravel():
                _squares(v)
            return np.sqrt(r)
        if ord == 1:
            return np.sum(np.abs(A), axis=ax, keepdims=keepdims)
        if ord == np.inf:
            return np.max(np.abs(A), axis=ax, keepdims=keepdims)
    if axis is None and A.ndim == 2 and ord == 1:
        return np.max(np.sum(np.abs(A), axis=0))
    raise Unsupported(f"norm ord={ord} axis={axis} ndim={A.ndim}")


# --- eigen-decomposition: contract stub ------------------------------------
def eigen(A):
    """(ascending eigenvalues, Q) of the symmetric matrix given by the lower
    triangle of A: fresh symbols constrained by A = Q diag(l) Q', Q'Q = I."""
    p = ctx()
    n = A.shape[0]
    S = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            S[i, j] = A[max(i, j), min(i, j)]
    for B, l, Q in p.__dict__.setdefault("_eigs", []):
        if B.shape == S.shape and all(p.zero(x - y) for x, y in zip(B.ravel(), S.ravel())):
            return l.copy(), Q.copy()
    if all(alg.lift(x).is_const() for x in S.ravel()):
        # a fixed matrix with distinct non-zero eigenvalues: the decomposition
        # is a number (eigenvectors are fixed up to signs and up to the basis
        # of the null space)
        M = ORIG["array"]([[float(alg.lift(x).cval()) for x in row] for row in S])
        e, V = ORIG["eigh"](M)
        big = max(abs(e[0]), abs(e[-1]))
        gap = min((e[i + 1] - e[i] for i in range(n - 1) if max(abs(e[i]), abs(e[i + 1])) > 1e-9 * big), default=1.0)
        if gap > 1e-5 * big:
            l, Q = obj(e), obj(V)
            p._eigs.append((S, l, Q))
            return l.copy(), Q.copy()
    tag = len(p._eigs)

    def num():
        vals = p._vals
        if ("eig", tag) not in vals:
            M = ORIG["array"]([[p.numeric(S[i, j]) for j in range(n)] for i in range(n)], dtype=float)
            try:
                vals["eig", tag] = ORIG["eigh"](M)
            except Exception:
                vals["eig", tag] = (ORIG["full"](n, nan), ORIG["full"]((n, n), nan))
        return vals["eig", tag]

    l = np.empty(n, dtype=object)
    Q = np.empty((n, n), dtype=object)
    for i in range(n):
        l[i] = p.fresh(f"lam{tag}_{i}", numeric=(lambda i=i: num()[0][i]))
    for i in range(n):
        for j in range(n):
            Q[i, j] = p.fresh(f"q{tag}_{i}{j}", numeric=(lambda i=i, j=j: num()[1][i, j]))
    alls = list(l) + list(Q.ravel())
    cons = []
    for i in range(n - 1):
        cons.append(alg.compare("le", l[i], l[i + 1]))
    for a in range(n):
        for b in range(a, n):
            t = ZERO
            for k in range(n):
                t = t + Q[k, a] * Q[k, b]
            cons.append(alg.compare("eq", t, 1 if a == b else 0))
            if n > 1:
                t = ZERO
                for k in range(n):
                    t = t + Q[a, k] * Q[b, k]
                cons.append(alg.compare("eq", t, 1 if a == b else 0))
            t = ZERO
            for k in range(n):
                t = t + Q[a, k] * l[k] * Q[b, k]
            cons.append(alg.compare("eq", t - S[a, b], 0))
    p.eig_constraints(alls, cons, S, l, Q)
    p._eigs.append((S, l, Q))
    return l.copy(), Q.copy()


def _eigh(a, UPLO="L", *x, **k):
    if not objlike(a):
        return ORIG["eigh"](a, UPLO, *x, **k)
    from numpy.linalg._linalg import EighResult

    A = square_mat(a)
    if UPLO != "L":
        A = np.swapaxes(A, -1, -2)
    if A.ndim == 2:
        l, Q = eigen(A)
        return EighResult(l, Q)
    r = [eigen(M) for M in A.reshape((-1,) + A.shape[-2:])]
    return EighResult(obj(ORIG["stack"]([x[0] for x in r])).reshape(A.shape[:-1]),
                      obj(ORIG["stack"]([x[1] for x in r])).reshape(A.shape))


def _eigvalsh(a, *x, **k):
    if not objlike(a):
        return ORIG["eigvalsh"](a, *x, **k)
    return _eigh(a)[0]


def _svd(a, full_matrices=True, compute_uv=True, *x, **k):
    if not objlike(a):
        return ORIG["svd"](a, full_matrices, compute_uv, *x, **k)
    raise Unsupported("svd of a symbolic matrix")


def _pinv(a, *x, **k):
    if not objlike(a):
        return ORIG["pinv"](a, *x, **k)
    A = square_mat(a)
    rc = x[0] if x else k.get("rcond", k.get("rtol"))
    if A.ndim == 2 and A.shape[0] > 1 and rc is not None and rc > 1e-10:
        p, n = ctx(), A.shape[0]
        if all(p.zero(A[i, j]) for i in range(n) for j in range(n) if i != j):
            ab = [A[i, i] if A[i, i] >= 0 else -A[i, i] for i in range(n)]
            big = ab[0]
            for v in ab[1:]:
                big = v if v > big else big
            return obj([[1 / A[i, i] if i == j and ab[i] > rc * big else ZERO for j in range(n)] for i in range(n)])
        if all(p.zero(A[i, j] - A[j, i]) for i in range(n) for j in range(i)):
            l, Q = eigen(A)
            big = l[-1] if l[-1] >= -l[0] else -l[0]
            keep = [q for q in range(n) if (l[q] if l[q] >= 0 else -l[q]) > rc * big]
            return obj([[sum((Q[i, q] * Q[j, q] / l[q] for q in keep), ZERO) for j in range(n)] for i in range(n)])
        raise Unsupported("pinv with a cutoff")
    return _inv(a)  # nonsingular square only


def _lstsq(a, b, *x, **k):
    if not (objlike(a) or objlike(b)):
        return ORIG["lstsq"](a, b, *x, **k)
    A, B = obj(a), obj(b)
    if A.shape[0] < A.shape[1]:
        raise Unsupported("lstsq with fewer rows than columns")
    # full column rank
    return np.linalg.solve(A.T @ A, A.T @ B), None, A.shape[1], None


def _matrix_power(a, n):
    if not objlike(a):
        return ORIG["matrix_power"](a, n)
    A = obj(a)
    if n < 0:
        A, n = _inv(A), -n
    r = obj(ORIG["eye"](A.shape[-1]))
    for _ in range(n):
        r = r @ A
    return r


def _sc_eigh(a, b=None, *x, subset_by_index=None, eigvals_only=False, lower=True, **k):
    if not objlike(a):
        return ORIG["sc.eigh"](a, b, *x, subset_by_index=subset_by_index, eigvals_only=eigvals_only, lower=lower, **k)
    if b is not None:
        raise Unsupported("generalised eigenproblem")
    A = square_mat(a)
    if not lower:
        A = A.T
    l, Q = eigen(A)
    if subset_by_index is not None:
        lo, hi = (int(v) for v in subset_by_index)
        n = A.shape[0]
        if not (0 <= lo <= hi < n):
            raise ValueError(f"Requested eigenvalue indices are not valid. Valid range is [0, {n - 1}] and start <= end, but start={lo}, end={hi} is given")
        l, Q = l[lo : hi + 1], Q[:, lo : hi + 1]
    if eigvals_only:
        return l
    return l, Q


def _sc_inv(a, *x, **k):
    return _inv(a) if objlike(a) else ORIG["sc.inv"](a, *x, **k)


def _sc_cholesky(a, lower=False, *x, **k):
    if not objlike(a):
        return ORIG["sc.cholesky"](a, lower, *x, **k)
    A = square_mat(a)
    if lower:
        return chol2(A)
    return chol2(A.T).T


def _sc_cho_factor(a, lower=False, *x, **k):
    if not objlike(a):
        return ORIG["sc.cho_factor"](a, lower, *x, **k)
    return _sc_cholesky(a, lower), lower


def _sc_cho_solve(c_and_lower, b, *x, **k):
    c, lower = c_and_lower
    if not (objlike(c) or objlike(b)):
        return ORIG["sc.cho_solve"](c_and_lower, b, *x, **k)
    C = obj(c)
    L = np.tril(C) if lower else np.triu(C).T
    L = obj(L)
    y = tri_solve(L, obj(b), True)
    return tri_solve(L.T, y, False)


def tri_solve(A, B, lower, unit=False):
    n = A.shape[0]
    one = B.ndim == 1
    X = B.reshape(n, -1).copy()
    order = range(n) if lower else range(n - 1, -1, -1)
    for i in order:
        for c in range(X.shape[1]):
            t = X[i, c]
            for j in (range(i) if lower else range(i + 1, n)):
                t = t - A[i, j] * X[j, c]
            X[i, c] = t if unit else t / A[i, i]
    return X.reshape(-1) if one else X


def _sc_solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, *x, **k):
    if not (objlike(a) or objlike(b)):
        return ORIG["sc.solve_triangular"](a, b, trans=trans, lower=lower, unit_diagonal=unit_diagonal, *x, **k)
    A = square_mat(a)
    if trans in (1, "T", 2, "C"):
        A, lower = A.T, not lower
    return tri_solve(A, obj(b), lower, unit_diagonal)


def _sc_solve(a, b, *x, **k):
    if not (objlike(a) or objlike(b)):
        return ORIG["sc.solve"](a, b, *x, **k)
    return _solve(a, b)


def _sc_det(a, *x, **k):
    return _det(a) if objlike(a) else ORIG["sc.det"](a, *x, **k)


class SymOperator:
    def __init__(self, shape, matvec=None, **k):
        self.shape = shape
        self._mv = matvec
        self.k = k


def _materialise(op):
    n = op.shape[0]
    cols = []
    for j in range(n):
        e = np.empty(n, dtype=object)
        e[...] = ZERO
        e[j] = ONE
        cols.append(obj(op._mv(e)).reshape(n))
    return ORIG["stack"](cols, axis=1)


def _eigsh(A, k=6, M=None, sigma=None, which="LM", *x, **kw):
    if isinstance(A, SymOperator):
        A = _materialise(A)
    if not objlike(A):
        return ORIG["eigsh"](A, k, M, sigma, which, *x, **kw)
    A = square_mat(A)
    n = A.shape[0]
    if M is not None or sigma is not None:
        raise Unsupported("eigsh options")
    if k >= n:
        raise TypeError("Cannot use scipy.linalg.eigh for LinearOperator A with k >= N")
    l, Q = eigen(A)
    if which == "LA" or (which == "LM" and all(ctx().surely(alg.compare("ge", v, 0)) for v in l)):
        return l[n - k :], Q[:, n - k :]
    if which == "SA":
        return l[:k], Q[:, :k]
    if which == "LM":
        order = list(range(n))
        lo, hi = 0, n - 1
        sel = []
        for _ in range(k):
            if bool(alg.compare("ge", alg.sabs(l[hi]), alg.sabs(l[lo]))):
                sel.append(hi)
                hi -= 1
            else:
                sel.append(lo)
                lo += 1
        sel.sort()
        return l[sel], Q[:, sel]
    raise Unsupported("eigsh which=" + which)


# ------------------------------------------------------------- statistics
def _mean_like(name):
    def w(a, axis=None, *x, **k):
        if not objlike(a):
            return ORIG[name](a, axis, *x, **k)
        skip = name.startswith("nan")
        ddof = k.get("ddof", 0)
        keep = k.get("keepdims", False)
        A = obj(a)
        if axis is None:
            return stat1(A.ravel(), name, ddof, skip)
        r = np.apply_along_axis(lambda v: _box(stat1(v, name, ddof, skip)), axis, A)
        r = np.squeeze(r, axis=axis) if r.ndim == A.ndim else r
        if keep:
            r = np.expand_dims(r, axis)
        return r

    w.__name__ = name
    return w


def _box(v):
    r = np.empty(1, dtype=object)
    r[0] = v
    return r


def stat1(v, name, ddof=0, skip=False):
    xs = [x for x in v]
    if skip:
        xs = [x for x in xs if not isnan1(x)]
    n = len(xs)
    if n == 0:
        return ZERO if "sum" in name else nan
    t = ZERO
    for x in xs:
        t = t + x
    if "sum" in name:
        return t
    m = t / n if not isnan1(t) else nan
    if "mean" in name:
        return m
    if n - ddof <= 0:
        return nan
    if isnan1(m):
        return nan
    s = ZERO
    for x in xs:
        s = s + (x - m) * (x - m)
    s = _squares(s / (n - ddof))
    return s if "var" in name else alg.sqrt(s)


def _cov(m, y=None, rowvar=True, bias=False, ddof=None, *x, **k):
    if not objlike(m):
        return ORIG["cov"](m, y, rowvar, bias, ddof, *x, **k)
    A = obj(m)
    if A.ndim == 1:
        A = A.reshape(1, -1)
    if not rowvar:
        A = A.T
    n = A.shape[1]
    dd = ddof if ddof is not None else (0 if bias else 1)
    D = A - np.array([[stat1(r, "mean")] for r in A], dtype=object)
    return (D @ D.T) / (n - dd)


def _corrcoef(m, y=None, rowvar=True, *x, **k):
    if not (objlike(m) or objlike(y)):
        return ORIG["corrcoef"](m, y, rowvar, *x, **k)
    A = obj(m)
    if A.ndim == 1:
        A = A.reshape(1, -1)
    elif not rowvar:
        A = A.T
    if y is not None:
        B = obj(y)
        A = np.vstack([A, B.reshape(1, -1) if B.ndim == 1 else (B if rowvar else B.T)])
    C = _cov(A)
    sd = [alg.sqrt(C[i, i]) for i in range(len(C))]
    return obj([[ONE if i == j else C[i, j] / sd[i] / sd[j] for j in range(len(C))] for i in range(len(C))])


def _sort(a, axis=-1, *x, **k):
    if not objlike(a):
        return ORIG["sort"](a, axis, *x, **k)
    A = obj(a)
    if A.ndim > 1:
        if axis is None:
            return _sort(A.ravel())
        return np.apply_along_axis(lambda v: _sort(v), axis, A)
    import functools

    xs = list(A)
    xs.sort(key=functools.cmp_to_key(lambda p, q: -1 if bool(alg.compare("lt", p, q)) else (1 if bool(alg.compare("gt", p, q)) else 0)))
    return obj(xs)


def _where(cond, *xy):
    if not xy:
        c = np.asarray(cond)
        if c.dtype == object:
            c = boolarr(c)
        return ORIG["where"](c)
    c = np.asarray(cond.values if isinstance(cond, (pd.Series, pd.DataFrame)) else cond)
    if c.dtype == object:
        c = boolarr(c)
    if objlike(xy[0]) or objlike(xy[1]):
        return ORIG["where"](c, obj(xy[0]), obj(xy[1]))
    return ORIG["where"](c, *xy)


def boolarr(c):
    out = ORIG["empty"](c.shape, dtype=bool)
    f, o = c.ravel(), out.reshape(-1)
    for i in range(f.size):
        o[i] = bool(f[i])
    return out


def _anyall(name):
    def w(a, *x, **k):
        A = a.values if isinstance(a, (pd.Series, pd.DataFrame)) else a
        if isinstance(A, (SymBool, Sym)):
            return bool(A)
        A = np.asarray(A)
        if A.dtype == object:
            return ORIG[name](boolarr(A), *x, **k)
        return ORIG[name](a, *x, **k)

    w.__name__ = name
    return w


def _close1(p, q, rtol, atol, equal_nan):
    if isnan1(p) or isnan1(q):
        return bool(equal_nan and isnan1(p) and isnan1(q))
    if isinstance(p, float) or isinstance(q, float):
        return isinstance(p, float) and isinstance(q, float) and p == q
    d = p - q
    if d.is_const() and d.cval() == 0:
        return True
    tol = lift(atol) + (lift(rtol) * alg.sabs(q) if rtol else 0)
    return bool(alg.compare("le", d, tol)) and bool(alg.compare("le", -d, tol))


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not (objlike(a) or objlike(b)):
        return ORIG["isclose"](a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    A, B = np.broadcast_arrays(obj(a), obj(b))
    r = ORIG["array"]([_close1(p, q, rtol, atol, equal_nan) for p, q in zip(A.ravel(), B.ravel())], dtype=bool).reshape(A.shape)
    return r if r.ndim else bool(r)


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not (objlike(a) or objlike(b)):
        return ORIG["allclose"](a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    A, B = np.broadcast_arrays(obj(a), obj(b))
    return all(_close1(p, q, rtol, atol, equal_nan) for p, q in zip(A.ravel(), B.ravel()))


def _array_equal(a, b, *x, **k):
    if not (objlike(a) or objlike(b)):
        return ORIG["array_equal"](a, b, *x, **k)
    A, B = obj(a), obj(b)
    return A.shape == B.shape and all(bool(alg.compare("eq", p, q)) for p, q in zip(A.ravel(), B.ravel()))


def _einsum(*args, **k):
    if any(objlike(a) for a in args[1:]):
        k.pop("optimize", None)
        return ORIG["einsum"](*[a if isinstance(a, str) else obj(a) for a in args], **k)
    return ORIG["einsum"](*args, **k)


def _errstate_safe(f):
    return f


# --------------------------------------------------------------- pandas
def _frame_has(x):
    return objlike(x) and ctx() is not None


def patch_pandas():
    DF, SR = pd.DataFrame, pd.Series

    def patch(cls, name, fn):
        orig = getattr(cls, name)
        ORIG[f"{cls.__name__}.{name}"] = orig

        def w(self, *a, **k):
            if ctx() is None or not objlike(self):
                return orig(self, *a, **k)
            return fn(orig, self, *a, **k)

        w.__name__ = name
        w.__doc__ = orig.__doc__
        setattr(cls, name, w)

    def clip(orig, self, lower=None, upper=None, *, axis=None, inplace=False, **k):
        A = obj(self)

        def bound(b):
            if b is None:
                return None
            if isinstance(b, pd.DataFrame):
                return obj(b.reindex(index=self.index, columns=self.columns))
            if isinstance(b, pd.Series):
                if isinstance(self, pd.Series):
                    return obj(b.reindex(self.index))
                if axis in (0, "index"):
                    return np.broadcast_to(obj(b.reindex(self.index)).reshape(-1, 1), A.shape)
                return np.broadcast_to(obj(b.reindex(self.columns)).reshape(1, -1), A.shape)
            return np.broadcast_to(obj(b), A.shape)

        L, U = bound(lower), bound(upper)
        # scalar bounds given in the wrong order are swapped by pandas
        if lower is not None and upper is not None and np.ndim(lower) == 0 and np.ndim(upper) == 0 and not isinstance(lower, pd.Series):
            lo, hi = tosym(lower), tosym(upper)
            if not (isnan1(lo) or isnan1(hi)) and not bool(alg.compare("le", lo, hi)):
                L, U = U, L
        out = np.empty(A.shape, dtype=object)
        for ix in np.ndindex(A.shape):
            v = A[ix]
            if isnan1(v):
                out[ix] = v
                continue
            lo = None if L is None or isnan1(L[ix]) else L[ix]
            hi = None if U is None or isnan1(U[ix]) else U[ix]
            if lo is not None and hi is not None:
                m = ctx().clipped(v, lo, hi)
                if m is not None:
                    out[ix] = m
                    continue
            if lo is not None:
                v = ctx().minmax("max", v, lo)
            if hi is not None:
                v = ctx().minmax("min", v, hi)
            out[ix] = v
        r = rewrap(self, out)
        if inplace:
            self.iloc[...] = out
            return None
        return r

    def round_(orig, self, decimals=0, *a, **k):
        A = obj(self)
        if isinstance(decimals, (dict, pd.Series)):
            d = [dict(decimals).get(c) for c in self.columns]
        else:
            d = [decimals] * (A.shape[1] if A.ndim == 2 else 1)
        out = np.empty(A.shape, dtype=object)
        for ix in np.ndindex(A.shape):
            n = d[ix[1] if A.ndim == 2 else 0]
            out[ix] = A[ix].round(n) if isinstance(A[ix], Sym) and n is not None else A[ix]
        return rewrap(self, out)

    def fillna(orig, self, value=None, *a, **k):
        if isinstance(value, (int, float)) and not isinstance(value, bool):
            v = lift(value)
            A = obj(self)
            f = A.reshape(-1)
            for i in range(f.size):
                if isnan1(f[i]):
                    f[i] = v
            r = rewrap(self, f.reshape(A.shape))
            if k.get("inplace"):
                if isinstance(self, pd.DataFrame):
                    self[:] = r
                else:
                    self[:] = r.values
                return None
            return r
        return orig(self, value, *a, **k)

    def shift(orig, self, periods=1, *a, **k):
        r = orig(self, periods, *a, **k)
        if k.get("freq") is not None:
            return r
        A = r.to_numpy(dtype=object).copy()
        f = A.reshape(-1)
        for i in range(f.size):
            if f[i] is None:
                f[i] = nan
        return rewrap(r, f.reshape(A.shape))

    def astype(orig, self, dtype, *a, **k):
        if dtype is symfloat:
            dtype = float
        if short_type(dtype) and has_sym(self):
            return rewrap(self, shorten(self.to_numpy(dtype=object), short_type(dtype)))
        if isinstance(dtype, type) and dtype in FLOATS or isinstance(dtype, str) and dtype in FLOATS:
            A = self.to_numpy(dtype=object)
            flat = [v.ravel()[0] if isinstance(v, np.ndarray) and v.size == 1 else v for v in A.ravel()]
            if any(isinstance(v, Sym) for v in flat):
                out = np.empty(A.size, dtype=object)
                for i, v in enumerate(flat):
                    out[i] = tosym(v)
                return rewrap(self, out.reshape(A.shape))
        return orig(self, dtype, *a, **k)

    def stat(name):
        def f(orig, self, axis=0, skipna=True, *a, **k):
            if not has_sym(self):
                return orig(self, axis=axis, skipna=skipna, *a, **k)
            ddof = k.get("ddof", 1)
            A = obj(self)
            nm = "mean" if name == "mean" else name
            if A.ndim == 1 or axis is None:
                return stat1(A.ravel(), nm, ddof, skipna)
            if axis in (0, "index"):
                return pd.Series([stat1(A[:, j], nm, ddof, skipna) for j in range(A.shape[1])], index=self.columns, dtype=object)
            return pd.Series([stat1(A[i], nm, ddof, skipna) for i in range(A.shape[0])], index=self.index, dtype=object)

        return f

    def cov(orig, self, min_periods=None, ddof=1, **k):
        A = obj(self)
        n = A.shape[1]
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                rows = [t for t in range(A.shape[0]) if not isnan1(A[t, i]) and not isnan1(A[t, j])]
                N = len(rows)
                if N - ddof <= 0 or N < (min_periods or 1):
                    out[i, j] = nan
                    continue
                mi = stat1([A[t, i] for t in rows], "mean")
                mj = stat1([A[t, j] for t in rows], "mean")
                s = ZERO
                for t in rows:
                    s = s + (A[t, i] - mi) * (A[t, j] - mj)
                out[i, j] = s / (N - ddof)
        return pd.DataFrame(out, index=self.columns, columns=self.columns)

    def dot(orig, self, other):
        r = orig(self, other)
        return r

    def ewm(orig, self, com=None, span=None, halflife=None, alpha=None, min_periods=0, adjust=True, ignore_na=False, *a, **k):
        if com is not None:
            al = 1 / (1 + lift(com)) if objlike(com) else 1.0 / (1.0 + com)
        elif span is not None:
            al = 2.0 / (1.0 + span)
        elif halflife is not None:
            x = -np.log(2) / halflife
            e = alg.halfpow(x) if isinstance(x, float) else None
            al = 1 - (np.exp(x) if e is None else e)
        else:
            al = alpha
        return SymEwm(self, al, min_periods or 0, adjust, ignore_na)

    def median(orig, self, axis=0, skipna=True, *a, **k):
        def one(v):
            v = [x for x in v if not isnan1(x)] if skipna else list(v)
            if not v or any(isnan1(x) for x in v):
                return nan
            w = np.empty(len(v), dtype=object)
            w[:] = v
            return np.median(w)

        A = obj(self)
        if A.ndim == 1:
            return one(A)
        if axis in (0, "index"):
            return pd.Series([one(A[:, j]) for j in range(A.shape[1])], index=self.columns, dtype=object)
        return pd.Series([one(r) for r in A], index=self.index, dtype=object)

    def pair(x, y, min_periods=None, ddof=1):
        """covariance of two columns over the dates both have"""
        rows = [(u, v) for u, v in zip(x, y) if not isnan1(u) and not isnan1(v)]
        N = len(rows)
        if N - ddof <= 0 or N < (min_periods or 1):
            return nan
        mx, my = stat1([u for u, _ in rows], "mean"), stat1([v for _, v in rows], "mean")
        t = ZERO
        for u, v in rows:
            t = t + (u - mx) * (v - my)
        return t / (N - ddof)

    def scov(orig, self, other, min_periods=None, ddof=1):
        a, b = self.align(other, join="inner")
        return pair(obj(a), obj(b), min_periods, ddof)

    def pearson(x, y, min_periods=None):
        rows = [(u, v) for u, v in zip(x, y) if not isnan1(u) and not isnan1(v)]
        x, y = [u for u, _ in rows], [v for _, v in rows]
        c = pair(x, y, min_periods)
        if isnan1(c):
            return nan
        q = _squares(pair(x, x)) * _squares(pair(y, y))
        return nan if bool(alg.compare("eq", lift(q), 0)) else c / alg.sqrt(q)

    def corr(orig, self, method="pearson", min_periods=None, *a, **k):
        if method != "pearson":
            raise Unsupported(f"corr {method}")
        A = obj(self)
        n = A.shape[1]
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                out[i, j] = pearson(A[:, i], A[:, j], min_periods)
        return pd.DataFrame(out, index=self.columns, columns=self.columns)

    def scorr(orig, self, other, method="pearson", min_periods=None):
        if method != "pearson":
            raise Unsupported(f"corr {method}")
        a, b = self.align(other, join="inner")
        return pearson(obj(a), obj(b), min_periods)

    def rolling(orig, self, window, min_periods=None, center=False, win_type=None, *a, **k):
        if not isinstance(window, (int, np.integer)) or center or win_type is not None or a or any(v is not None for v in k.values()):
            raise Unsupported("rolling options")
        return SymRoll(self, int(window), window if min_periods is None else min_periods)

    def expanding(orig, self, min_periods=1, *a, **k):
        return SymRoll(self, len(self), min_periods)

    for c in (DF, SR):
        patch(c, "clip", clip)
        patch(c, "fillna", fillna)
        patch(c, "round", round_)
        patch(c, "shift", shift)
        patch(c, "astype", astype)
        for s in ("mean", "std", "var"):
            patch(c, s, stat(s))
        patch(c, "ewm", ewm)
        patch(c, "corr", corr if c is DF else scorr)
        patch(c, "rolling", rolling)
        patch(c, "expanding", expanding)
        patch(c, "median", median)
    patch(DF, "cov", cov)
    patch(SR, "cov", scov)

    from pandas.core.resample import Resampler

    def rstat(name):
        orig = getattr(Resampler, name)

        def f(self, *a, **k):
            if ctx() is None or not isinstance(self.obj, pd.Series) or not has_sym(self.obj):
                return orig(self, *a, **k)
            ddof = k.get("ddof", a[0] if a else 1)
            n = self.size()
            vals = [stat1(list(self.obj.iloc[self.indices[t]]) if t in self.indices else [], name, ddof, True) for t in n.index]
            out = np.empty(len(vals), dtype=object)
            out[:] = vals
            return pd.Series(out, index=n.index, dtype=object)

        setattr(Resampler, name, f)

    for s in ("mean", "std", "var", "sum"):
        rstat(s)

    def sumfix(orig, self, axis=0, skipna=True, *a, **k):
        if not has_sym(self):
            return orig(self, axis=axis, skipna=skipna, *a, **k)
        return stat("sum")(orig, self, axis=axis, skipna=skipna)

    for c in (DF, SR):
        patch(c, "sum", sumfix)

    def isna_any(orig, self, *a, **k):
        return orig(self, *a, **k)


class SymEwm:
    def __init__(self, data, alpha, minp, adjust, ignore_na):
        self.d, self.a, self.minp, self.adjust, self.ign = data, alpha, minp, adjust, ignore_na

    def _weights(self, col, t):
        idx = [s for s in range(t + 1) if not isnan1(col[s])]
        b = 1 - self.a
        if not idx:
            return idx, []
        if self.adjust:
            if self.ign:
                n = len(idx)
                return idx, [b ** (n - 1 - i) for i in range(n)]
            last = idx[-1]
            return idx, [b ** (last - s) if last != s else 1 for s in idx]
        if self.ign:
            n = len(idx)
            return idx, [(b ** (n - 1 - i) if n - 1 - i else 1) * (self.a if i else 1) for i in range(n)]
        # the first observation carries the weight of all before it, but gaps
        # rescale the weights
        w = [1]
        for p, s in zip(idx, idx[1:]):
            f = b ** (s - p)
            tot = ZERO
            for x in w:
                tot = tot + x * f
            tot = tot + self.a
            w = [x * f / tot for x in w] + [self.a / tot]
        return idx, w

    def _apply(self, fn, minp):
        A = obj(self.d)
        one = A.ndim == 1
        A = A.reshape(A.shape[0], -1)
        out = np.empty(A.shape, dtype=object)
        for j in range(A.shape[1]):
            for t in range(A.shape[0]):
                idx, w = self._weights(A[:, j], t)
                if len(idx) < max(minp, 1):
                    out[t, j] = nan
                else:
                    out[t, j] = fn([A[s, j] for s in idx], w)
        if one:
            out = out.reshape(-1)
        return rewrap(self.d, out)

    def mean(self, *a, **k):
        def f(xs, w):
            s, n = ZERO, ZERO
            for x, y in zip(xs, w):
                s = s + x * y
                n = n + y
            return s / n

        return self._apply(f, self.minp)

    def var(self, bias=False, *a, **k):
        def f(xs, w):
            n = ZERO
            q = ZERO
            m = ZERO
            for x, y in zip(xs, w):
                n = n + y
                q = q + y * y
                m = m + x * y
            m = m / n
            s = ZERO
            for x, y in zip(xs, w):
                s = s + (x - m) * (x - m) * y
            s = s / n
            if not bias:
                d = n * n - q
                if not d.num:
                    return nan
                s = s * (n * n) / d
            return s

        return self._apply(f, self.minp)

    def std(self, bias=False, *a, **k):
        return np.sqrt(self.var(bias=bias))


class SymRoll:
    """windows of a fixed number of rows (rolling and expanding)"""

    def __init__(self, data, window, minp):
        self.d, self.w, self.minp = data, window, minp

    def _apply(self, fn):
        A = obj(self.d)
        one = A.ndim == 1
        A = A.reshape(A.shape[0], -1)
        out = np.empty(A.shape, dtype=object)
        for j in range(A.shape[1]):
            for t in range(A.shape[0]):
                v = [x for x in A[max(0, t - self.w + 1) : t + 1, j] if not isnan1(x)]
                out[t, j] = fn(v) if len(v) >= self.minp else nan
        return rewrap(self.d, out.reshape(-1) if one else out)

    def sum(self, *a, **k):
        return self._apply(lambda v: stat1(v, "sum"))

    def mean(self, *a, **k):
        return self._apply(lambda v: stat1(v, "mean"))

    def var(self, ddof=1, *a, **k):
        return self._apply(lambda v: stat1(v, "var", ddof))

    def std(self, ddof=1, *a, **k):
        return self._apply(lambda v: stat1(v, "std", ddof))

    def max(self, *a, **k):
        return self._apply(lambda v: max(v))

    def min(self, *a, **k):
        return self._apply(lambda v: min(v))

    def apply(self, func, raw=False, *a, **k):
        def f(v):
            w = np.empty(len(v), dtype=object)
            w[:] = v
            return func(w if raw else pd.Series(w))

        return self._apply(f)


# ----------------------------------------------------------------- install
class _SymFloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, Sym)

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.ravel()[0])
        return float(x)


class symfloat(float, metaclass=_SymFloatMeta):
    pass


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import cvxpy  # noqa: F401  (complete these imports before patching)
    import matplotlib.pyplot  # noqa: F401
    import scipy.interpolate  # noqa: F401
    import scipy.linalg as sl
    import scipy.optimize  # noqa: F401
    import scipy.sparse.linalg as ssl
    import scipy.stats  # noqa: F401
    import tqdm  # noqa: F401

    for n in ("array", "asarray", "zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like",
              "full_like", "eye", "identity", "clip", "nan_to_num", "sqrt", "exp", "log", "log1p", "expm1", "isnan",
              "isfinite", "isinf", "isclose",
              "minimum", "maximum", "fmin", "fmax", "abs", "absolute", "sign", "mean", "std", "var", "nanmean", "nanstd",
              "nanvar", "nansum", "cov", "sort", "where", "any", "all", "allclose", "array_equal", "einsum", "stack",
              "square", "power", "average", "corrcoef", "median", "vectorize", "trapezoid", "interp", "float64"):
        ORIG[n] = getattr(np, n)
    for n in ("inv", "det", "slogdet", "cholesky", "solve", "norm", "eigh", "eigvalsh", "svd", "pinv", "lstsq", "matrix_power", "eig"):
        ORIG[n] = getattr(np.linalg, n)
    np.sqrt = Elem(ORIG["sqrt"], _sqrt, const_exact=_const_sqrt)
    np.exp = Elem(ORIG["exp"], alg.sexp, const_exact=_const_exp)
    np.log = Elem(ORIG["log"], alg.slog)
    np.log1p = Elem(ORIG["log1p"], lambda v: alg.slog(v + 1))
    np.log2 = Elem(np.log2, lambda v: alg.slog(v) / math.log(2))
    np.log10 = Elem(np.log10, lambda v: alg.slog(v) / math.log(10))
    np.float_power = Elem(np.float_power, lambda a, b: a**b, nin=2)
    np.hypot = Elem(np.hypot, lambda a, b: _sqrt(_squares(lift(a) * a + lift(b) * b)), nin=2)
    np.expm1 = Elem(ORIG["expm1"], lambda v: alg.sexp(v) - 1)
    np.abs = np.absolute = Elem(ORIG["abs"], alg.sabs)
    np.sign = Elem(ORIG["sign"], _sign)
    np.square = Elem(ORIG["square"], lambda v: v * v)
    np.power = Elem(ORIG["power"], lambda a, b: a**b, nin=2)
    np.isnan = Elem(ORIG["isnan"], isnan1, boolean=True)
    np.isinf = Elem(ORIG["isinf"], lambda v: isinstance(v, float) and v == v, boolean=True)
    np.isfinite = Elem(ORIG["isfinite"], _isfin, boolean=True)
    np.minimum = Elem(ORIG["minimum"], _min, nin=2)
    np.maximum = Elem(ORIG["maximum"], _max, nin=2)
    np.fmin = Elem(ORIG["fmin"], _fmin, nin=2)
    np.fmax = Elem(ORIG["fmax"], _fmax, nin=2)
    for n in ("rint", "floor", "ceil"):
        ORIG[n] = getattr(np, n)
        setattr(np, n, Elem(ORIG[n], lambda v, n=n: getattr(v, n)()))
    ORIG["round"] = np.round

    def nround(a, decimals=0, out=None):
        if not objlike(a) or isinstance(a, (pd.Series, pd.DataFrame)):
            return ORIG["round"](a, decimals, out)
        A = obj(a)
        r = np.empty(A.shape, dtype=object)
        for ix in np.ndindex(A.shape):
            r[ix] = A[ix].round(decimals) if isinstance(A[ix], Sym) else A[ix]
        return unwrap(r)

    np.round = np.around = nround
    np.clip = _clip
    np.nan_to_num = _nan_to_num
    np.isclose = _isclose
    for n, f in (("zeros", ZERO), ("ones", ONE), ("empty", ZERO), ("full", None)):
        setattr(np, n, _alloc(n, f))
    for n, f in (("zeros_like", ZERO), ("ones_like", ONE), ("empty_like", ZERO), ("full_like", None)):
        setattr(np, n, _alloc_like(n, f))
    np.eye = _eye("eye")
    np.identity = _eye("identity")
    for n in ("array", "asarray"):
        setattr(np, n, _array(n))
    for n in ("mean", "std", "var", "nanmean", "nanstd", "nanvar", "nansum"):
        setattr(np, n, _mean_like(n))
    np.cov = _cov
    np.corrcoef = _corrcoef
    np.sort = _sort
    np.where = _where
    np.any = _anyall("any")
    np.all = _anyall("all")
    np.allclose = _allclose
    np.array_equal = _array_equal
    np.einsum = _einsum

    class _Float64(metaclass=type):
        pass

    for n, f in (("inv", _inv), ("det", _det), ("slogdet", _slogdet), ("cholesky", _cholesky), ("solve", _solve),
                 ("norm", _norm), ("eigh", _eigh), ("eigvalsh", _eigvalsh), ("svd", _svd), ("pinv", _pinv),
                 ("lstsq", _lstsq), ("matrix_power", _matrix_power)):
        setattr(np.linalg, n, f)
    for n, f in (("eigh", _sc_eigh), ("inv", _sc_inv), ("cholesky", _sc_cholesky), ("cho_factor", _sc_cho_factor),
                 ("cho_solve", _sc_cho_solve), ("solve_triangular", _sc_solve_triangular), ("solve", _sc_solve), ("det", _sc_det)):
        ORIG["sc." + n] = getattr(sl, n)
        setattr(sl, n, f)
    ORIG["eigsh"] = ssl.eigsh
    ssl.eigsh = _eigsh
    ORIG["LinearOperator"] = ssl.LinearOperator

    def _linop(shape, matvec=None, *a, **k):
        if ctx() is not None and from_repo():
            return SymOperator(shape, matvec)
        return ORIG["LinearOperator"](shape, matvec, *a, **k)

    ssl.LinearOperator = _linop
    for n, f in (("sqrt", alg.sqrt), ("exp", alg.sexp), ("log", alg.slog), ("fabs", alg.sabs)):
        o = getattr(math, n)
        ORIG["math." + n] = o

        def mw(x, *a, o=o, f=f):
            if isinstance(x, Sym):
                r = f(x)
                if a:
                    r = r / f(lift(a[0]))
                return r
            return o(x, *a)

        setattr(math, n, mw)
    oclose = math.isclose
    math.isclose = lambda a, b, *, rel_tol=1e-9, abs_tol=0.0: (
        oclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol) if not (isinstance(a, Sym) or isinstance(b, Sym))
        else _close1(lift(a), lift(b), 0, (lift(abs_tol) + lift(rel_tol) * ctx().minmax("max", alg.sabs(lift(a)), alg.sabs(lift(b)))), False))
    for n in ("floor", "ceil"):
        o = getattr(math, n)
        setattr(math, n, lambda x, o=o, n=n: getattr(x, n)() if isinstance(x, Sym) else o(x))
    oisnan, oisfin = math.isnan, math.isfinite
    math.isnan = lambda x: False if isinstance(x, Sym) else oisnan(x)
    math.isfinite = lambda x: True if isinstance(x, Sym) else oisfin(x)
    patch_pandas()
    sys.meta_path.insert(0, _Finder)


class _Astype(ast.NodeTransformer):
    """x.astype(...) -> astype(x, ...): the method of arrays cannot be replaced"""

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "astype" and not any(isinstance(x, ast.Starred) for x in node.args):
            new = ast.Call(func=ast.Name(id="__symex_astype__", ctx=ast.Load()), args=[f.value, *node.args], keywords=node.keywords)
            return ast.fix_missing_locations(ast.copy_location(new, node))
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = _Astype().visit(ast.parse(self.get_data(path), path))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__symex_astype__"] = astype
        super().exec_module(module)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if not name.startswith(REPO_PREFIXES):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is None or type(spec.loader) is not importlib.machinery.SourceFileLoader:
            return spec
        return importlib.util.spec_from_file_location(name, spec.origin, loader=_Loader(name, spec.origin), submodule_search_locations=spec.submodule_search_locations)


def after_import(mod):
    """repo module globals that would lose symbolic values"""
    mod.__dict__.setdefault("float", symfloat)
