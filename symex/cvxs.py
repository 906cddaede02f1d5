"""Stand-in for the convex solver.

The optimisation model stays real: cvxpy's own expression tree, built by the
code under test, is evaluated at the candidate point.  Only the call into the
numerical solver is replaced: the harness decides what the solver returns
(harness inputs) or that it fails.  Used in symbolic runs and in replays alike.
"""
from __future__ import annotations

import contextlib

import cvxpy as cvx
import numpy as np
import scipy.sparse as sp


def _obj(a):
    return isinstance(a, np.ndarray) and a.dtype == object


_patched = False


def patch_cvxpy():
    """let parameters and constants carry symbolic arrays"""
    global _patched
    if _patched:
        return
    _patched = True
    from cvxpy.expressions.leaf import Leaf
    from cvxpy.expressions.constants.constant import Constant
    from cvxpy.interface.numpy_interface.ndarray_interface import NDArrayInterface
    from . import alg

    ov = Leaf._validate_value

    def _validate_value(self, val):
        if hasattr(val, "to_numpy"):
            val = val.to_numpy()
        if isinstance(val, alg.Sym):
            v = np.empty((), dtype=object)
            v[()] = val
            val = v
        if _obj(val):
            if tuple(val.shape) != tuple(self.shape):
                raise ValueError(f"Invalid dimensions {val.shape} for {self.__class__.__name__} value.")
            return val
        return ov(self, val)

    Leaf._validate_value = _validate_value
    oc = NDArrayInterface.const_to_matrix

    def const_to_matrix(self, value, convert_scalars=False):
        if hasattr(value, "to_numpy"):
            value = value.to_numpy()
        if isinstance(value, alg.Sym):
            v = np.empty((), dtype=object)
            v[()] = value
            return v
        if isinstance(value, list):
            a = np.asarray(value, dtype=object)
            if any(isinstance(x, alg.Sym) for x in a.ravel()):
                return a.T
        if _obj(value) and any(isinstance(x, alg.Sym) for x in value.ravel()):
            return value
        return oc(self, value, convert_scalars)

    NDArrayInterface.const_to_matrix = const_to_matrix
    oa, os_ = Constant._compute_attr, Constant._compute_symm_attr

    def _compute_attr(self):
        if _obj(self._value):
            self._imag = self._nonneg = self._nonpos = False
        else:
            oa(self)

    def _compute_symm_attr(self):
        if _obj(self._value):
            v = self._value
            self._symm = self._herm = all(alg.compare("eq", v[i, j], v[j, i]) is True or bool(alg.compare("eq", v[i, j], v[j, i]))
                                          for i in range(v.shape[0]) for j in range(i))
        else:
            os_(self)

    Constant._compute_attr, Constant._compute_symm_attr = _compute_attr, _compute_symm_attr
    op, on = Constant.is_psd, Constant.is_nsd
    Constant.is_psd = lambda self: True if _obj(self._value) else op(self)
    Constant.is_nsd = lambda self: False if _obj(self._value) else on(self)


def dense(v):
    if sp.issparse(v):
        return v.toarray()
    return v


def _each(f):
    """elementwise atom on arrays of scalars"""

    def g(e, *vals):
        b = np.broadcast(*vals)
        out = np.empty(b.shape, dtype=object)
        out.ravel()[:] = [f(e, *x) for x in b] if b.shape else f(e, *(v.ravel()[0] for v in vals))
        return out

    return g


def _huber(e, x):
    m = e.M.value
    m = np.asarray(m).ravel()[0]
    a = abs(x)
    return x * x if a <= m else 2 * m * a - m * m


# cvxpy atoms whose own evaluation is compiled code for floating point only
def _power(e, x):
    p = float(e.p.value)
    if p == int(p) and p >= 0:
        r = x * 0 + 1
        for _ in range(int(p)):
            r = r * x
        return r
    return np.sqrt(x) if p == 0.5 else x**p


def _column_norm(e, x):
    """largest singular value of a single row or column"""
    if x.ndim == 2 and min(x.shape) > 1:
        raise NotImplementedError("largest singular value of a matrix")
    return np.linalg.norm(x.ravel())


SPECIAL = dict(
    huber=_each(_huber),
    log1p=_each(lambda e, x: np.log(1 + x)),
    entr=_each(lambda e, x: -x * np.log(x)),
    kl_div=_each(lambda e, x, y: x * np.log(x / y) - x + y),
    rel_entr=_each(lambda e, x, y: x * np.log(x / y)),
    logistic=_each(lambda e, x: np.log(1 + np.exp(x))),
    power=_each(_power),
    sigma_max=lambda e, x: _column_norm(e, x),
)


def ev(e, env=None):
    """value of a cvxpy expression; env maps variable id -> array"""
    if isinstance(e, cvx.Variable) and env is not None and e.id in env:
        return env[e.id]
    if not e.args:
        v = e.value
        if v is None:
            raise ValueError(f"no value for {e}")
        return dense(v)
    vals = [np.asarray(ev(a, env)) for a in e.args]
    if type(e).__name__ in SPECIAL and any(_obj(v) and any(hasattr(x, "num") for x in v.ravel()) for v in vals):
        return SPECIAL[type(e).__name__](e, *vals)
    f = type(e).numeric
    f = getattr(f, "__wrapped__", f)
    if f.__closure__ and f.__name__ == "new_numeric":
        f = next(c.cell_contents for c in f.__closure__ if callable(c.cell_contents))
    return f(e, vals)


def scalar(v):
    return np.asarray(v).ravel()[0] if isinstance(v, np.ndarray) else v


def constraints(prob, env=None):
    """-> [(kind, value)] meaning value == 0 ('eq') or value <= 0 ('le'), one
    per scalar constraint, variable attributes included"""
    out = []

    def put(kind, v):
        out.extend((kind, x) for x in np.asarray(v).ravel())

    for c in prob.constraints:
        n = type(c).__name__
        if n == "Equality":
            a, b = (np.asarray(ev(x, env)) for x in c.args)
            put("eq", a - b)
        elif n == "Inequality":
            a, b = (np.asarray(ev(x, env)) for x in c.args)
            put("le", a - b)
        elif n == "Zero":
            put("eq", ev(c.args[0], env))
        elif n == "NonPos":
            put("le", ev(c.args[0], env))
        elif n == "NonNeg":
            put("le", -np.asarray(ev(c.args[0], env)))
        else:
            raise NotImplementedError(f"constraint {n}")
    for v in prob.variables():
        x = np.asarray(env[v.id] if env and v.id in env else v.value)
        a = v.attributes
        if a.get("nonneg") or a.get("pos"):
            put("le", -x)
        if a.get("nonpos") or a.get("neg"):
            put("le", x)
        for k in ("boolean", "integer", "PSD", "NSD", "diag", "symmetric", "complex", "bounds"):
            if a.get(k) not in (None, False, []):
                raise NotImplementedError(f"variable attribute {k}")
    return out


def feasible(h, prob, env=None):
    c = [v == 0 if k == "eq" else v <= 0 for k, v in constraints(prob, env)]
    return h.And(*c)


def objective(prob, env=None):
    """(sense, value)"""
    v = scalar(ev(prob.objective.args[0], env))
    return ("max" if isinstance(prob.objective, cvx.Maximize) else "min"), v


def assign(var, flat):
    """give a variable its value (column-major like cvxpy)"""
    a = np.empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        a[i] = x
    if not any(hasattr(x, "num") for x in flat):
        a = a.astype(float)
    var.save_value(a.reshape(var.shape, order="F"))


@contextlib.contextmanager
def standin(h, on_solve):
    """replace cvxpy's Problem.solve; on_solve(problem, call number, kwargs)
    assigns the variables or raises cvxpy.SolverError"""
    if h.symbolic:
        patch_cvxpy()
    calls = []

    def solve(self, *a, **k):
        n = len(calls)
        calls.append(self)
        self._status = None
        r = on_solve(self, n, k)
        self._status = cvx.OPTIMAL
        self._value = r
        return r

    from cvxpy.problems.objective import Objective

    orig = cvx.Problem.solve, cvx.Problem.get_problem_data, Objective.value
    cvx.Problem.solve = solve
    # compiling for a solver is part of the replaced call
    cvx.Problem.get_problem_data = lambda self, *a, **k: (None, None, None)
    if h.symbolic:
        Objective.value = property(lambda self: scalar(ev(self.args[0])))
    try:
        yield calls
    finally:
        cvx.Problem.solve, cvx.Problem.get_problem_data, Objective.value = orig
