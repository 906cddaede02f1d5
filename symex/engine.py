"""Forking symbolic executor: path exploration, SMT queries, proofs.

Every run of a harness function executes the real code of /repo on symbolic
scalars.  A branch on a symbolic condition asks the solver which outcomes are
feasible under the path condition and forks; all feasible paths are explored
by re-execution.  Assertions are discharged per path by asking the solver for
a value violating them.
"""
from __future__ import annotations

import math
import os
import random
import subprocess
import sys
import tempfile
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _import_z3():
    try:
        import z3  # noqa
    except ImportError:
        sys.path.append(_VT)
        import z3  # noqa
        sys.path.remove(_VT)
    import z3

    return z3


z3 = _import_z3()

from . import alg
from .alg import Sym, SymBool, Unsupported, TooBig, lift


_CY = {}


def cyclo(d):
    """coefficients of the d-th cyclotomic polynomial, lowest first"""
    if d not in _CY:
        p = [-1] + [0] * (d - 1) + [1]
        for k in range(1, d):
            if d % k == 0:
                q = cyclo(k)
                r, out = p[:], []
                for i in range(len(p) - len(q), -1, -1):
                    c = r[i + len(q) - 1]  # q is monic
                    out.append(c)
                    for j, v in enumerate(q):
                        r[i + j] -= c * v
                p = out[::-1]
        _CY[d] = p
    return _CY[d]


class PathDead(BaseException):
    """The current path condition is infeasible."""


class Found(BaseException):
    """A candidate violation was found on this path (stop the path)."""


class Budget(BaseException):
    pass


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.q_sat = 0
        self.q_unsat = 0
        self.q_unknown = 0
        self.solver_s = 0.0
        self.proved = 0
        self.by_normal_form = 0
        self.by_search = 0
        self.confirm_open = 0
        self.cvc5 = 0
        self.unknown_feasible = 0
        self.max_pc = 0
        self.infeasible = 0

    def queries(self):
        return self.q_sat + self.q_unsat + self.q_unknown


STATS = Stats()

SIGNS = {"+": frozenset((1,)), "-": frozenset((-1,)), "0": frozenset((0,)),
         "0+": frozenset((0, 1)), "0-": frozenset((0, -1))}
NAMES = {v: k for k, v in SIGNS.items()}
ALL = frozenset((-1, 0, 1))
NZ = frozenset((-1, 1))
TRUE_SET = {"lt": frozenset((-1,)), "le": frozenset((-1, 0)), "eq": frozenset((0,))}


def _flipset(s):
    return frozenset(-x for x in s)


class Path:
    def __init__(self, prefix=(), seed=0, timeout=8000, merge=False):
        self.atoms = []
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []          # alternative prefixes discovered on this run
        self.lits = []             # (Sym, signset, key)
        self._lit_keys = {}
        self.extra = []            # raw (z3 expr, closure) constraints
        self.signs = {}            # canonical key -> signset
        self.by_name = {}
        self.den_keys = {}
        self.sqrt_keys = {}
        self.rng = random.Random(1234567 + seed)
        self.timeout = timeout
        self.merge = merge
        self.feas_timeout = 2000
        self.sample = {}
        self.z3vars = {}
        self.z3polys = {}
        self.defcache = {}
        self.notes = []
        self.hl = {}               # halflife var name -> (h atom, b atom)
        self.vars = {}             # name -> atom id (inputs)
        self.goals = 0
        self.zero_sub = {}         # atom id -> True when forced to zero on this path

    # ---------------------------------------------------------------- atoms
    def _new(self, name, kind, **k):
        a = alg.Atom(len(self.atoms), name, kind, **k)
        self.atoms.append(a)
        return a

    def var(self, name, sgn=None, lo=None, hi=None, nz=False, dom=None, sample=None):
        assert name not in self.by_name, name
        a = self._new(name, "var", sgn=sgn, nz=nz or sgn in ("+", "-"))
        self.by_name[name] = a.id
        self.vars[name] = a.id
        a.dom = dom
        if sample is None:
            if dom:
                sample = self.rng.choice(list(dom))
            elif lo is not None and hi is not None:
                sample = Fraction(self.rng.randint(1, 127), 128) * (Fraction(hi) - Fraction(lo)) + Fraction(lo)
            else:
                sample = Fraction(self.rng.randint(20, 250), 100)
                if sgn == "-" or (sgn is None and self.rng.random() < 0.5):
                    sample = -sample
        self.sample[a.id] = Fraction(sample)
        v = Sym({((a.id, 1),): 1})
        if dom:
            z = self.zvar(a.id)
            self.extra.append((z3.Or([z == int(d) for d in dom]), frozenset((a.id,))))
        if lo is not None:
            self.assume(v >= lo if sgn != "+" or lo != 0 else True)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def fresh(self, name, constraints=None, sgn=None, numeric=None, nz=False):
        a = self._new(f"{name}#{len(self.atoms)}", "fresh", sgn=sgn, nz=nz)
        a.extra = {"numeric": numeric, "cons": []}
        if numeric is None:
            self.sample[a.id] = Fraction(self.rng.randint(20, 250), 100)
        return Sym({((a.id, 1),): 1})

    def constrain_fresh(self, fresh_syms, sb):
        """attach a constraint to stub-result atoms (part of their definition)"""
        for s in fresh_syms:
            (m, _), = s.num.items()
            self.atoms[m[0][0]].extra["cons"].append(sb)
            self.atoms[m[0][0]]._closure = None

    def den_factor(self, n):
        """n: content-free polynomial with leading coefficient 1 -> den atom ids."""
        key = frozenset(n.items())
        i = self.den_keys.get(key)
        if i is not None:
            return [i]
        cy = self._cyclotomic(n)
        if cy is not None:
            return cy
        for j in list(self.den_keys.values()):
            d = self.atoms[j].arg
            if 1 < len(d) < len(n):
                q = alg.pdiv_exact(n, d)
                if q is not None:
                    if len(q) == 1:
                        (m, c), = q.items()
                        if not m and c == 1:
                            return [j]
                        break
                    return [j] + self.den_factor(q)
        a = self._new(f"D{len(self.atoms)}", "den", arg=n, nz=True)
        s = alg.sign(Sym(n))
        if s in ("+", "0+"):
            a.sgn = "+"
        elif s in ("-", "0-"):
            a.sgn = "-"
        self.den_keys[key] = a.id
        return [a.id]

    def _cyclotomic(self, n):
        """split b^k - 1, 1 + b + ... + b^(k-1) etc. (b a decay factor) into
        cyclotomic factors, so that equal quotients get equal forms"""
        x = None
        deg = 0
        for m, c in n.items():
            if len(m) > 1 or (not isinstance(c, int) and c.denominator != 1):
                return None
            for i, e in m:
                if x is None:
                    x = i
                if i != x or e < 0:
                    return None
                deg = max(deg, e)
        if x is None or deg < 2 or self.atoms[x].kind != "exp" or n.get(()) not in (1, -1):
            return None
        out = []
        rest = n
        for d in range(1, 2 * deg + 2):
            f = cyclo(d)
            if len(f) - 1 > deg:
                continue
            P = {(((x, k),) if k else ()): c for k, c in enumerate(f) if c}
            while len(rest) > 1:
                q = alg.pdiv_exact(rest, P)
                if q is None:
                    break
                rest = q
                out.append((d, P))
        if len(rest) > 1 or rest.get(()) != 1:
            return None
        ids = []
        for d, P in out:
            key = frozenset(P.items())
            i = self.den_keys.get(key)
            if i is None:
                a = self._new(f"D{len(self.atoms)}", "den", arg=P, nz=True)
                if d > 2:
                    a.sgn = "+"
                else:
                    s = alg.sign(Sym(P))
                    a.sgn = "+" if s in ("+", "0+") else "-" if s in ("-", "0-") else None
                i = self.den_keys[key] = a.id
            ids.append(i)
        return ids

    def sqrt_atom(self, arg):
        if arg.is_const():
            r = alg._perfect(arg.cval())
            if r is not None:
                return Sym.const(r)
        key = (frozenset(arg.num.items()), arg.den)
        i = self.sqrt_keys.get(key)
        if i is None:
            x = self.numeric(arg)
            for j in self.sqrt_keys.values():
                a = self.atoms[j]
                y = self.numeric(a.arg)
                if x == x and y == y and abs(x - y) <= 1e-7 * (abs(x) + abs(y)):
                    if self.zero(arg - a.arg):
                        i = j
                        break
            if i is None:
                s = alg.sign(arg)
                a = self._new(f"sqrt{len(self.atoms)}", "sqrt", arg=arg, sgn="+" if s == "+" else "0+", nz=s == "+")
                i = a.id
            self.sqrt_keys[key] = i
        return Sym({((i, 1),): 1})

    def exp_atom(self, arg):
        for a in self.atoms:
            if a.kind != "exp":
                continue
            B = a.arg
            if len(B.num) != len(arg.num) or set(B.num) != set(arg.num):
                continue
            l = alg.lead(arg.num)
            r = Fraction(arg.num[l]) / B.num[l]
            f = r.limit_denominator(64)
            if abs(r - f) > abs(r) * Fraction(1, 10**11):
                continue
            if alg.add(arg, -alg.mul(B, Sym.const(r))).num:
                if any(abs(Fraction(arg.num[m]) - r * B.num[m]) > Fraction(1, 10**11) * abs(arg.num[m]) for m in arg.num):
                    continue
            e = Sym({((a.id, 1),): 1})
            if f.denominator in (1, 2):
                return e ** f
        a = self._new(f"exp{len(self.atoms)}", "exp", arg=arg, sgn="+", nz=True)
        e = Sym({((a.id, 1),): 1})
        s = alg.sign(arg)
        if s in ("-", "0-"):
            a.dom = "lt1" if s == "-" else "le1"
            self._setsign(e - 1, SIGNS["-"] if s == "-" else SIGNS["0-"])
        elif s in ("+", "0+"):
            a.dom = "gt1" if s == "+" else "ge1"
            self._setsign(e - 1, SIGNS["+"] if s == "+" else SIGNS["0+"])
        return e

    def plain_squares(self, num):
        """replace even powers of roots of polynomials (exact)"""
        for _ in range(50):
            best = max((i for m in num for i, e in m if e >= 2 and self.atoms[i].kind == "sqrt" and not self.atoms[i].arg.den
                        and all(x > 0 for q in self.atoms[i].arg.num for _, x in q)), default=None)
            if best is None:
                break
            A = self.atoms[best].arg.num
            tot = {}
            for m, c in num.items():
                e = dict(m).get(best, 0)
                k = max(e, 0) // 2
                rest = tuple((i, (x if i != best else x - 2 * k)) for i, x in m if i != best or x - 2 * k)
                tot = alg.padd(tot, alg.pmul({rest: c}, alg.ppow(A, k)) if k else {rest: c})
            num = tot
        return num

    def log_atom(self, arg):
        tot = Sym({})
        c0 = alg._pcontent(arg.num)
        n = alg.pmulm(arg.num, alg.minv(c0)) if c0 else arg.num
        rest = {}
        n2 = self.plain_squares(n)
        c1 = ()
        if n2 is not n and n2:
            c1 = alg._pcontent(n2)
            n = alg.pmulm(n2, alg.minv(c1)) if c1 else n2
        for i, e in list(c0) + list(c1) + [(i, -e) for i, e in arg.den]:
            rest[i] = rest.get(i, 0) + e
        lc = n[alg.lead(n)]
        if lc > 0 and lc != 1:
            n = alg.pscale(n, Fraction(1) / lc)
            tot = tot + math.log(lc)
        inner = {}
        for i, e in rest.items():
            a = self.atoms[i]
            if a.sgn == "+":
                tot = tot + e * self._log1(i)
            elif e:
                inner[i] = e
        w = alg._apply(Sym(n), inner)
        if not w.is_const():
            tot = tot + self._logany(w)
        elif w.cval() != 1:
            tot = tot + math.log(w.cval())
        return tot

    def _log1(self, i):
        a = self.atoms[i]
        if a.kind == "exp":
            return a.arg
        if a.kind == "sqrt":
            return alg.slog(a.arg) * Fraction(1, 2)
        if a.kind == "den":
            return self._logany(Sym(a.arg))
        return self._logany(Sym({((i, 1),): 1}))

    def _logany(self, w):
        x = self.numeric(w)
        for a in self.atoms:
            if a.kind == "log":
                if a.arg.num == w.num and a.arg.den == w.den:
                    return Sym({((a.id, 1),): 1})
                y = self.numeric(a.arg)
                if x == x and y == y and abs(x - y) <= 1e-7 * (abs(x) + abs(y)) and self.zero(w - a.arg):
                    return Sym({((a.id, 1),): 1})
        a = self._new(f"log{len(self.atoms)}", "log", arg=w)
        return Sym({((a.id, 1),): 1})

    def ite_atom(self, name, cases, same=None):
        """cases: list of (SymBool|True, Sym); later guards assume earlier ones fail."""
        a = self._new(f"{name}{len(self.atoms)}", "ite")
        a.extra = {"cases": cases}
        return Sym({((a.id, 1),): 1})

    # -------------------------------------------------------- piecewise ops
    def abs_value(self, v):
        if not self.merge:
            return -v if self.branch(alg.cmp0("lt", v)) else v
        return alg.sqrt(v * v)

    def minmax(self, kind, x, y):
        x, y = lift(x), lift(y)
        if isinstance(x, float) or isinstance(y, float):
            x2 = float("nan") if isinstance(x, float) and x != x else x
            if isinstance(x2, float) and x2 != x2:
                return x2
            if isinstance(y, float) and y != y:
                return y
            c = alg.compare("le", x, y) if not isinstance(x, float) else (x <= y if isinstance(y, float) else alg.compare("ge", y, x))
            c = bool(c)
            return (x if c else y) if kind == "min" else (y if c else x)
        d = x - y
        s = self.possible(d)
        if s <= frozenset((-1, 0)):
            return x if kind == "min" else y
        if s <= frozenset((1, 0)):
            return y if kind == "min" else x
        if not self.merge:
            c = self.branch(alg.cmp0("le", d))
            return (x if c else y) if kind == "min" else (y if c else x)
        for a in self.atoms:
            if a.kind == "ite" and a.extra.get("kind") == kind:
                p, q = a.extra["xy"]
                if (self.zero(p - x) and self.zero(q - y)) or (self.zero(p - y) and self.zero(q - x)):
                    return Sym({((a.id, 1),): 1})
        r = self.ite_atom(kind, [(alg.cmp0("le", d), x if kind == "min" else y), (True, y if kind == "min" else x)])
        a = self.atoms[-1]
        a.extra["kind"] = kind
        a.extra["xy"] = (x, y)
        for z in (x, y):
            self._setsign(r - z, SIGNS["0-"] if kind == "min" else SIGNS["0+"])
        sx, sy = alg.sign(x), alg.sign(y)
        if sx in ("+", "0+") and sy in ("+", "0+"):
            a.sgn = "+" if sx == sy == "+" or (kind == "max" and "+" in (sx, sy)) else "0+"
            a.nz = a.sgn == "+"
        return r

    def rounded(self, kind, v, unit, lo, hi):
        """v rounded to a multiple of unit: any number within [lo, hi] of v"""
        memo = self.__dict__.setdefault("_rounded", {})
        key = (kind, unit, frozenset(v.num.items()), v.den)
        if key not in memo:
            f = {"round": round, "floor": math.floor, "ceil": math.ceil}[kind]
            r = self.fresh(kind, numeric=lambda: float(unit) * f(self._numeric(v) / float(unit)))
            self.constrain_fresh([r], alg.compare("ge", r - v, Sym.const(lo)))
            self.constrain_fresh([r], alg.compare("le", r - v, Sym.const(hi)))
            memo[key] = r
        return memo[key]

    def relative(self, kind, v, eps, f):
        """v up to a relative error of at most eps, computed by f on numbers"""
        memo = self.__dict__.setdefault("_relative", {})
        key = (kind, frozenset(v.num.items()), v.den)
        if key not in memo:

            def numeric():
                x = self._numeric(v)
                return f(x) / x - 1 if x else 0.0

            d = self.fresh(kind, numeric=numeric)
            self.constrain_fresh([d], alg.compare("ge", d, Sym.const(-eps)))
            self.constrain_fresh([d], alg.compare("le", d, Sym.const(eps)))
            memo[key] = r = v * (1 + d)
            memo[(kind, frozenset(r.num.items()), r.den)] = r
        return memo[key]

    def clipped(self, v, lo, hi):
        """min(max(v, lo), hi) as one piecewise term (merge mode), else None"""
        if not self.merge:
            return None
        v, lo, hi = lift(v), lift(lo), lift(hi)
        if any(isinstance(x, float) for x in (v, lo, hi)):
            return None
        if self.possible(hi - v) <= frozenset((0, 1)) and self.possible(v - lo) <= frozenset((0, 1)):
            return v
        if not self.surely(alg.compare("le", lo, hi)):
            return None
        for a in self.atoms:
            if a.kind == "ite" and a.extra.get("kind") == "clip":
                p, q, r = a.extra["xy"]
                if self.zero(p - v) and self.zero(q - lo) and self.zero(r - hi):
                    return Sym({((a.id, 1),): 1})
        r = self.ite_atom("clip", [(alg.cmp0("lt", v - lo), lo), (alg.cmp0("lt", hi - v), hi), (True, v)])
        a = self.atoms[-1]
        a.extra["kind"] = "clip"
        a.extra["xy"] = (v, lo, hi)
        self._setsign(hi - r, SIGNS["0+"])
        self._setsign(r - lo, SIGNS["0+"])
        s1, s2 = alg.sign(v), alg.sign(hi)
        s3 = alg.sign(lo)
        if s3 == "+" or (s1 == "+" and s2 == "+"):
            a.sgn, a.nz = "+", True
        elif s3 in ("0+", "0") or (s1 in ("+", "0+") and s2 in ("+", "0+")):
            a.sgn = "0+"
        return r

    def surely(self, sb):
        """is sb implied by the path condition?  (no fork)"""
        if not isinstance(sb, SymBool):
            return bool(sb)
        if sb.op in TRUE_SET:
            d, = sb.args
            p = self.possible(d)
            if p <= TRUE_SET[sb.op]:
                return True
            if not (p & TRUE_SET[sb.op]):
                return False
        r, _ = self.solve([(z3.Not(self.zbool(sb)), self.closure_b(sb))], need_model=False)
        return r == "unsat"

    def eig_constraints(self, syms, cons, S, l, Q):
        for s in syms:
            (m, _), = s.num.items()
            a = self.atoms[m[0][0]]
            a.extra["cons"] = list(cons)
        for a in self.atoms:
            a._closure = None

    # ---------------------------------------------------------------- signs
    def _canon(self, d):
        """-> (key, sign multiplier): d up to factors of known strict sign"""
        n = d.num
        sg = 1
        c0 = alg._pcontent(n)
        strip = []
        for i, e in c0:
            a = self.atoms[i]
            if a.sgn == "+" or (e % 2 == 0 and a.nz):
                strip.append((i, -e))
            elif a.sgn == "-":
                strip.append((i, -e))
                if e % 2:
                    sg = -sg
            elif e > 2 or e < -1:
                # keep the parity only
                k = (e - (2 - e % 2)) if e > 0 else e + (-e // 2) * 2 - e
                if e > 0 and k:
                    strip.append((i, -k))
        if strip and len(n) == 1 and len(strip) == len(c0) and all(-k == dict(c0)[i] for i, k in strip):
            strip = []  # a monomial of known sign: keep as is
            sg = 1
        if strip:
            n = alg.pmulm(n, tuple(sorted(strip)))
        den = []
        for i, e in d.den:
            a = self.atoms[i]
            if a.sgn == "+" or e % 2 == 0:
                continue
            if a.sgn == "-":
                sg = -sg
                continue
            den.append((i, 1))
        key, s2 = self._canon0(n, tuple(den))
        return key, s2 * sg

    def _canon0(self, n, den):
        l = alg.lead(n)
        c = n[l]
        s = 1 if c > 0 else -1
        if c != 1:
            n = alg.pscale(n, Fraction(1) / c)
        return (frozenset(n.items()), den), s

    def match(self, d):
        """sign set of d from a literal that equals +-d modulo the definitions"""
        x = self.numeric(d)
        if x != x:
            return None
        best = None
        for L, ss in self.lits:
            if L.is_const():
                continue
            y = self.numeric(L)
            if y != y:
                continue
            for s in (1, -1):
                if abs(x - s * y) <= 1e-9 * (abs(x) + abs(y)) and x != 0:
                    try:
                        if self.zero(d - L if s == 1 else d + L):
                            r = ss if s == 1 else _flipset(ss)
                            best = r if best is None else best & r
                    except TooBig:
                        pass
        if best is None:
            k = self._reduced_key(d)
            if k is not None:
                for L, ss in self.lits:
                    if L.is_const():
                        continue
                    c = self._lit_keys.get(id(L))
                    if c is None or c[0] is not L:
                        c = self._lit_keys[id(L)] = (L, self._reduced_key(L))
                    if c[1] is not None and c[1][0] == k[0]:
                        r = ss if c[1][1] == k[1] else _flipset(ss)
                        best = r if best is None else best & r
        return best

    def _reduced_key(self, d):
        """key and sign of d after eliminating roots, up to factors of known
        strict sign; None when a sign is not known"""
        sg = 1
        num = d.num
        try:
            for _ in range(200):
                strip = []
                for i, e in alg._pcontent(num):
                    a = self.atoms[i]
                    if a.sgn == "+" or (a.kind == "sqrt" and e < 0):
                        strip.append((i, e))
                    elif a.sgn == "-":
                        strip.append((i, e))
                        if e % 2:
                            sg = -sg
                    elif e < 0 or e > 1:
                        k = e - (e % 2)
                        if k and (e < 0 or a.nz):
                            strip.append((i, k))
                if strip:
                    num = alg.pmulm(num, alg.minv(tuple(sorted(strip))))
                best = None
                for m in num:
                    for i, e in m:
                        if e >= 2 and self.atoms[i].kind == "sqrt" and (best is None or i > best):
                            best = i
                if best is None:
                    break
                arg = self.atoms[best].arg
                B = {(): 1}
                for i, e in arg.den:
                    B = alg.pmul(B, alg.ppow(self.atoms[i].arg, e))
                groups, kmax = {}, 0
                for m, cc in num.items():
                    e = dict(m).get(best, 0)
                    k = e // 2
                    groups.setdefault(k, {})[tuple((i, (x if i != best else x - 2 * k)) for i, x in m if i != best or x - 2 * k)] = cc
                    kmax = max(kmax, k)
                if arg.den:
                    ds = alg.den_sign(arg.den)
                    if ds is None:
                        return None
                    if ds < 0 and kmax % 2:
                        sg = -sg
                num = {}
                for k, t in groups.items():
                    if k:
                        t = alg.pmul(t, alg.ppow(arg.num, k))
                    if kmax - k and B != {(): 1}:
                        t = alg.pmul(t, alg.ppow(B, kmax - k))
                    num = alg.padd(num, t)
                if not num:
                    return None
            else:
                return None
        except TooBig:
            return None
        den = []
        for i, e in d.den:
            a = self.atoms[i]
            if e % 2 == 0 or a.sgn == "+":
                continue
            if a.sgn == "-":
                sg = -sg
                continue
            den.append(i)
        key, s2 = self._canon0(num, tuple(den))
        return key, sg * s2

    def possible(self, d):
        if not d.num:
            return SIGNS["0"]
        if d.is_const():
            return SIGNS["+"] if d.cval() > 0 else SIGNS["-"]
        key, s = self._canon(d)
        st = alg.poly_sign(d.num)
        base = ALL
        if st is not None:
            ds = alg.den_sign(d.den)
            if ds is not None:
                base = SIGNS[st] if ds > 0 else _flipset(SIGNS[st])
        k = self.signs.get(key)
        if k is not None:
            base = base & (k if s > 0 else _flipset(k))
        return base

    def known_sign(self, v):
        if not self.signs:
            return None
        if v.is_const():
            return "+" if v.cval() > 0 else "-"
        key, s = self._canon(v)
        k = self.signs.get(key)
        if k is None:
            return None
        return NAMES.get(k if s > 0 else _flipset(k))

    def mark_sign(self, v, s):
        self._setsign(v, SIGNS[s])

    def _setsign(self, d, ss):
        if d.is_const():
            return
        key, s = self._canon(d)
        k = ss if s > 0 else _flipset(ss)
        o = self.signs.get(key)
        self.signs[key] = k if o is None else (o & k)
        # single-atom monomials: remember on the atom
        if len(d.num) == 1 and not d.den:
            (m, c), = d.num.items()
            if len(m) == 1 and m[0][1] == 1:
                a = self.atoms[m[0][0]]
                q = self.signs[key] if True else None
                cur = SIGNS.get(a.sgn, ALL)
                new = cur & (self.signs[key])  # key is normalised with +1 lead
                if new in NAMES:
                    a.sgn = NAMES[new]
                    a.nz = a.nz or 0 not in new
                elif new == NZ:
                    a.nz = True
        if self.signs[key] == SIGNS["0"]:
            self._zero_propagate(d)

    def _zero_propagate(self, d):
        """d == 0 where all terms have one sign: every term is zero."""
        if alg.poly_sign(d.num) not in ("0+", "0-", "+", "-"):
            return
        for m, c in d.num.items():
            live = [i for i, e in m if not (self.atoms[i].nz or e < 0)]
            if len(live) == 1:
                a = self.atoms[live[0]]
                x = Sym({((a.id, 1),): 1})
                if self.possible(x) != SIGNS["0"]:
                    self.signs[self._canon(x)[0]] = SIGNS["0"]
                    a.sgn = None
                    self.zero_sub[a.id] = True
                    if a.kind == "sqrt" and a.arg.num:
                        self._setsign(a.arg, SIGNS["0"])

    # ------------------------------------------------------------ branching
    def assume(self, sb):
        if isinstance(sb, SymBool):
            if sb.op == "and":
                for x in sb.args:
                    self.assume(x)
                return
            if sb.op in TRUE_SET:
                d, = sb.args
                self._lit(d, TRUE_SET[sb.op])
                return
            if sb.op == "not" and isinstance(sb.args[0], SymBool) and sb.args[0].op == "eq":
                self._lit(sb.args[0].args[0], NZ)
                return
            self.extra.append((self.zbool(sb), self.closure_b(sb)))
            self.__dict__.setdefault("bools", []).append(sb)
            return
        if not sb:
            raise PathDead()

    def _lit(self, d, ss):
        ss = ss & self.possible(d)
        if not ss:
            raise PathDead()
        self.lits.append((d, ss))
        self._setsign(d, ss)
        STATS.max_pc = max(STATS.max_pc, len(self.lits))

    def nonzero(self, b):
        p = self.possible(b)
        if 0 not in p:
            return True
        return not self.branch(SymBool("eq", (b,)))

    def branch(self, sb):
        if not isinstance(sb, SymBool):
            return bool(sb)
        if sb.op == "and":
            return all(self.branch(x) for x in sb.args)
        if sb.op == "or":
            return any(self.branch(x) for x in sb.args)
        if sb.op == "not":
            return not self.branch(sb.args[0])
        d, = sb.args
        p = self.possible(d)
        T = p & TRUE_SET[sb.op]
        F = p - TRUE_SET[sb.op]
        if not F:
            return True
        if not T:
            return False
        if self.zero_sub and 0 in p:
            d2 = self.subst_zero(d)
            if d2.is_const() or d2.num != d.num:
                r = alg.cmp0(sb.op, d2)
                if not isinstance(r, SymBool):
                    self._setsign(d, T if r else F)
                    return r
        ms = self.match(d)
        if ms is not None:
            self._setsign(d, ms)
            p = p & ms
            T, F = p & TRUE_SET[sb.op], p - TRUE_SET[sb.op]
            if not F:
                return True
            if not T:
                return False
        STATS.branches += 1
        k = len(self.decisions)
        if k < len(self.prefix):
            r = self.prefix[k]
        else:
            if Engine.current and time.time() > Engine.current.deadline:
                raise Budget("deadline")
            side = self.sample_side(d, T)
            if side is None:
                ft = self.feasible(d, T)
                if ft is False:
                    r, other = False, None
                else:
                    ff = self.feasible(d, F)
                    if ff is False:
                        r, other = True, None
                    else:
                        r, other = True, False
            else:
                o = self.feasible(d, F if side else T)
                r, other = side, (None if o is False else not side)
            if other is not None:
                self.pending.append(self.decisions + [(other, True)])
                forced = False
            else:
                forced = True
            r = (r, not forced)
        self.decisions.append(r)
        val, real = r
        self._lit_noprop(d, T if val else F, real)
        return val

    def sample_side(self, d, T):
        """the current sample satisfies the path condition so far: the side of
        the branch it takes is feasible without asking the solver"""
        if not self.sample_valid():
            return None
        x, scale = self._eval_poly(d.num)
        if x != x or not abs(x) > 1e-6 * scale:
            return None
        try:
            v = self.numeric(d)
        except (ZeroDivisionError, OverflowError):
            return None
        if v != v or v == 0:
            return None
        return (1 if v > 0 else -1) in T

    def sample_valid(self):
        n = len(self.lits)
        k = self.__dict__.get("_sv", 0)
        if k < 0:
            return False
        if self.extra and self.__dict__.get("_sve") != len(self.extra):
            for i, a in enumerate(self.atoms):
                pass
            for z in self.__dict__.get("bools", ()):
                if not self.numeric_bool(z):
                    self._sv = -1
                    return False
            self._sve = len(self.extra)
        while k < n:
            d, ss = self.lits[k]
            x, scale = self._eval_poly(d.num)
            v = self.numeric(d)
            if v != v:
                self._sv = -1
                return False
            sg = 0 if abs(x) <= 1e-9 * scale else (1 if v > 0 else -1)
            if sg not in ss:
                self._sv = -1
                return False
            k += 1
        self._sv = k
        return True

    def _lit_noprop(self, d, ss, real):
        if real:
            self.lits.append((d, ss))
        self._setsign(d, ss)
        STATS.max_pc = max(STATS.max_pc, len(self.lits))

    def feasible(self, d, ss):
        """True / False / None(unknown -> treated feasible)"""
        q = self.zsign(d, ss)
        r, _ = self.solve([(q, self.closure(d))], need_model=False, timeout=self.feas_timeout, quick=True)
        if r == "unsat":
            return False
        if os.environ.get("SYMEX_DEBUG"):
            import traceback

            fr = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_stack()[:-2] if "/repo" in f.filename or "/checks" in f.filename or "/m/" in f.filename]
            print("BR", len(self.decisions), r, sorted(ss), len(d.num), alg.show(d, 3)[:160], fr[-3:], file=sys.stderr, flush=True)
        if r == "unknown":
            STATS.unknown_feasible += 1
            return None
        return True

    # ------------------------------------------------------- zero reduction
    def subst_zero(self, v):
        if not self.zero_sub:
            return v
        num = {}
        for m, c in v.num.items():
            if any(i in self.zero_sub and e > 0 for i, e in m):
                continue
            num[m] = c
        if len(num) == len(v.num):
            return v
        return Sym(num, v.den)

    def zero(self, v, limit=None):
        """True if v is identically zero modulo the atoms' definitions (normal form)."""
        if not v.num:
            return True
        if v.is_const():
            return False
        v = self.subst_zero(v)
        if not v.num:
            return True
        x, scale = self._eval_poly(v.num)
        if x == x and scale == scale and abs(x) > 1e-6 * scale and scale > 0:
            return False
        try:
            n = self.reduce(v.num)
        except TooBig:
            return False
        return not n

    def reduce(self, num):
        """clear negative exponents and eliminate even powers of roots."""
        for _ in range(200):
            c = tuple((i, e) for i, e in alg._pcontent(num) if e < 0 or self.atoms[i].nz or self.atoms[i].sgn in ("+", "-"))
            if c:
                num = alg.pmulm(num, alg.minv(c))
            best = None
            for m in num:
                for i, e in m:
                    if e >= 2 and self.atoms[i].kind == "sqrt":
                        if best is None or i > best:
                            best = i
            if best is None:
                return num
            arg = self.atoms[best].arg
            A = arg.num
            B = {(): 1}
            for i, e in arg.den:
                B = alg.pmul(B, alg.ppow(self.atoms[i].arg, e))
            groups = {}
            kmax = 0
            for m, cc in num.items():
                e = dict(m).get(best, 0)
                k = e // 2
                rest = tuple((i, (x if i != best else x - 2 * k)) for i, x in m if i != best or x - 2 * k)
                groups.setdefault(k, {})[rest] = cc
                kmax = max(kmax, k)
            tot = {}
            for k, p in groups.items():
                t = p
                if k:
                    t = alg.pmul(t, alg.ppow(A, k))
                if kmax - k and B != {(): 1}:
                    t = alg.pmul(t, alg.ppow(B, kmax - k))
                tot = alg.padd(tot, t)
            num = tot
            if not num:
                return num
        raise TooBig("reduction did not terminate")

    # -------------------------------------------------------------- numeric
    def atom_value(self, i):
        v = self._vals.get(i)
        if v is not None:
            return v
        a = self.atoms[i]
        self._vals[i] = math.nan
        try:
            if a.kind == "var":
                v = float(self.sample[i])
            elif a.kind == "sqrt":
                x = self._numeric(a.arg)
                v = math.sqrt(x) if x >= 0 else math.nan
            elif a.kind == "den":
                v = self._eval_poly(a.arg)[0]
            elif a.kind == "exp":
                v = math.exp(self._numeric(a.arg))
            elif a.kind == "log":
                x = self._numeric(a.arg)
                v = math.log(x) if x > 0 else math.nan
            elif a.kind == "ite":
                v = math.nan
                for g, val in a.extra["cases"]:
                    if g is True or self.numeric_bool(g):
                        v = self._numeric(val)
                        break
            elif a.kind == "fresh":
                f = a.extra["numeric"]
                v = float(f()) if f else float(self.sample[i])
        except (OverflowError, ValueError, ZeroDivisionError):
            v = math.nan
        self._vals[i] = v
        return v

    @property
    def _vals(self):
        d = self.__dict__.get("_valcache")
        if d is None:
            d = self.__dict__["_valcache"] = {}
        return d

    def reset_numeric(self):
        self.__dict__["_valcache"] = {}

    def _eval_poly(self, p):
        t = 0.0
        s = 0.0
        for m, c in p.items():
            try:
                x = float(c)
            except OverflowError:
                return math.nan, math.nan
            for i, e in m:
                y = self.atom_value(i)
                try:
                    x *= y**e
                except (ZeroDivisionError, OverflowError):
                    return math.nan, math.nan
            t += x
            s += abs(x)
        return t, s

    def _numeric(self, v):
        t, _ = self._eval_poly(v.num)
        for i, e in v.den:
            y = self.atom_value(i)
            if y == 0:
                return math.nan
            t /= y**e
        return t

    def numeric(self, v):
        v = lift(v)
        if isinstance(v, float):
            return v
        return self._numeric(v)

    def numeric_bool(self, sb):
        if not isinstance(sb, SymBool):
            return bool(sb)
        if sb.op == "and":
            return all(self.numeric_bool(x) for x in sb.args)
        if sb.op == "or":
            return any(self.numeric_bool(x) for x in sb.args)
        if sb.op == "not":
            return not self.numeric_bool(sb.args[0])
        x = self.numeric(sb.args[0])
        return {"lt": x < 0, "le": x <= 0, "eq": abs(x) < 1e-12}[sb.op]

    def sample_ok(self):
        """does the current sample satisfy the path condition (numerically)?"""
        for sb in self.__dict__.get("bools", ()):
            if not self.numeric_bool(sb):
                return False
        for d, ss in self.lits:
            x = self.numeric(d)
            if x != x:
                return False
            s = 1 if x > 0 else -1 if x < 0 else 0
            if s in ss and abs(x) >= 1e-12:
                continue
            if abs(x) < 1e-12 and 0 in ss:
                continue
            if s == 0 or s not in ss or abs(x) < 1e-11 * abs(self._scale(d)):
                return False
        return True

    def _scale(self, v):
        """size of the terms cancelling in v"""
        _, t = self._eval_poly(v.num)
        for i, e in v.den:
            t /= self.atom_value(i) ** e
        return t

    # ------------------------------------------------------------------ z3
    def zvar(self, i):
        v = self.z3vars.get(i)
        if v is None:
            v = self.z3vars[i] = z3.Real(f"{self.atoms[i].name}_{i}")
        return v

    def zpoly(self, p):
        key = frozenset(p.items())
        r = self.z3polys.get(key)
        if r is not None:
            return r
        ts = []
        for m, c in p.items():
            fs = []
            for i, e in m:
                v = self.zvar(i)
                fs.extend([v] * e) if e <= 3 else fs.append(v**e)
            c = Fraction(c)
            if c != 1 or not fs:
                fs.insert(0, z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t)
        r = ts[0] if len(ts) == 1 else (z3.Sum(ts) if ts else z3.RealVal(0))
        self.z3polys[key] = r
        return r

    def cleared(self, d, signed=True):
        """polynomial with the same sign as d (or the same zero set)."""
        c = alg._pcontent(d.num)
        mult = []
        for i, e in c:
            if e < 0:
                k = -e
                if signed and k % 2 and self.atoms[i].sgn not in ("+", "0+"):
                    k += 1
                mult.append((i, k))
        p = alg.pmulm(d.num, tuple(mult)) if mult else d.num
        return p

    def zsigned(self, d):
        """(z3 term with the sign of d)"""
        t = self.zpoly(self.cleared(d))
        for i, e in d.den:
            if e % 2:
                a = self.atoms[i]
                if a.sgn == "+":
                    continue
                if a.sgn == "-":
                    t = -t
                    continue
                t = t * self.zpoly(a.arg)
        return t

    def zsign(self, d, ss):
        if ss == SIGNS["0"]:
            return self.zpoly(self.cleared(d, False)) == 0
        if ss == NZ:
            return self.zpoly(self.cleared(d, False)) != 0
        t = self.zsigned(d)
        if ss == SIGNS["+"]:
            return t > 0
        if ss == SIGNS["-"]:
            return t < 0
        if ss == SIGNS["0+"]:
            return t >= 0
        if ss == SIGNS["0-"]:
            return t <= 0
        if not ss:
            return z3.BoolVal(False)
        return z3.BoolVal(True)

    def zbool(self, sb):
        if not isinstance(sb, SymBool):
            return z3.BoolVal(bool(sb))
        if sb.op == "and":
            return z3.And([self.zbool(x) for x in sb.args])
        if sb.op == "or":
            return z3.Or([self.zbool(x) for x in sb.args])
        if sb.op == "not":
            return z3.Not(self.zbool(sb.args[0]))
        return self.zsign(sb.args[0], TRUE_SET[sb.op])

    # closures: all atoms a term depends on, through definitions
    def closure(self, d):
        s = set()
        for m in d.num:
            for i, _ in m:
                s |= self.aclosure(i)
        for i, _ in d.den:
            s |= self.aclosure(i)
        return frozenset(s)

    def closure_b(self, sb):
        if not isinstance(sb, SymBool):
            return frozenset()
        if sb.op in ("and", "or", "not"):
            r = frozenset()
            for x in sb.args:
                r |= self.closure_b(x)
            return r
        return self.closure(sb.args[0])

    def aclosure(self, i):
        a = self.atoms[i]
        if a._closure is not None:
            return a._closure
        a._closure = frozenset((i,))  # guards against cycles
        s = {i}
        if a.kind in ("sqrt", "exp", "log"):
            if not (a.kind == "exp" and a.dom):
                s |= self.closure(a.arg)
        elif a.kind == "den":
            s |= self.closure(Sym(a.arg))
        elif a.kind == "ite":
            for g, v in a.extra["cases"]:
                s |= self.closure_b(g) | self.closure(v)
        elif a.kind == "fresh":
            for sb in a.extra["cons"]:
                s |= self.closure_b(sb)
        a._closure = frozenset(s)
        return a._closure

    def definitions(self, ids):
        out = []
        for i in ids:
            a = self.atoms[i]
            v = self.zvar(i)
            if a.kind in ("var", "fresh"):
                if a.sgn == "+":
                    out.append(v > 0)
                elif a.sgn == "0+":
                    out.append(v >= 0)
                elif a.sgn == "-":
                    out.append(v < 0)
                elif a.sgn == "0-":
                    out.append(v <= 0)
                elif a.nz:
                    out.append(v != 0)
                if a.kind == "fresh":
                    for sb in a.extra["cons"]:
                        out.append(self.zbool(sb))
            elif a.kind == "sqrt":
                out.append(v > 0 if a.sgn == "+" else v >= 0)
                c = alg._pcontent(a.arg.num)
                mult = tuple((j, -e) for j, e in c if e < 0)
                A = alg.pmulm(a.arg.num, mult) if mult else a.arg.num
                B = self.zpoly({mult: 1}) if mult else None
                for j, e in a.arg.den:
                    t = self.zpoly(self.atoms[j].arg)
                    for _ in range(e):
                        B = t if B is None else B * t
                lhs = v * v if B is None else v * v * B
                out.append(lhs == self.zpoly(A))
            elif a.kind == "exp":
                out.append(v > 0)
                if a.dom == "lt1":
                    out.append(v < 1)
                elif a.dom == "le1":
                    out.append(v <= 1)
                elif a.dom == "gt1":
                    out.append(v > 1)
                elif a.dom == "ge1":
                    out.append(v >= 1)
                else:
                    t = self.zsigned(a.arg)
                    out.append(z3.And(z3.Implies(t < 0, v < 1), z3.Implies(t > 0, v > 1), z3.Implies(t == 0, v == 1)))
            elif a.kind == "log":
                t = self.zsigned(a.arg - 1)
                out.append(z3.And(z3.Implies(t < 0, v < 0), z3.Implies(t > 0, v > 0), z3.Implies(t == 0, v == 0)))
            elif a.kind == "ite":
                prev = []
                for g, val in a.extra["cases"]:
                    zg = self.zbool(g) if g is not True else z3.BoolVal(True)
                    d = Sym({((i, 1),): 1}) - val
                    out.append(z3.Implies(z3.And(prev + [zg]), self.zsign(d, SIGNS["0"])))
                    prev = prev + [z3.Not(zg)]
        # monotonicity between exponentials/logs that occur together
        return out

    def solve(self, goals, need_model=True, pins=None, timeout=None, all_pc=False, quick=False):
        """goals: list of (z3 expr, closure).  Adds the relevant part of the path
        condition and the atoms' definitions.  -> (status, model)"""
        ids = set()
        cons = []
        for g, c in goals:
            cons.append(g)
            ids |= c
        pool = [(d, ss, self.closure(d)) for d, ss in self.lits]
        ext = list(self.extra)
        # definitions' nonzero side conditions are part of the lits
        used = [False] * len(pool)
        usede = [False] * len(ext)
        changed = True
        while changed:
            changed = False
            for k, (d, ss, c) in enumerate(pool):
                if not used[k] and (all_pc or c & ids):
                    used[k] = True
                    cons.append(self.zsign(d, ss))
                    if not c <= ids:
                        ids |= c
                        changed = True
            for k, (z, c) in enumerate(ext):
                if not usede[k] and (all_pc or c & ids):
                    usede[k] = True
                    cons.append(z)
                    if not c <= ids:
                        ids |= c
                        changed = True
        cons += self.definitions(sorted(ids))
        if pins:
            for i in ids:
                if i in pins:
                    p = Fraction(pins[i])
                    cons.append(self.zvar(i) == z3.Q(p.numerator, p.denominator))
        return run_solver(cons, timeout or self.timeout, need_model, quick)

    def model_inputs(self, model):
        """values of the named inputs under a z3 model (defaults: sample)."""
        out = {}
        for name, i in self.vars.items():
            v = None
            if model is not None:
                v = model.eval(self.zvar(i), model_completion=False)
                v = zval(v)
            if v is None:
                v = self.sample[i]
            out[name] = float(v)
        for name, (hi, bi) in self.hl.items():
            v = None
            if model is not None and bi < len(self.atoms):
                v = zval(model.eval(self.zvar(bi), model_completion=False))
            hv = zval(model.eval(self.zvar(hi), model_completion=False)) if model is not None else None
            if hv is None and v is not None and 0 < v < 1:
                out[name] = -math.log(2) / math.log(float(v))
        return out

    def concretize_int(self, s):
        if s.is_const():
            c = s.cval()
            if isinstance(c, int):
                return c
            raise TypeError("not an integer")
        if len(s.num) <= 2 and not s.den:
            for m in s.num:
                if len(m) == 1 and m[0][1] == 1:
                    a = self.atoms[m[0][0]]
                    if a.dom and a.kind == "var" and isinstance(a.dom, (list, tuple, range)):
                        x = Sym({m: 1})
                        c0 = s.num.get((), 0)
                        for v in a.dom:
                            if self.branch(alg.cmp0("eq", x - v)) if not isinstance(alg.cmp0("eq", x - v), bool) else alg.cmp0("eq", x - v):
                                r = v * s.num[m] + c0
                                return int(r)
                        raise PathDead()
        raise TypeError("symbolic value used as an index")

    def concretize_const(self, s):
        return None

    def forced_value(self, i):
        """value a finite-domain input is fixed to on this path, if any"""
        for d, ss in self.lits:
            if ss == SIGNS["0"] and not d.den and len(d.num) <= 2:
                ms = [m for m in d.num if m]
                if len(ms) == 1 and ms[0] == ((i, 1),):
                    return -Fraction(d.num.get((), 0)) / d.num[ms[0]]
        return None

    def sign_saturate(self, goal, clo):
        return False


def zval(v):
    if v is None:
        return None
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def run_solver(cons, timeout, need_model=True, quick=False):
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout))
    s.add(*cons)
    try:
        r = s.check()
    except z3.Z3Exception as e:
        r = z3.unknown
    res = str(r)
    model = None
    if res == "sat" and need_model:
        model = s.model()
    if res == "unknown" and not quick:
        try:
            t = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "qfnra-nlsat")
            s2 = t.solver()
            s2.set("timeout", int(timeout))
            s2.add(*cons)
            res = str(s2.check())
            if res == "sat" and need_model:
                model = s2.model()
        except z3.Z3Exception:
            res = "unknown"
    if res == "unknown" and not quick:
        c = _cvc5(s, timeout)
        if c == "unsat" or (c == "sat" and not need_model):
            res = c
            STATS.cvc5 += 1
    STATS.solver_s += time.time() - t0
    if res == "sat":
        STATS.q_sat += 1
    elif res == "unsat":
        STATS.q_unsat += 1
    else:
        STATS.q_unknown += 1
    return res, model


def _cvc5(solver, timeout):
    try:
        txt = "(set-logic QF_NRA)\n" + solver.to_smt2()
        p = subprocess.run(
            ["cvc5", f"--tlimit={int(timeout)}", "--lang=smt2", "-"],
            input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5,
        )
        out = p.stdout.strip().splitlines()
        if "(error" in p.stdout or "(error" in p.stderr:
            return "unknown"
        return out[-1] if out and out[-1] in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"


class Engine:
    """Explores all feasible paths of harness(path)."""

    current = None

    def __init__(self, max_paths=400, budget=600, timeout=8000, merge=False, seed=0):
        self.max_paths = max_paths
        self.budget = budget
        self.timeout = timeout
        self.merge = merge
        self.seed = seed
        self.deadline = time.time() + budget

    def explore(self, fn, on_path=None):
        stack = [[]]
        n = 0
        Engine.current = self
        try:
            while stack:
                prefix = stack.pop()
                if n >= self.max_paths:
                    raise Budget(f"more than {self.max_paths} paths")
                if time.time() > self.deadline:
                    raise Budget("time budget exhausted")
                p = Path(prefix, timeout=self.timeout, merge=self.merge, seed=self.seed)
                alg.CTX = p
                n += 1
                STATS.paths += 1
                try:
                    fn(p)
                except PathDead:
                    STATS.infeasible += 1
                finally:
                    stack.extend(p.pending)
                if on_path:
                    on_path(p)
        finally:
            Engine.current = None
        return n
