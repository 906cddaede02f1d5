"""Symbolic real scalars: exact Laurent-polynomial algebra over 'atoms'.

A value is  num / prod(d^e)  where num is a Laurent polynomial (rational
coefficients, integer exponents of either sign) over atoms, and the d are
'den' atoms, i.e. names for multi-term polynomials that were divided by.
Atoms: input variables, square roots, exp/log terms, fresh stub results,
piecewise (clip/abs/min/max) terms.  The algebra only *normalises*; whether an
assertion holds is decided by the SMT solver (engine.py).
"""
from __future__ import annotations

import math
from fractions import Fraction


class Unsupported(Exception):
    """The engine cannot encode an operation the code performs."""


class TooBig(Exception):
    pass


TOL = Fraction(1, 10**12)
MAX_TERMS = 60000

CTX = None  # the active engine.Path (set by the engine)


# ------------------------------------------------------------- coefficients
def coef(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    f = float(x)
    if f != f or f in (math.inf, -math.inf):
        raise Unsupported("non-finite coefficient")
    if f == int(f) and abs(f) < 2**53:
        return int(f)
    q = Fraction(f)
    g = q.limit_denominator(10**6)
    if g and abs(g - q) <= abs(q) * Fraction(1, 10**15):
        q = g
    return q


def rnd(c):
    """bound the size of rational coefficients (240 significant bits)"""
    if type(c) is int:
        return c
    n, d = c.numerator, c.denominator
    if d == 1:
        return n
    bn, bd = n.bit_length(), d.bit_length()
    if bn + bd <= 900:
        return c
    k = 240 - (bn - bd)
    if k >= 0:
        return Fraction((n << k) // d, 1 << k)
    return (n // (d << -k)) << -k


# ------------------------------------------------------------- monomials
_mm_cache = {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mm_cache.get(k)
    if r is not None:
        return r
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    r = tuple(out)
    if len(_mm_cache) > 400000:
        _mm_cache.clear()
    _mm_cache[k] = r
    return r


def minv(a):
    return tuple((i, -e) for i, e in a)


def mpow(a, k):
    return tuple((i, e * k) for i, e in a) if k else ()


# ------------------------------------------------------------- polynomials
def _merge(c, d):
    s = c + d
    if not s:
        return 0
    if type(s) is not int and abs(s) <= TOL * max(abs(c), abs(d)):
        return 0
    return rnd(s)


def padd(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            s = _merge(o, c)
            if s:
                r[m] = s
            else:
                del r[m]
    return r


def pscale(p, c):
    if c == 1:
        return p
    if c == 0:
        return {}
    out = {}
    for m, v in p.items():
        out[m] = rnd(v * c)
    return out


def pmulm(p, m, c=1):
    if not m and c == 1:
        return p
    return {mmul(k, m): v for k, v in pscale(p, c).items()}


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > 40 * MAX_TERMS:
        raise TooBig("polynomial product too large")
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = c * d
            o = r.get(k)
            if o is None:
                r[k] = v
            else:
                s = _merge(o, v)
                if s:
                    r[k] = s
                else:
                    del r[k]
    if len(r) > MAX_TERMS:
        raise TooBig("polynomial too large")
    for m, v in r.items():
        if type(v) is Fraction:
            r[m] = rnd(v)
    return r


def ppow(p, k):
    r = {(): 1}
    while k:
        if k & 1:
            r = pmul(r, p)
        k >>= 1
        if k:
            p = pmul(p, p)
    return r


def pcontent(p):
    """Monomial content: exponentwise minimum (missing counts as 0)."""
    it = iter(p)
    try:
        first = next(it)
    except StopIteration:
        return ()
    cur = dict(first)
    for m in it:
        if not cur:
            # negative exponents may still appear
            pass
        d = dict(m)
        for i in list(cur):
            e = d.get(i, 0)
            if e < cur[i]:
                if e == 0 and cur[i] > 0:
                    del cur[i]
                else:
                    cur[i] = e
        for i, e in d.items():
            if i not in cur and e < 0:
                cur[i] = e
    return tuple(sorted((i, e) for i, e in cur.items() if e))


def _pcontent(p):
    ids = set()
    for m in p:
        for i, _ in m:
            ids.add(i)
    out = {}
    for i in ids:
        out[i] = None
    for m in p:
        d = dict(m)
        for i in ids:
            e = d.get(i, 0)
            if out[i] is None or e < out[i]:
                out[i] = e
    return tuple(sorted((i, e) for i, e in out.items() if e))


def lead(p):
    """Canonical leading term under lex on sparse monomials."""
    return max(p, key=lambda m: _lexkey(m))


def _lexkey(m):
    # only used for choosing a canonical scaling term
    return (sum(e for _, e in m), m)


def pdiv_exact(p, d):
    """Exact division of p by d (no monomial content in d); None if inexact."""
    if not p:
        return {}
    if len(d) == 1:
        (m, c), = d.items()
        return pmulm(p, minv(m), Fraction(1) / c)
    if len(p) < 2:
        return None
    c0 = _pcontent(p)
    if c0:
        p = pmulm(p, minv(c0))
    ids = sorted({i for m in d for i, _ in m})
    idx = {i: k for k, i in enumerate(ids)}
    n = len(ids)

    def split(m):
        v = [0] * n
        rest = []
        for i, e in m:
            k = idx.get(i)
            if k is None:
                rest.append((i, e))
            else:
                v[k] = e
        return tuple(v), tuple(rest)

    dd = {}
    for m, c in d.items():
        v, rest = split(m)
        dd[v] = c
    dl = max(dd)
    dt = min(dd)
    dlc = dd[dl]
    # group p by the rest-monomials (coefficients outside the divisor's atoms)
    groups = {}
    for m, c in p.items():
        v, rest = split(m)
        groups.setdefault(rest, {})[v] = c
    # total degree bound per group (quick reject on leading and trailing terms)
    for g in groups.values():
        gl, gt = max(g), min(g)
        if any(a < b for a, b in zip(gl, dl)) or any(a < b for a, b in zip(gt, dt)):
            return None
    out = {}
    ditems = list(dd.items())
    for rest, g in groups.items():
        g = dict(g)
        steps = 0
        while g:
            gl = max(g)
            qv = tuple(a - b for a, b in zip(gl, dl))
            if min(qv, default=0) < 0:
                return None
            qc = Fraction(g[gl]) / dlc
            if qc.denominator == 1:
                qc = qc.numerator
            for v, c in ditems:
                k = tuple(a + b for a, b in zip(qv, v))
                o = g.get(k, 0)
                x = qc * c
                s = _merge(o, -x) if o else -x
                if s:
                    g[k] = s
                else:
                    g.pop(k, None)
            g.pop(gl, None)
            mono = tuple(sorted([(ids[k], e) for k, e in enumerate(qv) if e] + list(rest)))
            out[mono] = qc
            steps += 1
            if steps > 4000:
                return None
    if c0:
        out = pmulm(out, c0)
    return out


# ------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "name", "kind", "arg", "sgn", "nz", "extra", "_closure", "dom")

    def __init__(self, id, name, kind, arg=None, sgn=None, nz=False, extra=None):
        self.id = id
        self.name = name
        self.kind = kind  # var | sqrt | den | exp | log | ite | fresh
        self.arg = arg
        self.sgn = sgn    # '+', '0+', '-', '0-', None
        self.nz = nz
        self.extra = extra
        self._closure = None
        self.dom = None


def term_sign(m, c):
    """(sign, strict) of a monomial term or None."""
    s = 1 if c > 0 else -1
    strict = True
    for i, e in m:
        a = CTX.atoms[i]
        if e % 2:
            if a.sgn in ("+", "0+"):
                pass
            elif a.sgn in ("-", "0-"):
                s = -s
            else:
                return None
        if not (a.nz or a.sgn in ("+", "-") or e < 0):
            strict = False
    return s, strict


def poly_sign(p):
    """'+','0+','-','0-' or None from term signs alone."""
    if not p:
        return "0"
    sg = 0
    strict = False
    for m, c in p.items():
        t = term_sign(m, c)
        if t is None:
            return None
        if sg == 0:
            sg = t[0]
        elif sg != t[0]:
            return None
        strict = strict or t[1]
    if sg > 0:
        return "+" if strict else "0+"
    return "-" if strict else "0-"


def _flip(s):
    return {"+": "-", "-": "+", "0+": "0-", "0-": "0+", None: None, "0": "0"}[s]


# ------------------------------------------------------------- scalars
FORMATTED = []


class Sym:
    __slots__ = ("num", "den", "_num", "_ep")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den
        self._num = None
        self._ep = -1

    # -- construction
    @staticmethod
    def const(c):
        c = coef(c)
        return Sym({(): c} if c else {})

    def is_const(self):
        return not self.den and (not self.num or (len(self.num) == 1 and () in self.num))

    def cval(self):
        return self.num.get((), 0) if self.num else 0

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented or isinstance(o, float):
            return o
        return add(self, o)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.num.items()}, self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return -o
        return add(self, -o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented or isinstance(o, float):
            return o
        return add(o, -self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return _inf_mul(self, o)
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o if o != o else Sym({})
        return div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        if isinstance(o, float):
            return o if o != o else _inf_mul(self, o)
        return div(o, self)

    def __pow__(self, k):
        if isinstance(k, Sym):
            if k.is_const():
                k = k.cval()
            else:
                return spow(self, k)
        if _isarr(k):
            return NotImplemented
        k = coef(k) if not (isinstance(k, float) and k != k) else k
        if isinstance(k, float):
            return k
        if isinstance(k, int):
            if k >= 0:
                return power(self, k)
            return div(ONE, power(self, -k))
        if k.denominator == 2:
            r = power(sqrt(self), abs(k.numerator)) if True else None
            if isinstance(r, float):
                return r
            return r if k > 0 else div(ONE, r)
        return spow(self, Sym.const(k))

    def __rpow__(self, b):
        b = lift(b)
        if b is NotImplemented or isinstance(b, float):
            return b
        return spow(b, self)

    def __floordiv__(self, o):
        raise Unsupported("floor division")

    def __mod__(self, o):
        raise Unsupported("modulo")

    def __abs__(self):
        return sabs(self)

    # -- comparisons
    def __lt__(self, o):
        return compare("lt", self, o)

    def __le__(self, o):
        return compare("le", self, o)

    def __gt__(self, o):
        return compare("gt", self, o)

    def __ge__(self, o):
        return compare("ge", self, o)

    def __eq__(self, o):
        return compare("eq", self, o)

    def __ne__(self, o):
        return compare("ne", self, o)

    __hash__ = object.__hash__

    def __bool__(self):
        return bool(compare("ne", self, 0))

    # -- conversions
    def __float__(self):
        if self.is_const():
            return float(self.cval())
        v = CTX.concretize_const(self)
        if v is not None:
            return float(v)
        raise TypeError("symbolic value has no concrete float")

    def __int__(self):
        return CTX.concretize_int(self)

    __index__ = None  # replaced below

    def round(self, decimals=0, **k):
        """the nearest multiple of 10^-decimals, known to lie within half a unit"""
        u = Fraction(1, 10**decimals) if decimals >= 0 else Fraction(10**-decimals)
        if self.is_const():
            return Sym.const(round(Fraction(self.cval()) / u) * u)
        return CTX.rounded("round", self, u, -u / 2, u / 2)

    def __round__(self, n=None):
        return self.round(n or 0)

    def __repr__(self):
        return "Sym(" + show(self) + ")"

    def __format__(self, spec):
        """printed values are recovered by Base.shown"""
        FORMATTED.append(self)
        return f"<sym {len(FORMATTED) - 1}>"

    # -- numpy object-dtype hooks
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return sexp(self)

    def log(self):
        return slog(self)

    def square(self):
        return mul(self, self)

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym({})

    def copy(self):
        return self

    def item(self):
        return self

    @property
    def T(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def astype(self, *a, **k):
        return self

    def is_integer(self):
        return self.is_const() and isinstance(self.cval(), int)

    def log1p(self):
        return slog(self + 1)

    def expm1(self):
        return sexp(self) - 1

    def exp2(self):
        return spow(Sym.const(2), self)

    def cbrt(self):
        raise Unsupported("cbrt")

    def rint(self):
        return self.round()

    def floor(self):
        if self.is_const():
            return Sym.const(math.floor(self.cval()))
        return CTX.rounded("floor", self, Fraction(1), -Fraction(1), Fraction(0))

    def ceil(self):
        if self.is_const():
            return Sym.const(math.ceil(self.cval()))
        return CTX.rounded("ceil", self, Fraction(1), Fraction(0), Fraction(1))

    def tanh(self):
        raise Unsupported("tanh")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def reshape(self, *shape, **k):
        import numpy as np

        a = np.empty((), dtype=object)
        a[()] = self
        return a.reshape(*shape)

    def flatten(self):
        return self.reshape(-1)

    ravel = flatten


def _index(self):
    return CTX.concretize_int(self)


Sym.__index__ = _index

ONE = Sym({(): 1})
ZERO = Sym({})


def _isarr(o):
    return hasattr(o, "__array_ufunc__") and getattr(o, "ndim", 0) > 0 or hasattr(o, "iloc")


def lift(o):
    """-> Sym | float (nan/inf) | NotImplemented"""
    t = type(o)
    if t is Sym:
        return o
    if t is int or t is bool:
        return Sym({(): int(o)} if o else {})
    if t is Fraction:
        return Sym.const(o)
    if isinstance(o, float):
        o = float(o)
        if o != o or o in (math.inf, -math.inf):
            return o
        return Sym.const(o)
    if o is None:
        return math.nan
    if hasattr(o, "dtype") and getattr(o, "ndim", None) == 0:
        k = o.dtype.kind
        if k == "O":
            return lift(o.item() if not isinstance(o.item(), type(o)) else o.item())
        if k in "iub":
            return lift(int(o))
        if k == "f":
            return lift(float(o))
    if isinstance(o, SymBool):
        return Sym.const(1 if bool(o) else 0)
    return NotImplemented


def mk(num, den):
    if not num:
        return ZERO
    if den:
        num, den = cancel(num, den)
    return Sym(num, den)


def cancel(num, den):
    out = []
    for i, e in den:
        d = CTX.atoms[i].arg
        while e > 0 and len(num) >= 2:
            q = pdiv_exact(num, d)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out.append((i, e))
    return num, tuple(out)


def add(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    if a.den == b.den:
        return mk(padd(a.num, b.num), a.den)
    da, db = dict(a.den), dict(b.den)
    na, nb = a.num, b.num
    l = {}
    for i in set(da) | set(db):
        l[i] = max(da.get(i, 0), db.get(i, 0))
    for i, e in l.items():
        d = CTX.atoms[i].arg
        k = e - da.get(i, 0)
        if k:
            na = pmul(na, ppow(d, k))
        k = e - db.get(i, 0)
        if k:
            nb = pmul(nb, ppow(d, k))
    return mk(padd(na, nb), tuple(sorted(l.items())))


def sqrt_reduce(num):
    """Replace s^2 (positive powers of square-root atoms) by its argument when
    that argument is small.  -> Sym or None if nothing to do."""
    hit = None
    for m in num:
        for i, e in m:
            if (e >= 2 or e <= -2) and CTX.atoms[i].kind == "sqrt":
                a = CTX.atoms[i].arg
                if (e >= 2 and len(a.num) <= 40) or (e <= -2 and len(a.num) == 1):
                    hit = i
                    break
        if hit is not None:
            break
    if hit is None:
        return None
    arg = CTX.atoms[hit].arg
    groups = {}
    for m, c in num.items():
        e = dict(m).get(hit, 0)
        if e >= 2 or (e <= -2 and len(arg.num) == 1):
            k = int(e / 2)
            rest = tuple((i, (x if i != hit else x - 2 * k)) for i, x in m if i != hit or x - 2 * k)
        else:
            k, rest = 0, m
        groups.setdefault(k, {})[rest] = c
    tot = ZERO
    for k, p in groups.items():
        if k == 0:
            t = Sym(p)
        elif k > 0:
            t = mul(Sym(p), power(arg, k), red=False)
        else:
            (m, c), = arg.num.items()
            inv = Sym(pscale({minv(m): 1}, Fraction(1) / c))
            for i, e in arg.den:
                inv = mul(inv, Sym(ppow(CTX.atoms[i].arg, e)), red=False)
            t = mul(Sym(p), power(inv, -k), red=False)
        tot = add(tot, t)
    return tot


def mul(a, b, red=True):
    if not a.num or not b.num:
        return ZERO
    if a.is_const():
        c = a.cval()
        return b if c == 1 else Sym(pscale(b.num, c), b.den)
    if b.is_const():
        c = b.cval()
        return a if c == 1 else Sym(pscale(a.num, c), a.den)
    num = pmul(a.num, b.num)
    den = mmul(a.den, b.den) if (a.den and b.den) else (a.den or b.den)
    if red:
        n = 0
        while True:
            r = sqrt_reduce(num)
            if r is None:
                break
            n += 1
            num = r.num
            den = mmul(den, r.den) if (den and r.den) else (den or r.den)
            if not num:
                return ZERO
            if n > 60:
                break
    return mk(num, den)


def power(a, k):
    if k == 0:
        return ONE
    if len(a.num) == 1 and not a.den:
        (m, c), = a.num.items()
        r = Sym({mpow(m, k): c**k})
        x = sqrt_reduce(r.num)
        return x if x is not None else r
    r = None
    b = a
    while k:
        if k & 1:
            r = b if r is None else mul(r, b)
        k >>= 1
        if k:
            b = mul(b, b)
    return r


def den_atom(p):
    """p: polynomial with no content, normalised; -> (list of (atom,exp), leftover const)."""
    return CTX.den_atom(p)


def div(a, b):
    if b.is_const():
        c = b.cval()
        if c == 0:
            return div0(a)
        return Sym(pscale(a.num, Fraction(1) / c), a.den) if c != 1 else a
    if a.num == b.num and a.den == b.den:
        if CTX.nonzero(b):
            return ONE
        return div0(a)
    if not CTX.nonzero(b):
        return div0(a)
    return mul(a, recip(b))


def recip(b):
    """1/b for b known nonzero."""
    num = {(): 1}
    for i, e in b.den:
        num = pmul(num, ppow(CTX.atoms[i].arg, e))
    n = b.num
    c0 = _pcontent(n)
    if c0:
        n = pmulm(n, minv(c0))
        num = pmulm(num, minv(c0))
    if len(n) == 1:
        (m, c), = n.items()
        return mul(Sym(pscale(num, Fraction(1) / c)), Sym({minv(m): 1}))
    lc = n[lead(n)]
    if lc != 1:
        n = pscale(n, Fraction(1) / lc)
        num = pscale(num, Fraction(1) / lc)
    den = {}
    for i in CTX.den_factor(n):
        den[i] = den.get(i, 0) + 1
    return mk(num, tuple(sorted(den.items())))


def div0(a):
    """a / 0 with IEEE semantics (sign of zero taken positive)."""
    if not a.num:
        return math.nan
    if bool(compare("eq", a, 0)):
        return math.nan
    return math.inf if bool(compare("gt", a, 0)) else -math.inf


def _inf_mul(a, o):
    if o != o:
        return o
    if bool(compare("eq", a, 0)):
        return math.nan
    return o if bool(compare("gt", a, 0)) else -o


# ------------------------------------------------------------- functions
def _perfect(c):
    c = Fraction(c)
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def _nice(c):
    c = Fraction(c)
    return c.denominator <= 10**6 and abs(c.numerator) <= 10**9


def _fsqrt(c):
    """square root of a positive rational to ~60 digits (constants that are not
    small rationals stem from floats)"""
    c = Fraction(c)
    k = max(0, 400 - (c.numerator.bit_length() - c.denominator.bit_length()))
    k += k % 2
    return Fraction(math.isqrt((c.numerator << k) // c.denominator), 1 << (k // 2))


def _square_part(c):
    """q with c = q^2 * (no small square factor)"""
    q, p = 1, 2
    while p <= 1000 and p * p <= c:
        while c % (p * p) == 0:
            c //= p * p
            q *= p
        p += 1
    return q


def sqrt(v):
    v = lift(v)
    if isinstance(v, float):
        return v if v != v or v > 0 else math.nan
    if not v.num:
        return ZERO
    if v.is_const():
        c = v.cval()
        if c < 0:
            return math.nan
        r = _perfect(c)
        if r is not None:
            return Sym.const(r)
        if not _nice(c):
            return Sym({(): _fsqrt(c)})
    s = sign(v)
    if s not in ("+", "0+", "0"):
        if s == "-" or bool(compare("lt", v, 0)):
            return math.nan
        CTX.mark_sign(v, "0+")
    # split off positive factors
    out = {}
    rest = {}
    c0 = _pcontent(v.num)
    n = pmulm(v.num, minv(c0)) if c0 else v.num
    for i, e in list(c0) + [(i, -e) for i, e in v.den]:
        rest[i] = rest.get(i, 0) + e
    scale = 1
    if len(n) == 1:
        (m, c), = n.items()
        r = _perfect(c)
        if r is not None:
            scale, n = r, {m: 1}
        elif not _nice(c) and c > 0:
            scale, n = _fsqrt(c), {m: 1}
        elif Fraction(c).denominator != 1:
            # sqrt(p/q) = sqrt(p q)/q
            c = Fraction(c)
            scale, n = Fraction(1, c.denominator), {m: c.numerator * c.denominator}
        (m, c), = n.items()
        if c > 1:
            q = _square_part(c)
            scale, n = scale * q, {m: c // (q * q)}
    else:
        lc = n[lead(n)]
        r = _perfect(abs(lc))
        if r is not None and r != 1:
            scale, n = r, pscale(n, Fraction(1) / (r * r))
    inner = {}
    for i, e in rest.items():
        a = CTX.atoms[i]
        if a.kind == "den":
            pos = a.sgn == "+"
        else:
            pos = a.sgn in ("+", "0+")
        h = int(e / 2)  # toward zero
        if pos or (a.kind == "den" and a.sgn == "-" and h % 2 == 0):
            if h:
                out[i] = h
            if e - 2 * h:
                inner[i] = e - 2 * h
        else:
            inner[i] = e
    res = Sym.const(scale)
    # outer monomial
    res = _apply(res, out)
    # inner: split each remaining positive odd atom into its own root when the
    # rest is known positive too; otherwise keep together
    parts = []
    n_sign = poly_sign(n)
    if len(n) > 1 or n != {(): 1}:
        parts.append((Sym(n), n_sign))
    ok = True
    for i, e in inner.items():
        a = CTX.atoms[i]
        if a.sgn != "+" or abs(e) != 1:
            ok = False
    if parts and parts[0][1] not in ("+", "0+"):
        if len(inner) == 0:
            pass
        elif not ok:
            pass
        # if every inner atom is positive then n has the sign of v: nonneg
    if ok:
        for i, e in inner.items():
            a = CTX.atoms[i]
            base = Sym(a.arg) if a.kind == "den" else Sym({((i, 1),): 1})
            if a.kind == "den" and len(a.arg) > 1:
                s1 = CTX.sqrt_atom(base)
            else:
                s1 = CTX.sqrt_atom(base)
            res = mul(res, s1) if e > 0 else mul(res, _minv_sym(s1))
        if parts:
            res = mul(res, CTX.sqrt_atom(parts[0][0]))
        return res
    whole = Sym(n)
    whole = _apply(whole, inner)
    return mul(res, CTX.sqrt_atom(whole))


def _minv_sym(s):
    (m, c), = s.num.items()
    return Sym({minv(m): Fraction(1) / c if c != 1 else 1})


def _apply(v, d):
    """v * prod atom_i^e, den atoms expanded / kept as denominators."""
    for i, e in d.items():
        a = CTX.atoms[i]
        if a.kind == "den":
            if e > 0:
                v = mul(v, Sym(ppow(a.arg, e)))
            else:
                v = mk(v.num, mmul(v.den, ((i, -e),)))
        else:
            v = mul(v, Sym({((i, e),): 1}))
    return v


def den_sign(den):
    s = 1
    for i, e in den:
        if e % 2:
            g = CTX.atoms[i].sgn
            if g == "+":
                pass
            elif g == "-":
                s = -s
            else:
                return None
    return s


def sign(v):
    """structural sign knowledge of v."""
    if not v.num:
        return "0"
    k = CTX.known_sign(v)
    if k:
        return k
    s = poly_sign(v.num)
    if s is None:
        return None
    d = den_sign(v.den)
    if d is None:
        return None
    return s if d > 0 else _flip(s)


def sexp(v):
    v = lift(v)
    if isinstance(v, float):
        return math.exp(v)
    if not v.num:
        return ONE
    return CTX.exp_atom(v)


ROOTS = [False]


def halfpow(x):
    """exp(x) for x = -(p/q) log 2 with q > 1 as an exact power of 2^(1/q)
    (only for the cases that ask for it)"""
    x = float(x)
    if not ROOTS[0] or not -40 < x < 0:
        return None
    r = Fraction(-x / math.log(2))
    f = r.limit_denominator(1024)
    if f == 0 or f.denominator == 1 or abs(r - f) > r * Fraction(1, 10**13):
        return None
    return CTX.exp_atom(Sym.const(Fraction(x)))


def slog(v):
    v = lift(v)
    if isinstance(v, float):
        return v if v != v else (v if v > 0 else math.nan)
    if v.is_const():
        c = v.cval()
        if c == 0:
            return -math.inf
        if c < 0:
            return math.nan
        if c == 1:
            return ZERO
    s = sign(v)
    if s != "+":
        if bool(compare("le", v, 0)):
            return -math.inf if bool(compare("eq", v, 0)) else math.nan
    return CTX.log_atom(v)


def spow(b, k):
    b, k = lift(b), lift(k)
    if isinstance(b, float) or isinstance(k, float):
        return math.nan
    if k.is_const():
        q = k.cval()
        if isinstance(q, int):
            return b**q
        if q.denominator == 2:
            return b**q
    return sexp(mul(k, slog(b)))


def sabs(v):
    v = lift(v)
    if isinstance(v, float):
        return abs(v)
    s = sign(v)
    if s in ("+", "0+", "0"):
        return v
    if s in ("-", "0-"):
        return -v
    return CTX.abs_value(v)


# ------------------------------------------------------------- booleans
class SymBool:
    """Boolean combination of (op, Sym) with op in lt, le, eq (vs 0)."""

    __slots__ = ("op", "args", "_z3")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._z3 = None

    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        return sand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return snot(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    __hash__ = object.__hash__

    def __repr__(self):
        return f"SymBool({self.op})"

    def logical_not(self):
        return snot(self)


def sbool(x):
    if isinstance(x, SymBool):
        return x
    return bool(x)


def snot(a):
    if not isinstance(a, SymBool):
        return not a
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return SymBool("le", (-a.args[0],))
    if a.op == "le":
        return SymBool("lt", (-a.args[0],))
    return SymBool("not", (a,))


def sand(*xs):
    ys = []
    for x in xs:
        if isinstance(x, SymBool):
            ys.append(x)
        elif not x:
            return False
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else SymBool("and", tuple(ys))


def sor(*xs):
    ys = []
    for x in xs:
        if isinstance(x, SymBool):
            ys.append(x)
        elif x:
            return True
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else SymBool("or", tuple(ys))


def compare(op, a, b):
    if _isarr(b):
        return NotImplemented
    bb = lift(b)
    if bb is NotImplemented:
        if op == "eq":
            return False
        if op == "ne":
            return True
        return NotImplemented
    if isinstance(bb, float):
        if bb != bb:
            return op == "ne"
        if bb > 0:
            return op in ("lt", "le", "ne")
        return op in ("gt", "ge", "ne")
    d = add(a, -bb)
    return cmp0(op, d)


def cmp0(op, d):
    if op == "gt":
        op, d = "lt", -d
    elif op == "ge":
        op, d = "le", -d
    if d.is_const():
        c = d.cval()
        return {"lt": c < 0, "le": c <= 0, "eq": c == 0, "ne": c != 0}[op]
    s = sign(d)
    if s is not None:
        if op == "lt":
            if s == "-":
                return True
            if s in ("+", "0+", "0"):
                return False
        elif op == "le":
            if s in ("-", "0-", "0"):
                return True
            if s == "+":
                return False
        elif op == "eq":
            if s in ("+", "-"):
                return False
            if s == "0":
                return True
        elif op == "ne":
            if s in ("+", "-"):
                return True
            if s == "0":
                return False
    if op == "ne":
        return snot(SymBool("eq", (d,)))
    return SymBool(op, (d,))


# ------------------------------------------------------------- display
def show(v, limit=8):
    if v.is_const():
        return str(v.cval())

    def mono(m):
        return "*".join(f"{CTX.atoms[i].name}" + (f"^{e}" if e != 1 else "") for i, e in m)

    ts = []
    for k, (m, c) in enumerate(v.num.items()):
        if k >= limit:
            ts.append(f"...({len(v.num)} terms)")
            break
        ts.append(f"{c}*{mono(m)}" if m else f"{c}")
    s = " + ".join(ts)
    if v.den:
        s = f"({s})/({mono(v.den)})"
    return s
