"""Symbolic values, conditions and the path explorer."""
import sys
sys.set_int_max_str_digits(0)
import math
import numbers
import time
from fractions import Fraction

import z3

from . import poly as P

TINY = Fraction(1, 10 ** 6)


class EngineStop(BaseException):
    """Control flow of the engine (never seen by the code under test's `except Exception`)."""


class PathInfeasible(EngineStop):
    pass


class Unsupported(EngineStop):
    pass


class Budget(EngineStop):
    """A path exceeded its decision budget (candidate non-termination)."""


class PathDone(EngineStop):
    pass


# ----------------------------------------------------------------------------- conditions
class Cond:
    """op in lt, le, eq, ne (polynomial against 0), and, or, raw (z3 formula)."""
    __slots__ = ("op", "a", "_z")

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self._z = None

    def eval(self, val):
        op, a = self.op, self.a
        if op == "and":
            r = True
            for c in a:
                v = c.eval(val)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if op == "or":
            r = False
            for c in a:
                v = c.eval(val)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        if op == "raw":
            return None
        x = P.peval(a, val)
        if x is None:
            return None
        if op == "lt":
            return x < 0
        if op == "le":
            return x <= 0
        if op == "eq":
            return x == 0
        return x != 0

    def z3(self, ctx, margin=None):
        if margin is None and self._z is not None:
            return self._z
        op, a = self.op, self.a
        if op == "and":
            r = z3.And([c.z3(ctx, margin) for c in a])
        elif op == "or":
            r = z3.Or([c.z3(ctx, margin) for c in a])
        elif op == "raw":
            r = a
        else:
            e = ctx.to_z3(a)
            if op == "lt":
                r = e <= -margin if margin is not None else e < 0
            elif op == "le":
                r = e <= 0
            elif op == "eq":
                r = e == 0
            else:
                r = z3.Or(e <= -margin, e >= margin) if margin is not None else e != 0
        if margin is None:
            self._z = r
        return r


class Shared(Cond):
    """A node of a condition graph: evaluated and encoded once, however often it is used."""
    __slots__ = ("last", "neg", "zm")

    def __init__(self, c):
        super().__init__("shared", c)
        self.last = None
        self.neg = None
        self.zm = None

    def eval(self, val):
        if self.last is not None and self.last[0] is val:
            return self.last[1]
        v = self.a.eval(val)
        if v is not None:
            self.last = (val, v)
        return v

    def z3(self, ctx, margin=None):
        if margin is None:
            if self._z is None:
                self._z = self.a.z3(ctx)
            return self._z
        if self.zm is None or self.zm[0] is not margin:
            self.zm = (margin, self.a.z3(ctx, margin))
        return self.zm[1]

    def inverse(self):
        if self.neg is None:
            self.neg = Shared(cnot(self.a))
            self.neg.neg = self
        return self.neg


def _atom(op, p):
    k = P.pconst(p)
    if k is not None:
        return {"lt": k < 0, "le": k <= 0, "eq": k == 0, "ne": k != 0}[op]
    if op in ("eq", "ne") and p[max(p)] < 0:
        p = P.pscale(p, -1)
    return Cond(op, p)


def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    op, a = c.op, c.a
    if op == "shared":
        return c.inverse()
    if op == "lt":
        return Cond("le", P.pscale(a, -1))
    if op == "le":
        return Cond("lt", P.pscale(a, -1))
    if op == "eq":
        return Cond("ne", a)
    if op == "ne":
        return Cond("eq", a)
    if op == "and":
        return cor([cnot(x) for x in a])
    if op == "or":
        return cand([cnot(x) for x in a])
    return Cond("raw", z3.Not(a))


def cand(cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if c.op == "and":
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else Cond("and", out)


def cor(cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if c.op == "or":
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else Cond("or", out)


def as_cond(x):
    """bool / numpy bool / SymBool -> True / False / Cond."""
    if isinstance(x, SymBool):
        return x.c
    if isinstance(x, Cond):
        return x
    if isinstance(x, Sym):
        r = x != 0
        return r.c if isinstance(r, SymBool) else bool(r)
    return bool(x)


def mk(c):
    return c if isinstance(c, bool) else SymBool(c)


class SymBool:
    """A boolean whose value depends on the symbolic inputs."""
    __slots__ = ("c",)
    ndim = 0
    shape = ()

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return CTX().decide(self.c)

    def __and__(self, o):
        return mk(cand([self.c, as_cond(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return mk(cor([self.c, as_cond(o)]))

    __ror__ = __or__

    def __invert__(self):
        return mk(cnot(self.c))

    def __xor__(self, o):
        o = as_cond(o)
        return mk(cor([cand([self.c, cnot(o)]), cand([cnot(self.c), o])]))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)) or type(o).__name__ in ("bool_", "bool"):
            return mk(cnot((self ^ o).c if isinstance(self ^ o, SymBool) else (self ^ o)))
        return bool(self) == o

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return ~self & as_cond(o)

    def __gt__(self, o):
        return self & cnot(as_cond(o))

    def __le__(self, o):
        return ~self | as_cond(o)

    def __ge__(self, o):
        return self | cnot(as_cond(o))

    def logical_not(self):
        return ~self

    def all(self, *a, **k):
        return self

    any = all
    item = all
    copy = all

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic boolean")

    def __repr__(self):
        return "<symbolic bool>"


# ----------------------------------------------------------------------------- numbers
def to_fraction(x):
    """A Python / numpy number as an exact rational (floats by their shortest decimal), or a
    special float."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return float(x)
        if x == int(x) and abs(x) < 1e15:
            return int(x)
        return Fraction(repr(float(x)))
    if isinstance(x, numbers.Integral):
        return int(x)
    if hasattr(x, "item") and not isinstance(x, (Sym, SymBool)):
        try:
            y = x.item()
        except Exception:
            return None
        if isinstance(y, (int, float, bool)):
            return to_fraction(y)
        return None
    import decimal
    if isinstance(x, decimal.Decimal):
        return Fraction(x)
    return None


def _norm(k):
    if type(k) is Fraction and k.denominator == 1:
        return k.numerator
    return k


_OPS = {"+", "-", "*", "/"}


class Sym:
    """An exact number: a rational function of the symbolic variables."""
    __slots__ = ("n", "d", "k")
    __array_priority__ = -1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, n, d=None):
        self.n = n
        self.d = d
        self.k = P.pconst(n) if d is None else None
        if self.k is not None:
            self.k = _norm(self.k)

    # -- construction
    @staticmethod
    def const(k):
        return Sym({(): k} if k != 0 else {})

    @staticmethod
    def var(i):
        return Sym({(i,): 1})

    def res(self):
        return self

    @staticmethod
    def lift(o):
        """Sym (resolved), special float, or None if not a number."""
        if isinstance(o, Sym):
            return o.res()
        if isinstance(o, SymBool):
            return Sym.const(int(bool(o)))
        f = to_fraction(o)
        if f is None:
            return None
        if isinstance(f, float):
            return f
        return Sym.const(f)

    # -- arithmetic
    def __add__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o
        s = self.res()
        if s.d is None and o.d is None:
            return Sym(P.padd(s.n, o.n))
        return _ratadd(s, o, 1)

    __radd__ = __add__

    def __neg__(self):
        s = self.res()
        return Sym(P.pscale(s.n, -1), s.d)

    def __pos__(self):
        return self.res()

    def __sub__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return -o
        s = self.res()
        if s.d is None and o.d is None:
            return Sym(P.padd(s.n, o.n, -1))
        return _ratadd(s, o, -1)

    def __rsub__(self, o):
        r = Sym.lift(o)
        if r is None:
            return NotImplemented
        if isinstance(r, float):
            return r
        return r - self

    def __mul__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        s = self.res()
        if isinstance(o, float):
            if o != o:
                return o
            if s == 0:
                return math.nan
            return o if s > 0 else -o
        n = P.pmul(s.n, o.n)
        if s.d is None and o.d is None:
            return Sym(n)
        d = P.pmul(s.d or P.ONE, o.d or P.ONE)
        return Sym(*P.cancel(n, d))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return o if o != o else Sym.const(0)
        s = self.res()
        return _div(s, o)

    def __rtruediv__(self, o):
        r = Sym.lift(o)
        if r is None:
            return NotImplemented
        s = self.res()
        if isinstance(r, float):
            return r if (s >= 0) else -r
        return _div(r, s)

    def __pow__(self, e, mod=None):
        f = Sym.lift(e)
        if isinstance(f, Sym) and isinstance(f.k, int):
            r = Sym.const(1)
            for _ in range(abs(f.k)):
                r = r * self
            return r if f.k >= 0 else 1 / r
        if isinstance(f, Sym) and f.k == Fraction(1, 2):
            return sqrt(self)
        raise Unsupported("power with symbolic exponent")

    def __rpow__(self, b):
        s = self.res()
        if isinstance(s.k, int):
            return Sym.lift(b) ** s.k
        raise Unsupported("power with symbolic exponent")

    def __floordiv__(self, o):
        return floor(self / o)

    def __rfloordiv__(self, o):
        return floor(o / self)

    def __mod__(self, o):
        q = floor(self / o)
        return self - q * o

    def __rmod__(self, o):
        return Sym.lift(o) % self

    def __divmod__(self, o):
        q = floor(self / o)
        return q, self - q * o

    def __abs__(self):
        s = self.res()
        if s.k is not None:
            return Sym.const(abs(s.k))
        return SymAbs(s)

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, (SymAbs, SymRoot)) and not isinstance(self, (SymAbs, SymRoot)):
            return o._cmp(self, {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==",
                                 "!=": "!="}[op])
        o = Sym.lift(o)
        if o is None:
            return NotImplemented
        s = self.res()
        if isinstance(o, float):
            if o != o:
                return op == "!="
            return {"<": o > 0, "<=": o > 0, ">": o < 0, ">=": o < 0, "==": False,
                    "!=": True}[op]
        if s.k is not None and o.k is not None:
            a, b = s.k, o.k
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b,
                    "!=": a != b}[op]
        if op == ">":
            s, o, op = o, s, "<"
        elif op == ">=":
            s, o, op = o, s, "<="
        if not CTX().exact_tol:
            if o.k is not None:
                near, eps = split_tiny(o.k)
                if eps:
                    # s op near + eps
                    if op in ("==", "!="):
                        return op == "!="
                    return mk(_compare(s - near, "<=" if eps > 0 else "<"))
            elif s.k is not None:
                near, eps = split_tiny(s.k)
                if eps:
                    # near + eps op o
                    if op in ("==", "!="):
                        return op == "!="
                    return mk(_compare(near - o, "<" if eps > 0 else "<="))
        return mk(_compare(s - o, op))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        s = self.res()
        if s.k is not None:
            return hash(s.k)
        if s.d is None and CTX().is_integral(s.n):
            return hash(concretize(s))
        raise Unsupported("hash of a symbolic real")

    def __bool__(self):
        return bool(self != 0)

    # -- conversion
    def __int__(self):
        t = trunc(self)
        return concretize(t)

    def __index__(self):
        s = self.res()
        if isinstance(s.k, int):
            return s.k
        if s.k is not None:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize(s)

    def __float__(self):
        s = self.res()
        if s.k is not None:
            return float(s.k)
        raise Unsupported("conversion of a symbolic number to a machine float")

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __round__(self, nd=None):
        if not nd:
            return rnd(self)
        return rnd(self * 10 ** nd) / 10 ** nd

    def is_integer(self):
        s = self.res()
        return s == floor(s)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Sym.const(0)

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic number")

    def sqrt(self):
        return sqrt(self)

    def rint(self):
        return rnd(self)

    def __repr__(self):
        s = self.res()
        if s.k is not None:
            return str(float(s.k))
        return "<symbolic number>"

    def __format__(self, spec):
        s = self.res()
        if s.k is not None:
            return format(float(s.k), spec)
        return "<symbolic number>"


numbers.Real.register(Sym)


def _ratadd(a, b, s):
    ad, bd = a.d or P.ONE, b.d or P.ONE
    if a.d is b.d or ad == bd:
        return Sym(*P.cancel(P.padd(a.n, b.n, s), ad))
    n = P.padd(P.pmul(a.n, bd), P.pmul(b.n, ad), s)
    return Sym(*P.cancel(n, P.pmul(ad, bd)))


def _div(a, b):
    z = b == 0
    if z is True or (z is not False and bool(z)):
        # numpy float semantics
        if bool(a == 0):
            return math.nan
        return math.inf if bool(a > 0) else -math.inf
    if b.k is not None:
        return Sym(P.pscale(a.n, Fraction(1) / b.k), a.d)
    n = P.pmul(a.n, b.d or P.ONE)
    d = P.pmul(a.d or P.ONE, b.n)
    return Sym(*P.cancel(n, d))


def split_tiny(k):
    """k = near + eps with near a simple number and eps a tiny decimal tolerance (or 0)."""
    if type(k) is int:
        return k, 0
    den = k.denominator
    if den < 10 ** 6:
        return k, 0
    while den % 2 == 0:
        den //= 2
    while den % 5 == 0:
        den //= 5
    if den != 1:
        return k, 0
    near = Fraction(round(k * 4), 4)
    eps = k - near
    if abs(eps) > TINY:
        return k, 0
    return _norm(near), eps


def _compare(p, op):
    """Condition `p op 0` for a resolved Sym; tiny constants are read as 0+ / 0-."""
    n = p.n
    d = p.d
    if d is not None:
        if op in ("==", "!="):
            d = None
        else:
            n = P.pmul(n, d)
    elif not CTX().exact_tol:
        c = n.get(())
        if c is not None and len(n) > 1:
            near, eps = split_tiny(c)
            if eps:
                # q + near + eps op 0 with eps an arbitrarily small nonzero number
                n = dict(n)
                if near == 0:
                    del n[()]
                else:
                    n[()] = near
                if op in ("<", "<="):
                    op = "<" if eps > 0 else "<="
                else:
                    return op == "!="
    if op == "<":
        return _atom("lt", n)
    if op == "<=":
        return _atom("le", n)
    if op == "==":
        return _atom("eq", n)
    return _atom("ne", n)


class SymAbs(Sym):
    """|v|, kept lazy so that comparisons do not fork."""
    __slots__ = ("v", "_r")

    def __init__(self, v):
        self.v = v
        self._r = None
        self.n = self.d = self.k = None

    def res(self):
        if self._r is None:
            self._r = self.v if self.v >= 0 else -self.v
        return self._r

    def __abs__(self):
        return self

    def __hash__(self):
        return hash(self.res())

    def _cmp(self, o, op):
        if isinstance(o, SymRoot):
            o = o.res()
        o = o.res() if isinstance(o, Sym) else Sym.lift(o)
        if o is None:
            return NotImplemented
        v = self.v
        if isinstance(o, float):
            return v._cmp(o, op) if o > 0 or o != o else op in (">", ">=", "!=")
        if op in ("<", "<="):
            return v._cmp(o, op) & mk_((-v)._cmp(o, op))
        if op in (">", ">="):
            return v._cmp(o, op) | mk_((-v)._cmp(o, op))
        e = (mk_(v._cmp(o, "==")) | mk_((-v)._cmp(o, "=="))) & mk_(Sym.lift(o)._cmp(0, ">="))
        return e if op == "==" else (~e if isinstance(e, SymBool) else not e)


def mk_(x):
    return x


class SymRoot(Sym):
    """sqrt(v) for v >= 0, kept lazy: comparisons square both sides."""
    __slots__ = ("v", "_r")

    def __init__(self, v):
        self.v = v
        self._r = None
        self.n = self.d = self.k = None

    def res(self):
        if self._r is None:
            c = CTX()
            v = self.v

            def define(val):
                x = P.peval(v.n, val)
                if x is None or v.d is not None or x < 0:
                    return None
                x = Fraction(x)
                a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if a * a == x.numerator and b * b == x.denominator:
                    return Fraction(a, b)
                return None

            r = c.fresh("root", define=define)
            c.add(as_cond(r >= 0))
            c.add(as_cond(r * r == v))
            self._r = r
        return self._r

    def __hash__(self):
        return hash(self.res())

    def _cmp(self, o, op):
        if isinstance(o, SymRoot):
            return self.v._cmp(o.v, op)
        o = o.res() if isinstance(o, Sym) else Sym.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return self.v._cmp(o, op)
        pos = o._cmp(0, ">=")
        sq = self.v._cmp(o * o, op)
        if op in (">", ">=", "!="):
            neg = ~pos if isinstance(pos, SymBool) else not pos
            return sq | neg
        return sq & pos


# ----------------------------------------------------------------------------- functions
def floor(x):
    x = Sym.lift(x)
    if isinstance(x, float):
        return x
    if x.k is not None:
        return Sym.const(math.floor(x.k))
    c = CTX()
    if x.d is None and c.is_integral(x.n):
        return x
    key = ("floor", P.pkey(x.n), P.pkey(x.d) if x.d else None)
    r = c.memo.get(key)
    if r is None:

        def define(val):
            a = P.peval(x.n, val)
            b = P.peval(x.d, val) if x.d else 1
            return None if a is None or b is None or b == 0 else math.floor(Fraction(a) / b)

        r = c.fresh("floor", integer=True, define=define)
        # exact comparison even in gap mode
        diff = x - r
        num, den = (diff.n, diff.d)
        if den is not None:
            lo = _atom("le", P.pscale(P.pmul(num, den), -1))
            d2 = diff - 1
            hi = _atom("lt", P.pmul(d2.n, d2.d) if d2.d else d2.n)
        else:
            lo = _atom("le", P.pscale(num, -1))
            hi = _atom("lt", P.padd(num, {(): 1}, -1))
        c.memo[key] = r
        c.add(lo)
        c.add(hi)
    return r


def ceil(x):
    return -floor(-x)


def trunc(x):
    x = Sym.lift(x)
    if x.k is not None:
        return Sym.const(math.trunc(x.k))
    return floor(x) if x >= 0 else -floor(-x)


def rnd(x):
    """Round half to even."""
    x = Sym.lift(x)
    if x.k is not None:
        return Sym.const(round(Fraction(x.k)))
    c = CTX()
    if x.d is None and c.is_integral(x.n):
        return x
    if x.d is not None:
        f = floor(x)
        d = x - f
        h = Fraction(1, 2)
        if d < h:
            return f
        if d > h:
            return f + 1
        return f if bool((f % 2) == 0) else f + 1
    key = ("rnd", P.pkey(x.n))
    r = c.memo.get(key)
    if r is None:

        def define(val):
            a = P.peval(x.n, val)
            return None if a is None else round(Fraction(a))

        def half(val):
            v = define(val)
            return None if v is None else v // 2

        r = c.fresh("round", integer=True, define=define)
        k = c.fresh("half", integer=True, define=half)
        c.memo[key] = r
        lo = P.padd(P.padd(r.n, x.n, -1), {(): Fraction(-1, 2)})      # r - x - 1/2 <= 0
        hi = P.padd(P.padd(x.n, r.n, -1), {(): Fraction(-1, 2)})      # x - r - 1/2 <= 0
        c.add(Cond("le", lo))
        c.add(Cond("le", hi))
        c.add(cor([cand([Cond("lt", lo), Cond("lt", hi)]), _atom("eq", P.padd(r.n, P.pscale(k.n, 2), -1))]))
    return r


def sqrt(x):
    x = Sym.lift(x)
    if isinstance(x, float):
        return math.sqrt(x)
    if x.k is not None:
        q = Fraction(x.k)
        if q < 0:
            return math.nan
        a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
        if a * a == q.numerator and b * b == q.denominator:
            return Sym.const(_norm(Fraction(a, b)))
        return SymRoot(x)
    if bool(x < 0):
        return math.nan
    return SymRoot(x)


def concretize(x):
    """Fork over the integer values of an integral Sym."""
    x = Sym.lift(x)
    if x.k is not None:
        return int(x.k)
    c = CTX()
    for _ in range(200):
        v = c.value_hint(x)
        if bool(x == v):
            return v
    raise Unsupported("too many values for an integer")


# ----------------------------------------------------------------------------- explorer
_CTX = None


def CTX():
    if _CTX is None:
        raise RuntimeError("no symbolic context")
    return _CTX


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.checks = 0
        self.trivial_checks = 0
        self.model_hits = 0
        self.aborted = 0


class Context:
    """Explores every feasible path of a function by re-execution."""

    halt = False                          # set to end the exploration after the current path

    def __init__(self, timeout_ms=10000, max_decisions=3000, exact_tol=False, nonlinear=False,
                 path_wall=60.0):
        self.timeout_ms = timeout_ms
        self.max_decisions = max_decisions
        self.exact_tol = exact_tol
        self.nonlinear = nonlinear
        self.path_wall = path_wall
        self.stats = Stats()
        self.solver = z3.SolverFor("QF_NRA") if nonlinear == "nra" else z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.scopes = 0
        self.vars = []       # (name, integer)
        self.zvars = []
        self.stack = []
        self.unknowns = []

    # -- variables
    def _newvar(self, name, integer):
        i = len(self.names)
        self.names.append(name)
        if i < len(self.zvars) and self.vars[i] == (name, integer):
            pass
        else:
            del self.zvars[i:]
            del self.vars[i:]
            self.vars.append((name, integer))
            self.zvars.append(z3.ToReal(z3.Int(name)) if integer else z3.Real(name))
            self.zcache.clear()
        self.integer.append(integer)
        return i

    def fresh(self, name, integer=False, define=None):
        i = self._newvar(f"{name}!{len(self.names)}", integer)
        if self.model is not None and i not in self.model:
            v = define(self.model) if define else 0
            if v is None:
                self.model = None
            else:
                self.model[i] = v
        return Sym.var(i)

    def named(self, name, integer=False):
        if name in self.byname:
            return self.byname[name]
        i = self._newvar(name, integer)
        if self.model is not None and i not in self.model:
            self.model[i] = 0
        s = Sym.var(i)
        self.byname[name] = s
        self.inputs[name] = i
        return s

    def is_integral(self, n):
        for m, c in n.items():
            if Fraction(c).denominator != 1:
                return False
            for v in m:
                if not self.integer[v]:
                    return False
        return True

    def to_z3(self, p):
        k = P.pkey(p)
        e = self.zcache.get(k)
        if e is None:
            terms = []
            # scale to integer coefficients is not needed: z3 rationals are exact
            for m, c in p.items():
                f = [self.zvars[v] for v in m]
                if not f:
                    terms.append(z3.RealVal(str(c)))
                    continue
                if c != 1:
                    f = [z3.RealVal(str(c))] + f
                t = f[0]
                for g in f[1:]:
                    t = t * g
                terms.append(t)
            e = terms[0] if len(terms) == 1 else z3.Sum(terms)
            self.zcache[k] = e
        return e

    # -- constraints
    def _push(self, c):
        """Add condition c as a constraint scope (skipped while replaying a shared prefix)."""
        self.cons.append(c)
        if len(self.cons) > self.scopes:
            self.solver.push()
            self.solver.add(c.z3(self))
            self.scopes += 1

    def add(self, c):
        """A definitional constraint (always satisfiable)."""
        if c is True:
            return
        if c is False:
            raise PathInfeasible()
        self._push(c)
        if self.model is not None and c.eval(self.model) is not True:
            self.model = None

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathInfeasible()
        replay = self.pos < len(self.prefix) or len(self.cons) < self.keep
        self._push(c)
        if replay:
            return
        if self.model is None or c.eval(self.model) is not True:
            r, m = self.query([])
            if r == z3.unsat:
                raise PathInfeasible()
            self.model = m if r == z3.sat else None

    def query(self, extra, timeout=None, want_model=True):
        """Check the current constraints with extra conditions (Conds or z3 formulas)."""
        st = self.stats
        t0 = time.time()
        st.queries += 1
        asserts = [c.z3(self) if isinstance(c, Cond) else c for c in extra]
        if timeout:
            self.solver.set("timeout", timeout)
        self.solver.push()
        for a in asserts:
            self.solver.add(a)
        r = self.solver.check()
        m = None
        if r == z3.sat and want_model:
            m = self.extract(self.solver.model())
        self.solver.pop()
        if timeout:
            self.solver.set("timeout", self.timeout_ms)
        if r == z3.unknown:
            r, m = self._escalate(asserts, timeout or self.timeout_ms)
        st.solver_s += time.time() - t0
        if r == z3.unknown:
            st.unknown += 1
        return r, m

    def _escalate(self, asserts, timeout):
        for mkt in (lambda: z3.Tactic("qfnra-nlsat").solver() if not any(self.integer) else None,
                    lambda: z3.SolverFor("QF_NRA") if not any(self.integer) else z3.SolverFor("QF_NIRA"),
                    lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()):
            s = mkt()
            if s is None:
                continue
            s.set("timeout", timeout)
            for c in self.cons:
                s.add(c.z3(self))
            for a in asserts:
                s.add(a)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                return r, self.extract(s.model())
            if r == z3.unsat:
                return r, None
        return z3.unknown, None

    def extract(self, model):
        out = {}
        for i, (name, integer) in enumerate(self.vars[:len(self.names)]):
            e = self.zvars[i]
            if integer:
                e = e.arg(0)
            v = model.eval(e, model_completion=True)
            if z3.is_int_value(v):
                out[i] = v.as_long()
            elif z3.is_rational_value(v):
                f = v.as_fraction()
                out[i] = _norm(Fraction(f.numerator, f.denominator))
            else:
                return None if not hasattr(v, "approx") else self._approx(model)
        return out

    def _approx(self, model):
        self.last_algebraic = model
        return None

    def value_hint(self, x):
        if self.pos < len(self.prefix):
            # replaying: the hint recorded on first execution
            return self.hints[self.hpos_next()]
        m = self.model
        if m is None:
            r, m = self.query([])
            if r == z3.unsat:
                raise PathInfeasible()
            self.model = m
            if m is None:
                raise Unsupported("no model to concretise from")
        v = P.peval(x.n, m)
        v = int(math.floor(v))
        self.hints.append(v)
        self.hpos += 1
        return v

    def hpos_next(self):
        self.hpos += 1
        return self.hpos - 1

    # -- decisions
    def decide(self, c):
        if c is True or c is False:
            return c
        key = id(c)
        st = self.stats
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((v, forced))
            if not forced:
                self._push(c if v else cnot(c))
            return v
        if len(self.trace) >= self.max_decisions:
            raise Budget()
        st.decisions += 1
        v = c.eval(self.model) if self.model is not None else None
        if v is None:
            r, m = self.query([c])
            if r == z3.sat:
                v = True
                if m is not None:
                    self.model = m
                else:
                    self.model = None
            elif r == z3.unsat:
                # check that the path itself is alive
                v = False
                if self.model is None:
                    r2, m2 = self.query([])
                    if r2 == z3.unsat:
                        raise PathInfeasible()
                    self.model = m2
                self.trace.append((False, True))
                self.pos += 1
                self.prefix_hold()
                return False
            else:
                v = True
                self.model = None
        else:
            st.model_hits += 1
        other = cnot(c) if v else c
        r, m = self.query([other])
        if r == z3.unsat:
            self.trace.append((v, True))
            self.pos += 1
            self.prefix_hold()
            return v
        self.stack.append((list(self.trace) + [(not v, False)], len(self.cons), m,
                           list(self.hints)))
        self.trace.append((v, False))
        self.pos += 1
        self.prefix_hold()
        self._push(c if v else cnot(c))
        return v

    def prefix_hold(self):
        pass

    # -- running
    def explore(self, fn, deadline=None, on_path=None, max_paths=None):
        """Run fn() on every feasible path.  on_path(kind, value) is called at the end of each
        path while its constraints are still asserted."""
        global _CTX
        self.stack = [([], 0, {}, [])]
        complete = True
        while self.stack:
            if self.halt or (deadline and time.time() > deadline) or (max_paths and self.stats.paths >= max_paths):
                complete = False
                break
            prefix, keep, model, hints = self.stack.pop()
            while self.scopes > keep:
                self.solver.pop()
                self.scopes -= 1
            self.prefix = prefix
            self.keep = keep
            self.model = dict(model) if model is not None else None
            self.hints = hints
            self.hpos = 0
            self.pos = 0
            self.trace = []
            self.cons = []
            self.names = []
            self.integer = []
            self.byname = {}
            self.shown = []      # entries of the arrays turned into text
            self.inputs = {}
            self.memo = {}
            self.uf = {}
            self.zcache = getattr(self, "zcache", {})
            _CTX = self
            self.path_t0 = time.time()
            try:
                try:
                    val = fn()
                    kind = "ok"
                except PathInfeasible:
                    self.stats.aborted += 1
                    continue
                except Budget:
                    kind, val = "budget", None
                except Unsupported as e:
                    kind, val = "unsupported", e
                except EngineStop as e:
                    kind, val = "stop", e
                except Exception as e:
                    kind, val = "exception", e
                self.stats.paths += 1
                if on_path:
                    on_path(kind, val)
            finally:
                _CTX = None
        return complete

    def uninterpreted(self, name, args, integer=False):
        """f(args) as a fresh value, consistent with earlier calls (Ackermann)."""
        calls = self.uf.setdefault(name, [])
        lifted = [Sym.lift(a) for a in args]
        for a, r in calls:
            if all((x - y).k == 0 for x, y in zip(a, lifted)):
                return r
        prev = list(calls)

        def define(val):
            for a, r in prev:
                same = True
                for x, y in zip(a, lifted):
                    d = x - y
                    q = P.peval(d.n, val)
                    if q is None:
                        return None
                    if q != 0:
                        same = False
                        break
                if same:
                    return P.peval(r.n, val)
            return 0

        r = self.fresh(name, integer=integer, define=define)
        for a, q in prev:
            eqs = [as_cond(x == y) for x, y in zip(a, lifted)]
            self.add(cor([cnot(cand(eqs)), as_cond(r == q)]))
        calls.append((lifted, r))
        return r
