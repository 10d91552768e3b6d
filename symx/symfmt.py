"""Decimal texts of symbolic numbers: str(), format(), f-strings, %, str.format.

The number of digits, the trailing zeros and the exponent are decided by the solver (one path per
shape); each digit is an integer variable tied to the number by an equation, so the text of *every*
number of a shape is one symbolic text.  A float's str() is exact for numbers with a known finite
number of decimals (results of round()); anything else is refused."""
import math as _math
import string
from fractions import Fraction

from . import engine as E
from . import poly as P
from . import symstr as SS
from .engine import CTX, Sym, SymBool, Unsupported, as_cond
from .symstr import SymStr, test


# ---------------------------------------------------------------- machine integers
class SymI(Sym):
    """A number whose Python type is int."""
    __slots__ = ()

    @staticmethod
    def of(x):
        if isinstance(x, SymI) or not isinstance(x, Sym):
            return x
        x = x.res()
        return int(x.k) if x.k is not None else SymI(x.n, x.d)

    def __round__(self, nd=None):
        return self if nd is None or nd >= 0 else Sym.__round__(self, nd)

    def __hash__(self):
        return Sym.__hash__(self)


def _int_op(name):
    f = getattr(Sym, name)

    def g(self, *o):
        r = f(Sym(self.n, self.d), *(plain(x) for x in o))
        return SymI.of(r) if all(isinstance(x, (int, SymI)) for x in o) and r is not NotImplemented else r
    return g


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__neg__", "__pos__", "__abs__",
           "__floordiv__", "__mod__"):
    setattr(SymI, _n, _int_op(_n))


def plain(x):
    """As a float."""
    return Sym(x.n, x.d) if isinstance(x, SymI) else x


class SymLog:
    """log10 of a positive number: only its floor or ceiling can be taken."""

    def __init__(self, x, scale=1, shift=0):
        self.x, self.scale, self.shift = x, scale, shift

    def _whole(self, up):
        if self.scale == -1:
            return -SymLog(self.x)._whole(not up) + self.shift
        e = decade(self.x)
        if up and not test(as_cond(self.x == Fraction(10) ** e)):
            e += 1
        return e + self.shift

    def __floor__(self):
        return self._whole(False)

    def __ceil__(self):
        return self._whole(True)

    def __trunc__(self):
        return self._whole(False) if self >= 0 else self._whole(True)

    def __neg__(self):
        return SymLog(self.x, -self.scale, -self.shift)

    def __abs__(self):
        return self if self >= 0 else -self

    def __add__(self, o):
        if isinstance(o, int):
            return SymLog(self.x, self.scale, self.shift + o)
        raise Unsupported("arithmetic on a logarithm")

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def _cmp(self, o, op):
        if not isinstance(o, int):
            raise Unsupported("comparison of a logarithm")
        v = Fraction(10) ** ((o - self.shift) * self.scale)
        a, b = (self.x, v) if self.scale == 1 else (v, self.x)
        return getattr(Sym.lift(a), op)(b)

    def __lt__(self, o):
        return self._cmp(o, "__lt__")

    def __le__(self, o):
        return self._cmp(o, "__le__")

    def __gt__(self, o):
        return self._cmp(o, "__gt__")

    def __ge__(self, o):
        return self._cmp(o, "__ge__")

    def _refuse(self, *a):
        raise Unsupported("arithmetic on a logarithm")

    __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __float__ = _refuse


def log10(x):
    if not isinstance(x, Sym) or x.res().k is not None:
        return _math.log10(x)
    if not x > 0:
        raise ValueError("math domain error")
    return SymLog(x.res())


# ---------------------------------------------------------------- exact comparisons and digits
def less(x, k):
    """x < k with k an exact constant (tolerances do not apply to the shape of a text)."""
    d = Sym.lift(x) - k
    if d.k is not None:
        return d.k < 0
    if d.d is not None:
        raise Unsupported("text of a quotient")
    return test(E._atom("lt", d.n))


def decade(x):
    """e with 10^e <= x < 10^(e+1), for x > 0."""
    if not less(x, 1):
        for e in range(0, 40):
            if less(x, 10 ** (e + 1)):
                return e
    else:
        for e in range(-1, -40, -1):
            if not less(x, Fraction(1, 10 ** -e)):
                return e
    raise Unsupported("order of magnitude")


def digits(n, count):
    """The decimal digits (as characters) of an integral 0 <= n < 10^count, highest first."""
    n = Sym.lift(n)
    if n.k is not None:
        return list(str(int(n.k)).rjust(count, "0"))
    c = CTX()
    key = ("digits", P.pkey(n.n), count)
    r = c.memo.get(key)
    if r is None:
        r, total = [], Sym.const(0)
        for i in range(count - 1, -1, -1):
            def define(val, i=i):
                v = P.peval(n.n, val)
                return None if v is None else (_math.floor(v) // 10 ** i) % 10
            d = c.fresh("digit", integer=True, define=define)
            c.add(as_cond(d >= 0))
            c.add(as_cond(d <= 9))
            total = total + d * 10 ** i
            ch = d + 48
            c.memo[("between", tuple(ch.n.items()))] = (48, 57)
            r.append(ch)
        c.add(E._atom("eq", (total - n).n))
        c.memo[key] = r
    return r


def length(n):
    """Number of decimal digits of an integral n >= 0."""
    n = Sym.lift(n)
    if n.k is not None:
        return len(str(int(n.k)))
    for d in range(1, 40):
        if less(n, 10 ** d):
            return d
    raise Unsupported("number of digits")


def negative(x):
    return less(x, 0)


def zero(x):
    x = Sym.lift(x)
    return x.k == 0 if x.k is not None else test(E._atom("eq", x.n))


def whole(n):
    """Characters of an integral n >= 0."""
    return digits(n, length(n))


def int_text(x):
    x = Sym.lift(x)
    if x.k is not None:
        return SymStr(str(int(x.k)))
    return SymStr(["-"] + whole(-x)) if negative(x) else SymStr(whole(x))


def fixed(x, p):
    """Characters of x >= 0 rounded to p decimals."""
    n = E.rnd(Sym.lift(x) * 10 ** p)
    c = digits(n, max(length(n), p + 1))
    return c[:len(c) - p] + (["."] + c[len(c) - p:] if p else [])


def scientific(x, p, mark="e"):
    """Characters of x >= 0 with p decimals of mantissa, and the exponent."""
    if zero(x):
        m, e = ["0"] * (p + 1), 0
    else:
        e = decade(x)
        n = E.rnd(Sym.lift(x) * Fraction(10) ** (p - e))
        if not less(n, 10 ** (p + 1)):
            n, e = Sym.const(10 ** p), e + 1
        m = digits(n, p + 1)
    return m, e


def exponent(e, mark="e"):
    return list("%s%s%02d" % (mark, "-" if e < 0 else "+", abs(e)))


def places(x):
    """A number of decimals that represents x exactly, or None."""
    if x.d is not None:
        return None
    p = 0
    c = CTX()
    for m, k in x.n.items():
        if any(not c.integer[v] for v in m):
            return None
        d = Fraction(k).denominator
        q = 0
        while d != 1:
            if q > 30:
                return None
            q += 1
            d = Fraction(k * 10 ** q).denominator
        p = max(p, q)
    return p


def float_text(x):
    """str(x) of a float."""
    x = Sym.lift(x)
    if isinstance(x, float):
        return SymStr(repr(x))
    if x.k is not None:
        return SymStr(repr(float(x.k)))
    if negative(x):
        return SymStr(["-"]) + float_text(-x)
    if zero(x):
        return SymStr("0.0")
    p = places(x)
    if p is None:
        raise Unsupported("text of a float with an unknown number of decimals")
    n = x * 10 ** p
    c = whole(n)
    k = len(c)
    e = k - 1 - p                         # decade of x
    # strip trailing zeros of the digits
    while len(c) > 1 and test(SS.member(c[-1], SS.chars("0"))):
        c = c[:-1]
    if len(c) > 17:
        raise Unsupported("more digits than a float has")
    if -4 <= e < 16:
        if e >= 0:
            a = (c + ["0"] * (e + 1))[:e + 1]
            return SymStr(a + ["."] + (c[e + 1:] or ["0"]))
        return SymStr(["0", "."] + ["0"] * (-e - 1) + c)
    return SymStr(c[:1] + (["."] + c[1:] if len(c) > 1 else []) + exponent(e))


def general(x, p, alt=False, mark="e", short=False):
    """%g; short: the format without a type, which keeps a digit after the point."""
    p = p or 1
    if zero(x):
        if short:
            return list("0e+00" if p == 1 else "0.0")
        return list("0." + "0" * (p - 1)) if alt else ["0"]
    m, e = scientific(x, p - 1)
    sci = not -4 <= e < p - short
    if not sci:
        m, point = ((m[:e + 1], m[e + 1:]) if e >= 0 else (["0"], ["0"] * (-e - 1) + m))
    else:
        m, point = m[:1], m[1:]
    if not alt:
        while point and test(SS.member(point[-1], SS.chars("0"))):
            point = point[:-1]
    if short and not sci and not point:
        point = ["0"]
    return m + (["."] + point if point or alt else []) + (exponent(e, mark) if sci else [])


# ---------------------------------------------------------------- format()
def parse_spec(spec):
    fill, align, i = " ", None, 0
    if len(spec) > 1 and spec[1] in "<>=^":
        fill, align, i = spec[0], spec[1], 2
    elif spec and spec[0] in "<>=^":
        align, i = spec[0], 1
    sign = "-"
    if i < len(spec) and spec[i] in "+- ":
        sign, i = spec[i], i + 1
    alt = False
    if i < len(spec) and spec[i] == "#":
        alt, i = True, i + 1
    if i < len(spec) and spec[i] == "0":
        if align is None:
            fill, align = "0", "="
        i += 1
    w = ""
    while i < len(spec) and spec[i].isdigit():
        w, i = w + spec[i], i + 1
    group = ""
    if i < len(spec) and spec[i] in ",_":
        group, i = spec[i], i + 1
    prec = None
    if i < len(spec) and spec[i] == ".":
        i += 1
        q = ""
        while i < len(spec) and spec[i].isdigit():
            q, i = q + spec[i], i + 1
        if not q:
            raise ValueError("Format specifier missing precision")
        prec = int(q)
    kind = spec[i:]
    if len(kind) > 1:
        raise ValueError("Invalid format specifier")
    return fill, align, sign, alt, int(w or 0), group, prec, kind


def pad(c, fill, align, width, head=0):
    n = max(0, width - len(c))
    if align == "<":
        return c + [fill] * n
    if align == "=":
        return c[:head] + [fill] * n + c[head:]
    if align == "^":
        return [fill] * (n // 2) + c + [fill] * (n - n // 2)
    return [fill] * n + c


def fmt(v, spec=""):
    """format(v, spec)."""
    if isinstance(spec, SymStr):
        spec = spec.plain()
        if spec is None:
            raise Unsupported("symbolic format specification")
    if isinstance(v, SymStr):
        fill, align, _, _, width, _, prec, kind = parse_spec(spec)
        if kind not in ("", "s"):
            raise ValueError("Unknown format code")
        return SymStr(pad(list(v.c if prec is None else v.c[:prec]), fill, align or "<", width))
    if not isinstance(v, Sym):
        return format(v, spec)
    if not spec:
        return text(v)
    fill, align, sign, alt, width, group, prec, kind = parse_spec(spec)
    if group:
        raise Unsupported("digit grouping")
    x = Sym.lift(v)
    whole_type = isinstance(v, SymI)
    neg = negative(x)
    a = -x if neg else x
    if kind in ("d", "n") and not whole_type:
        raise ValueError("Unknown format code 'd' for object of type 'float'")
    if whole_type and kind in ("d", "n", ""):
        if prec is not None:
            raise ValueError("Precision not allowed in integer format specifier")
        c = whole(a)
    elif kind in ("f", "F"):
        c = fixed(a, 6 if prec is None else prec)
    elif kind in ("e", "E"):
        m, e = scientific(a, 6 if prec is None else prec)
        c = m[:1] + (["."] + m[1:] if len(m) > 1 else []) + exponent(e, kind)
    elif kind in ("g", "G"):
        c = general(a, 6 if prec is None else prec, alt, "e" if kind == "g" else "E")
    elif kind == "%":
        c = fixed(a * 100, 6 if prec is None else prec) + ["%"]
    elif kind == "":
        c = list(float_text(a).c) if prec is None else general(a, prec, alt, short=True)
    else:
        raise Unsupported("format type " + kind)
    s = ["-"] if neg else [] if sign == "-" else [sign]
    return SymStr(pad(s + c, fill, align or ">", width, len(s)))


def text(v):
    """str(v)."""
    if isinstance(v, SymStr):
        return v
    if isinstance(v, SymBool):
        return str(bool(v))
    if isinstance(v, SymI):
        return int_text(v)
    if isinstance(v, Sym):
        return float_text(v)
    return str(v)


def value(v, conv, spec):
    """One field of an f-string or of str.format."""
    if conv in (115, "s"):
        v = text(v)
    elif conv in (114, 97, "r", "a"):
        v = text(v) if isinstance(v, Sym) else repr(v)
    return fmt(v, spec)


def _special(v):
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(map(_special, v))
    return isinstance(v, (Sym, SymStr, SymBool))


def str_format(obj, *args, **kw):
    """obj.format(...)."""
    if not isinstance(obj, (str, SymStr)):
        return obj.format(*args, **kw)
    if isinstance(obj, SymStr):
        obj = obj.plain()
        if obj is None:
            raise Unsupported("symbolic format text")
    if not any(map(_special, list(args) + list(kw.values()))):
        return obj.format(*args, **kw)
    f = string.Formatter()
    auto = [0]

    def expand(s, depth):
        out = []
        for lit, name, spec, conv in f.parse(s):
            if lit:
                out.append(lit)
            if name is None:
                continue
            if name == "" or name[0] in ".[":
                name, auto[0] = str(auto[0]) + name, auto[0] + 1
            v = f.get_field(name, args, kw)[0]
            out.append(value(v, conv, expand(spec, depth + 1) if spec else ""))
        return SS.join("", out)
    return expand(obj, 0)


def percent(obj, args):
    """obj % args."""
    if not isinstance(obj, (str, SymStr)):
        return obj % args
    if isinstance(obj, SymStr):
        raise Unsupported("symbolic format text")
    l = list(args) if isinstance(args, tuple) else [args]
    if not any(map(_special, l)):
        return obj % args
    import re
    out, pos = [], 0
    for m in re.finditer(r"%([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?([a-zA-Z%])", obj):
        out.append(obj[pos:m.start()])
        pos = m.end()
        flags, w, prec, kind = m.groups()
        if kind == "%":
            out.append("%")
            continue
        if w == "*":
            w = str(int(l.pop(0)))
        if prec == "*":
            prec = str(int(l.pop(0)))
        if not l:
            raise TypeError("not enough arguments for format string")
        v = l.pop(0)
        left = "-" in flags
        if kind in "sr":
            v = text(v) if _special(v) else str(v) if kind == "s" else repr(v)
            v = SymStr.of(v) if prec is None else SymStr.of(v)[:int(prec or 0)]
            out.append(SymStr(pad(list(v.c), " ", "<" if left else ">", int(w or 0))))
        else:
            if kind in "diu":
                v, kind = (SymI.of(E.trunc(v)) if isinstance(v, Sym) else int(v)), "d"
                prec = None
            spec = ("<" if left else "") + ("+" if "+" in flags else " " if " " in flags else "") + \
                ("0" if "0" in flags and not left else "") + w + ("." + (prec or "0") if prec is not None else "") + kind
            out.append(fmt(v, spec))
    if l:
        raise TypeError("not all arguments converted during string formatting")
    return SS.join("", out + [obj[pos:]])
