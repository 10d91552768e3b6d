"""Texts of symbolic characters.  A character is an integer variable over ALPHABET: all of ASCII
and one representative of every other class that Python's character predicates distinguish."""
from . import engine as E
from .api import ALPHABET
from .engine import CTX, Cond, Shared, Sym, SymBool, Unsupported, as_cond, cand, cnot, cor, mk

INDEX = {c: i for i, c in enumerate(ALPHABET)}
_SETS = {}


def where(pred, key=None):
    """The characters a predicate holds for."""
    if key is not None and key in _SETS:
        return _SETS[key]
    r = frozenset(i for i, c in enumerate(ALPHABET) if pred(c))
    if key is not None:
        _SETS[key] = r
    return r


def chars(s):
    """The set of the characters of s.  One outside the alphabet stands for itself; no symbolic
    character can be it."""
    if isinstance(s, SymStr):
        s = s.plain()
        if s is None:
            raise Unsupported("set of symbolic characters")
    return frozenset(INDEX.get(c, c) for c in s)


def _ranges(st):
    out = []
    for i in sorted(st):
        if out and out[-1][1] == i - 1:
            out[-1][1] = i
        else:
            out.append([i, i])
    return out


def member(ch, st):
    """Condition: the character is one of the set."""
    if isinstance(ch, str):
        return INDEX.get(ch, ch) in st
    if any(isinstance(i, str) for i in st):
        st = frozenset(i for i in st if not isinstance(i, str))
    if not st:
        return False
    known = CTX().memo.get(("between", tuple(ch.n.items())))
    if known is not None:
        n = sum(1 for i in range(known[0], known[1] + 1) if i in st)
        if n in (0, known[1] + 1 - known[0]):
            return n > 0
    if len(st) == len(ALPHABET):
        return True
    memo = CTX().memo
    key = ("char", tuple(ch.n.items()), st)
    r = memo.get(key)
    if r is None:
        out = []
        for lo, hi in _ranges(st):
            if lo == hi:
                out.append(as_cond(ch == lo))
            else:
                cs = []
                if lo > 0:
                    cs.append(as_cond(ch >= lo))
                if hi < len(ALPHABET) - 1:
                    cs.append(as_cond(ch <= hi))
                out.append(cand(cs))
        r = memo[key] = cor(out)
    return r


def test(c):
    """Decide a condition, remembering the answer on this path."""
    if isinstance(c, bool):
        return c
    memo = CTX().memo
    k = ("test", id(c))
    if k in memo:
        return memo[k][0]
    r = CTX().decide(c)
    memo[k] = (r, c)
    return r


def define(c):
    """The condition as a shared node (never expanded twice)."""
    return c if isinstance(c, bool) or c.op in ("lt", "le", "eq", "ne", "shared") else Shared(c)


SPACE = where(str.isspace)
DECIMAL = where(str.isdecimal)


def digit_value(ch):
    """Value of a character known to be a decimal digit."""
    if isinstance(ch, str):
        return int(ch)
    memo = CTX().memo
    key = ("digit", tuple(ch.n.items()))
    r = memo.get(key)
    if r is None:
        blocks = _ranges(DECIMAL)

        def value(val):
            v = E.P.peval(ch.n, val)
            if v is None:
                return None
            c = ALPHABET[int(v)]
            return int(c) if c.isdecimal() else 0

        r = memo[key] = CTX().fresh("digit", integer=True, define=value)
        alts = []
        for lo, hi in blocks:
            alts.append(cand([as_cond(ch >= lo), as_cond(ch <= hi), as_cond(r == ch - lo + int(ALPHABET[lo]))]))
        alts.append(cand([cnot(member(ch, DECIMAL)), as_cond(r == 0)]))
        CTX().add(cor(alts))
    return r


def number(s, kind):
    """int(s) / float(s) of a symbolic text: plain decimal notation."""
    c = list(s.c)
    while c and test(member(c[0], SPACE)):
        c.pop(0)
    while c and test(member(c[-1], SPACE)):
        c.pop()
    sign = 1
    if c and test(member(c[0], chars("+-"))):
        sign = -1 if test(member(c[0], chars("-"))) else 1
        c.pop(0)
    whole, part, dot = [], [], False
    for ch in c:
        if test(member(ch, DECIMAL)):
            (part if dot else whole).append(ch)
        elif kind == "float" and not dot and test(member(ch, chars("."))):
            dot = True
        elif test(member(ch, chars("eE_infatyINFATYxXoObB") if kind == "float" else chars("_"))):
            raise Unsupported("number in other than plain decimal notation")
        else:
            raise ValueError("could not convert string to number")
    if not whole and not part:
        raise ValueError("could not convert string to number")
    v = Sym.const(0)
    for ch in whole:
        v = v * 10 + digit_value(ch)
    scale = E.Fraction(1)
    for ch in part:
        scale = scale / 10
        v = v + digit_value(ch) * scale
    return v * sign if sign < 0 else v


class SymStr:
    """A text of known length whose characters may be symbolic."""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = tuple(c)

    @staticmethod
    def of(s):
        return s if isinstance(s, SymStr) else SymStr(s) if isinstance(s, str) else None

    def plain(self):
        """The text itself if every character is known."""
        if all(isinstance(x, str) for x in self.c):
            return "".join(self.c)
        return None

    def _sym_float_value(self):
        return number(self, "float")

    def _sym_int_value(self):
        return number(self, "int")

    def __len__(self):
        return len(self.c)

    def __getitem__(self, k):
        return SymStr(self.c[k]) if isinstance(k, slice) else SymStr((self.c[k],))

    def __iter__(self):
        return (SymStr((x,)) for x in self.c)

    def __add__(self, o):
        o = SymStr.of(o)
        return NotImplemented if o is None else SymStr(self.c + o.c)

    def __radd__(self, o):
        o = SymStr.of(o)
        return NotImplemented if o is None else SymStr(o.c + self.c)

    def __mul__(self, n):
        return SymStr(self.c * n)

    __rmul__ = __mul__

    def same(self, o):
        o = SymStr.of(o)
        if o is None or len(o.c) != len(self.c):
            return False
        out = []
        for a, b in zip(self.c, o.c):
            if a is b:
                continue
            if isinstance(b, str):
                out.append(member(a, frozenset([INDEX.get(b, b)])))
            elif isinstance(a, str):
                out.append(member(b, frozenset([INDEX.get(a, a)])))
            else:
                out.append(as_cond(a == b))
        return cand(out)

    def __eq__(self, o):
        return mk(self.same(o))

    def __ne__(self, o):
        return mk(cnot(self.same(o)))

    def __hash__(self):
        p = self.plain()
        if p is None and len(self.c) == 1:
            p = ALPHABET[E.concretize(self.c[0])]
        return hash(p) if p is not None else 0x5EED

    def __bool__(self):
        return len(self.c) > 0

    def __contains__(self, o):
        return self._find(o) >= 0

    def at(self, i, o):
        """Condition: o occurs at position i."""
        return SymStr(self.c[i:i + len(o)]).same(o)

    def _find(self, o, start=0, rev=False):
        o = SymStr.of(o)
        rng = range(start, len(self.c) - len(o.c) + 1)
        for i in (reversed(rng) if rev else rng):
            if test(self.at(i, o)):
                return i
        return -1

    def find(self, o, start=0):
        return self._find(o, start)

    def rfind(self, o):
        return self._find(o, rev=True)

    def index(self, o, start=0):
        i = self._find(o, start)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, o):
        n, i = 0, 0
        while (j := self._find(o, i)) >= 0:
            n, i = n + 1, j + max(len(o), 1)
        return n

    def startswith(self, o, start=0):
        return any(test(SymStr(self.c[start:]).at(0, x)) for x in (o if isinstance(o, tuple) else (o,)))

    def endswith(self, o):
        return any(len(x) <= len(self.c) and test(SymStr(self.c[len(self.c) - len(x):]).same(x)) for x in (o if isinstance(o, tuple) else (o,)))

    def _strip(self, st, left, right):
        st = SPACE if st is None else chars(st)
        c = list(self.c)
        while left and c and test(member(c[0], st)):
            c.pop(0)
        while right and c and test(member(c[-1], st)):
            c.pop()
        return SymStr(c)

    def strip(self, st=None):
        return self._strip(st, True, True)

    def lstrip(self, st=None):
        return self._strip(st, True, False)

    def rstrip(self, st=None):
        return self._strip(st, False, True)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            if maxsplit >= 0:
                raise Unsupported("split with a limit")
            cur = []
            for x in self.c:
                if test(member(x, SPACE)):
                    if cur:
                        out.append(SymStr(cur))
                    cur = []
                else:
                    cur.append(x)
            return out + ([SymStr(cur)] if cur else [])
        i = 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self._find(sep, i)
            if j < 0:
                break
            out.append(SymStr(self.c[i:j]))
            i = j + len(sep)
        return out + [SymStr(self.c[i:])]

    def partition(self, sep):
        i = self._find(sep)
        if i < 0:
            return self, SymStr(()), SymStr(())
        return self[:i], SymStr.of(sep), self[i + len(sep):]

    def rpartition(self, sep):
        i = self._find(sep, rev=True)
        if i < 0:
            return SymStr(()), SymStr(()), self
        return self[:i], SymStr.of(sep), self[i + len(sep):]

    def _pad(self, width, fill, align):
        n = max(0, width - len(self.c))
        l = n if align == ">" else n // 2 + (n & width & 1) if align == "^" else 0
        return SymStr((fill,) * l + self.c + (fill,) * (n - l))

    def ljust(self, width, fill=" "):
        return self._pad(width, fill, "<")

    def rjust(self, width, fill=" "):
        return self._pad(width, fill, ">")

    def center(self, width, fill=" "):
        return self._pad(width, fill, "^")

    def zfill(self, width):
        if self.c and self.c[0] in ("+", "-"):
            return SymStr(self.c[:1]) + SymStr(self.c[1:]).rjust(width - 1, "0")
        return self.rjust(width, "0")

    def removeprefix(self, o):
        return self[len(o):] if self.startswith(o) else self

    def removesuffix(self, o):
        return self[:len(self) - len(o)] if len(o) and self.endswith(o) else self

    def translate(self, table):
        out = []
        for x in self.c:
            if isinstance(x, str):
                out.extend(x.translate(table))
            elif test(member(x, frozenset(INDEX[chr(k)] for k in table if chr(k) in INDEX))):
                raise Unsupported("translation of a symbolic character")
            else:
                out.append(x)
        return SymStr(out)

    def splitlines(self):
        brk = where(lambda c: len(("a" + c + "b").splitlines()) == 2, "brk")
        out, cur, k = [], [], 0
        while k < len(self.c):
            x = self.c[k]
            if test(member(x, brk)):
                if k + 1 < len(self.c) and test(member(x, chars("\r"))) and test(member(self.c[k + 1], chars("\n"))):
                    k += 1
                out.append(SymStr(cur))
                cur = []
            else:
                cur.append(x)
            k += 1
        return out + ([SymStr(cur)] if cur else [])

    def replace(self, a, b):
        return SymStr.of(join(b, self.split(a)))

    def _all(self, f):
        st = where(f, f)
        return len(self.c) > 0 and test(cand([f(x) if isinstance(x, str) else member(x, st) for x in self.c]))

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isascii(self):
        return test(cand([member(x, where(str.isascii, str.isascii)) for x in self.c]))

    def __str__(self):
        return self

    def __repr__(self):
        return "<text of %d characters>" % len(self.c)

    def __format__(self, spec):
        raise Unsupported("formatting of a symbolic text")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if hasattr(str, n):
            raise Unsupported("str." + n)
        raise AttributeError(n)

    def __lt__(self, o):
        raise Unsupported("ordering of symbolic texts")

    __gt__ = __le__ = __ge__ = __lt__


def join(sep, items):
    items = list(items)
    if isinstance(sep, str) and all(isinstance(x, str) for x in items):
        return sep.join(items)
    out = []
    s = SymStr.of(sep)
    for k, x in enumerate(items):
        t = SymStr.of(x)
        if t is None:
            raise TypeError("sequence item: expected str instance")
        out.extend(s.c if k else ())
        out.extend(t.c)
    return SymStr(out)


# what the loader puts in place of text operations of built-in str that cannot be intercepted
def t_join(obj, *args):
    if isinstance(obj, (str, SymStr)) and len(args) == 1:
        return join(obj, args[0])
    return obj.join(*args)


def t_contains(item, box):
    if isinstance(box, str) and isinstance(item, SymStr):
        return item in SymStr(box) if len(item) != 1 else test(member(item.c[0], chars(box)))
    return item in box


def t_format(*parts):
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    return join("", parts)
