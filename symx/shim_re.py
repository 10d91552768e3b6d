"""`re` over texts of symbolic characters.  Whether a pattern matches is one formula over the
characters; where it matches is found by backtracking in Python's order under that formula."""
import re as _re
import types
from re import _parser

from . import symstr as SS
from .engine import Unsupported, cand, cnot, cor
from .symstr import SymStr, define, member, test

C = _parser
FLAGS_OK = _re.UNICODE | _re.VERBOSE | _re.ASCII | _re.MULTILINE | _re.DOTALL


def _category(name, ascii_):
    n = str(name).lower()
    f = _re.ASCII if ascii_ else 0
    for key, p in (("category_not_digit", r"\D"), ("category_digit", r"\d"), ("category_not_space", r"\S"),
                   ("category_space", r"\s"), ("category_not_word", r"\W"), ("category_word", r"\w")):
        if n.endswith(key):
            r = _re.compile(p, f)
            return lambda c: r.match(c) is not None
    raise Unsupported("regular expression category " + n)


class Matcher:
    """One pattern over one text."""

    def __init__(self, pat, s):
        self.pat = pat
        self.s = SymStr.of(s)
        self.n = len(self.s.c)
        self.flags = pat.flags
        self.sets = pat.sets
        self.reach = {}

    # -- sets of characters
    def charset(self, op, av):
        key = (op, str(av))
        r = self.sets.get(key)
        if r is None:
            r = self.sets[key] = SS.where(self._pred(op, av))
        return r

    def _pred(self, op, av):
        name = str(op)
        if name == "LITERAL":
            return lambda c: ord(c) == av
        if name == "NOT_LITERAL":
            return lambda c: ord(c) != av
        if name == "ANY":
            return (lambda c: True) if self.flags & _re.DOTALL else (lambda c: c != "\n")
        neg, fs = False, []
        for o, a in av:
            o = str(o)
            if o == "NEGATE":
                neg = True
            elif o == "LITERAL":
                fs.append(lambda c, a=a: ord(c) == a)
            elif o == "RANGE":
                fs.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
            elif o == "CATEGORY":
                fs.append(_category(a, self.flags & _re.ASCII))
            else:
                raise Unsupported("regular expression set " + o)
        return lambda c: any(f(c) for f in fs) != neg

    def at(self, where, p):
        w = str(where)
        n = self.n
        nl = SS.chars("\n")
        if w == "AT_BEGINNING_STRING":
            return p == 0
        if w == "AT_BEGINNING":
            if p == 0:
                return True
            return member(self.s.c[p - 1], nl) if self.flags & _re.MULTILINE else False
        if w == "AT_END_STRING":
            return p == n
        if w == "AT_END":
            if p == n:
                return True
            if self.flags & _re.MULTILINE:
                return member(self.s.c[p], nl)
            return member(self.s.c[p], nl) if p == n - 1 else False
        if w in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
            f = _category("category_word", self.flags & _re.ASCII)
            st = SS.where(f)
            a = member(self.s.c[p - 1], st) if p > 0 else False
            b = member(self.s.c[p], st) if p < n else False
            diff = cor([cand([a, cnot(b)]), cand([cnot(a), b])])
            return diff if w == "AT_BOUNDARY" else cnot(diff)
        raise Unsupported("regular expression position " + w)

    # -- which positions can be reached, as conditions
    def ends(self, seq, i):
        """{end position: condition} of a sequence of nodes started at i."""
        key = (id(seq), i)
        r = self.reach.get(key)
        if r is None:
            cur = {i: True}
            for op, av in seq:
                nxt = {}
                for p, c in cur.items():
                    for q, d in self.step(op, av, p).items():
                        nxt.setdefault(q, []).append(cand([c, d]))
                cur = {q: define(cor(ds)) for q, ds in nxt.items()}
                cur = {q: d for q, d in cur.items() if d is not False}
            r = self.reach[key] = cur
        return r

    def step(self, op, av, p):
        name = str(op)
        if name in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
            return {p + 1: member(self.s.c[p], self.charset(op, av))} if p < self.n else {}
        if name == "AT":
            return {p: self.at(av, p)}
        if name == "BRANCH":
            out = {}
            for alt in av[1]:
                for q, d in self.ends(alt, p).items():
                    out.setdefault(q, []).append(d)
            return {q: cor(ds) for q, ds in out.items()}
        if name == "SUBPATTERN":
            if av[1] or av[2]:
                raise Unsupported("inline flags")
            return self.ends(av[3], p)
        if name in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, body = av
            hi = self.n + lo + 1 if hi is C.MAXREPEAT else hi
            out = {}
            cur = {p: True}
            k = 0
            while cur and k <= hi:
                if k >= lo:
                    for q, d in cur.items():
                        out.setdefault(q, []).append(d)
                nxt = {}
                for q, c in cur.items():
                    for q2, d in self.ends(body, q).items():
                        if q2 == q and k >= lo:
                            continue
                        nxt.setdefault(q2, []).append(cand([c, d]))
                cur = {q: define(cor(ds)) for q, ds in nxt.items()}
                cur = {q: d for q, d in cur.items() if d is not False}
                k += 1
            return {q: define(cor(ds)) for q, ds in out.items()}
        if name in ("ASSERT", "ASSERT_NOT"):
            d, body = av
            if d < 0:
                raise Unsupported("lookbehind")
            c = cor(list(self.ends(body, p).values()))
            return {p: c if name == "ASSERT" else cnot(c)}
        raise Unsupported("regular expression construct " + name)

    def exists(self, i, full=False):
        e = self.ends(self.pat.tree, i)
        return e.get(self.n, False) if full else cor(list(e.values()))

    # -- the match Python finds
    def run(self, i, full=False):
        groups = {}

        def done(p):
            return p if not full or p == self.n else None

        return self.seq(self.pat.tree, 0, i, groups, done), groups

    def seq(self, nodes, k, p, g, cont):
        if k == len(nodes):
            return cont(p)
        op, av = nodes[k]
        name = str(op)

        def rest(q):
            return self.seq(nodes, k + 1, q, g, cont)

        if name in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
            if p < self.n and test(member(self.s.c[p], self.charset(op, av))):
                return rest(p + 1)
            return None
        if name == "AT":
            return rest(p) if test(self.at(av, p)) else None
        if name == "BRANCH":
            for alt in av[1]:
                r = self.seq(alt, 0, p, g, rest)
                if r is not None:
                    return r
            return None
        if name == "SUBPATTERN":
            num = av[0]
            old = g.get(num)

            def close(q):
                if num is not None:
                    prev = g.get(num)
                    g[num] = (p, q)
                    r = rest(q)
                    if r is None:
                        if prev is None:
                            g.pop(num, None)
                        else:
                            g[num] = prev
                    return r
                return rest(q)

            r = self.seq(av[3], 0, p, g, close)
            if r is None and num is not None:
                if old is None:
                    g.pop(num, None)
                else:
                    g[num] = old
            return r
        if name in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, body = av
            greedy = name == "MAX_REPEAT"

            def loop(count, q):
                def more():
                    if hi is not C.MAXREPEAT and count >= hi:
                        return None
                    return self.seq(body, 0, q, g, lambda q2: loop(count + 1, q2) if q2 != q or count < lo else None)

                if count < lo:
                    return more()
                if greedy:
                    r = more()
                    return rest(q) if r is None else r
                r = rest(q)
                return more() if r is None else r

            return loop(0, p)
        if name in ("ASSERT", "ASSERT_NOT"):
            ok = test(cor(list(self.ends(av[1], p).values())))
            return rest(p) if ok == (name == "ASSERT") else None
        raise Unsupported("regular expression construct " + name)


class SymMatch:
    def __init__(self, m, i, full):
        self._m = m
        self._i = i
        self._full = full
        self._r = None
        self.string = m.s
        self.re = m.pat

    def _span(self, k):
        if self._r is None:
            end, g = self._m.run(self._i, self._full)
            if end is None:
                raise Unsupported("match lost")
            self._r = (end, g)
        end, g = self._r
        if isinstance(k, str):
            k = self._m.pat.names[k]
        if k == 0:
            return self._i, end
        if not 0 < k <= self._m.pat.groups:
            raise IndexError("no such group")
        return g.get(k, (-1, -1))

    def _text(self, k, default=None):
        a, b = self._span(k)
        return default if a < 0 else self._m.s[a:b]

    def group(self, *ks):
        if not ks:
            return self._text(0)
        return self._text(ks[0]) if len(ks) == 1 else tuple(self._text(k) for k in ks)

    def __getitem__(self, k):
        return self._text(k)

    def groups(self, default=None):
        return tuple(self._text(k, default) for k in range(1, self._m.pat.groups + 1))

    def groupdict(self, default=None):
        return {n: self._text(k, default) for n, k in self._m.pat.names.items()}

    def start(self, k=0):
        return self._span(k)[0]

    def end(self, k=0):
        return self._span(k)[1]

    def span(self, k=0):
        return self._span(k)

    def __bool__(self):
        return True


class SymPattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.real = _re.compile(pattern, flags)
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.names = dict(self.real.groupindex)
        self.groupindex = self.names
        self.sets = {}
        self._tree = None

    @property
    def tree(self):
        if self._tree is None:
            if self.flags & ~FLAGS_OK:
                raise Unsupported("regular expression flags")
            self._tree = _parser.parse(self.pattern, self.flags & ~_re.UNICODE)
        return self._tree

    def _try(self, s, i, full=False):
        m = Matcher(self, s)
        return SymMatch(m, i, full) if test(define(m.exists(i, full))) else None

    def match(self, s, pos=0):
        if isinstance(s, str):
            return self.real.match(s, pos)
        if not isinstance(s, SymStr):
            raise TypeError("expected string")
        if pos:
            raise Unsupported("match from a position")
        return self._try(s, 0)

    def fullmatch(self, s):
        if isinstance(s, str):
            return self.real.fullmatch(s)
        if not isinstance(s, SymStr):
            raise TypeError("expected string")
        return self._try(s, 0, True)

    def _from(self, s, i):
        m = Matcher(self, s)
        while i <= len(s.c):
            if test(define(m.exists(i))):
                return SymMatch(m, i, False)
            i += 1
        return None

    def search(self, s):
        if isinstance(s, str):
            return self.real.search(s)
        return self._from(s, 0)

    def finditer(self, s):
        if isinstance(s, str):
            yield from self.real.finditer(s)
            return
        i = 0
        while (m := self._from(s, i)) is not None:
            if m.end() == m.start():
                raise Unsupported("empty matches")
            yield m
            i = m.end()

    def findall(self, s):
        if isinstance(s, str):
            return self.real.findall(s)
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.groups(SymStr(()))[0])
            else:
                out.append(m.groups(SymStr(())))
        return out

    def split(self, s, maxsplit=0):
        if isinstance(s, str):
            return self.real.split(s, maxsplit)
        if maxsplit or self.groups:
            raise Unsupported("split with groups or a limit")
        out, i = [], 0
        for m in self.finditer(s):
            out.append(s[i:m.start()])
            i = m.end()
        return out + [s[i:]]

    def sub(self, repl, s, count=0):
        if isinstance(s, str):
            return self.real.sub(repl, s, count)
        if count or isinstance(repl, str) and "\\" in repl:
            raise Unsupported("sub with references or a limit")
        out, i = SymStr(()), 0
        for m in self.finditer(s):
            out = out + s[i:m.start()] + (repl if isinstance(repl, (str, SymStr)) else repl(m))
            i = m.end()
        return out + s[i:]


def compile_(p, flags=0):
    return p if isinstance(p, SymPattern) else SymPattern(p, int(flags))


class ReShim(types.ModuleType):
    def __init__(self):
        super().__init__("re")
        d = self.__dict__
        for n in ("match", "fullmatch", "search", "findall", "finditer"):
            d[n] = lambda p, s, flags=0, n=n: getattr(compile_(p, flags), n)(s)
        d["sub"] = lambda p, r, s, count=0, flags=0: compile_(p, flags).sub(r, s, count)
        d["split"] = lambda p, s, maxsplit=0, flags=0: compile_(p, flags).split(s, maxsplit)
        d["compile"] = compile_
        d["Pattern"] = SymPattern
        d["Match"] = SymMatch

    def __getattr__(self, n):
        return getattr(_re, n)


_module = ReShim()


def module():
    return _module
