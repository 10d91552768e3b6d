"""C34: the graph parser reads every well-formed edge list exactly and rejects others."""

from fractions import Fraction

LABELS = ["style of the text", "accepted exactly in a documented style", "one edge per item", "names as written",
          "weight as written", "weight 0 if none"]
BOUNDS = {"quick": "all texts of up to 11 characters (style: up to 14) over ASCII and one representative of every other class that Python's character predicates distinguish; 11 long texts of 5 to 8 edges with two or three arbitrary characters",
          "thorough": "the same up to 13 characters (style: up to 18)"}
NOTE = "A name is a run of word characters (letters, digits, underscore; any script); items are separated by one whitespace character."
NAMES = {0: False, 1: True, 2: False, 3: True}  # names longer than one character, joined by a dash
LONG = ["ab bc cd d? ea?ac gb ba", "12 a1 _b ?? c_ zz xy 0_", "alpha-beta beta-gamma gam?a-delta d?lta-x y-zeta", "node_1-node_2 node_22-n0de?333_node_4-node_5 a-?",
        "ab:1.5 bc:12.3456?8 cd:100?0 de:0.000125 ef:7", "ab:0 bc:12345678901.25?cd:3 d?:1.5 aa:00.50?",
        "node_1-node_2:123456.?8901 node_2-n?ode_3:0 node_3-node_4:7?", "a-b:1.123456?8 c-d:0.00000002? e-f:98765432101234?.5", "ab:1.123456?8 bc:0.0000000012? ef:98765432101234.000000001",
        "a-b:1 c-d:2.5 e-f?3.25 g-h:4.12?5 i-j:5 k-l:6", "p-q:10.0625?r-s:20.5?t-u:30"]


def cases(tier, seed):
    n, m = (14, 11) if tier == "quick" else (18, 13)
    out = [{"name": f"style of texts of {k}", "fn": "style", "params": {"n": k}, "opts": {"samples": 12}} for k in range(n + 1)]
    out += [{"name": f"texts of {k}", "fn": "parse", "params": {"n": k}, "opts": {"samples": 24}} for k in range(m + 1)]
    for k, like in enumerate(LONG):
        for fn in ("style", "parse"):
            out.append({"name": f"{fn} of a long text {k}", "fn": fn, "params": {"n": len(like), "like": like}, "opts": {"samples": 8, "path_wall": 30, "max_decisions": 3000}})
    return out


class Language:
    """The documented styles, as conditions on the characters."""

    def __init__(self, api, t, n):
        self.api, self.t, self.n = api, t, n
        self.memo = {}

    def is_(self, i, kind):
        return self.api.char_is(self.t, i, kind)

    def run(self, i, j, kind):
        """All of i..j-1 (at least one) are of the kind."""
        if j <= i:
            return False
        key = ("run", i, j, kind)
        if key not in self.memo:
            c = self.is_(j - 1, kind)
            self.memo[key] = c if j == i + 1 else self.api.define(self.api.And(self.run(i, j - 1, kind), c))
        return self.memo[key]

    def ends_names(self, i, style):
        n = self.n
        if not NAMES[style]:
            return {i + 2: self.run(i, i + 2, "word")} if i + 2 <= n else {}
        out = {}
        for d in range(i + 1, n):
            for j in range(d + 2, n + 1):
                out.setdefault(j, []).append(self.api.And(self.run(i, d, "word"), self.is_(d, "-"), self.run(d + 1, j, "word")))
        return {j: self.api.define(self.api.Or(cs)) for j, cs in out.items()}

    def ends_number(self, i):
        out = {}
        for j in range(i + 1, self.n + 1):
            out[j] = [self.run(i, j, "digit")]
            for p in range(i + 1, j - 1):
                out[j].append(self.api.And(self.run(i, p, "digit"), self.is_(p, "."), self.run(p + 1, j, "digit")))
        return {j: self.api.define(self.api.Or(cs)) for j, cs in out.items()}

    def ends_item(self, i, style):
        a = self.ends_names(i, style)
        if style < 2:
            return a
        out = {}
        for p, c in a.items():
            if p >= self.n:
                continue
            for j, d in self.number(p + 1).items():
                out.setdefault(j, []).append(self.api.And(c, self.is_(p, ":"), d))
        return {j: self.api.define(self.api.Or(cs)) for j, cs in out.items()}

    def number(self, i):
        key = ("number", i)
        if key not in self.memo:
            self.memo[key] = self.ends_number(i)
        return self.memo[key]

    def accepts(self, style):
        """The text is a list of items of the style."""
        n = self.n
        start = {0: True}
        whole = []
        for i in range(n + 1):
            if i not in start:
                continue
            s = start[i] if i == 0 else self.api.define(self.api.Or(start[i]))
            for j, c in self.ends_item(i, style).items():
                both = self.api.And(s, c)
                if j == n:
                    whole.append(both)
                else:
                    start.setdefault(j + 1, []).append(self.api.And(both, self.is_(j, "space")))
        return self.api.define(self.api.Or(whole)) if whole else False


def parser(api):
    return api.mod("pytimize.parsers").GraphParser


def style(api, n, like=None):
    t = api.text("t", n, like)
    lang = Language(api, t, n)
    tag, r = api.call(parser(api).get_expression_type, t)
    api.observe("type", [tag, r if tag == "ok" else ""])
    if tag != "ok":
        api.fail("style of the text", "raised")
    for s in range(4):
        api.check(api.Iff(lang.accepts(s), r == s), "style of the text")
    api.check(r in (-1, 0, 1, 2, 3), "style of the text")


def parse(api, n, like=None):
    t = api.text("t", n, like)
    lang = Language(api, t, n)
    tag, r = api.call(parser(api).parse, t, raises=(ValueError,))
    api.observe("outcome", tag)
    legal = [lang.accepts(s) for s in range(4)]
    api.check(api.Iff(tag == "ok", api.Or(legal)), "accepted exactly in a documented style")
    if tag != "ok":
        return
    s = [k for k in range(4) if api.holds(legal[k])][0]
    items = walk(api, t, n, s)
    api.observe("count", len(r))
    api.check(len(r) == len(items), "one edge per item")
    for got, (a, b, w) in zip(r, items):
        api.check(len(got) == 3, "one edge per item")
        api.check(api.And(api.same_text(got[0], t[a[0]:a[1]]), api.same_text(got[1], t[b[0]:b[1]])), "names as written")
        if w is None:
            api.check(api.eq(got[2], 0), "weight 0 if none")
        else:
            api.check(shown(api, got[2], value(api, t, *w)), "weight as written")


def walk(api, t, n, s):
    """Segmentation of an accepted text of style s, left to right."""
    out, i = [], 0

    def run(j, kind):
        k = j
        while k < n and api.holds(api.char_is(t, k, kind)):
            k += 1
        return k

    while i < n:
        if NAMES[s]:
            d = run(i, "word")
            j = run(d + 1, "word")
            a, b = (i, d), (d + 1, j)
        else:
            j = i + 2
            a, b = (i, i + 1), (i + 1, j)
        w = None
        if s >= 2:
            e = run(j + 1, "digit")
            dot = e
            if e < n and api.holds(api.char_is(t, e, ".")):
                e = run(e + 1, "digit")
            w = (j + 1, dot, e)
            j = e
        out.append((a, b, w))
        i = j + 1
    return out


def shown(api, got, v):
    """The number is the one written, to the last digits a float has."""
    if api.symbolic:
        return api.eq(got, v)
    return abs(Fraction(float(got)) - v) <= abs(v) * Fraction(1, 10 ** 14)


def value(api, t, i, dot, end):
    """The number written, exactly."""
    v = api.num(0) if api.symbolic else Fraction(0)
    for k in range(i, dot):
        v = v * 10 + api.digit(t, k)
    scale = Fraction(1)
    for k in range(dot + 1, end):
        scale = scale / 10
        v = v + api.digit(t, k) * scale
    return v
