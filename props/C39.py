"""C39: the printed program shows its numbers, operators and signs, with columns aligned."""
TEXTS = True
LABELS = ["objective line", "objective shown", "numbers shown", "one line per constraint", "constraint shown", "sign lines",
          "columns aligned"]
BOUNDS = {"quick": "one symbolic number anywhere in a 2 x 2 or 2 x 3 program: every multiple of 1/10^4 up to 10^5, every odd multiple "
                   "of 1/10^8 below 1 not ending in 5, every integer to 10^10 and every multiple of 10^5 up to 10^14, either sign, every multiple of 1/10^12 within 1/10^9 of 1, 3, 40 or 999; "
                   "two symbolic numbers below 10 (multiples of 1/10^3) in one column; all operator / sign / objective patterns up to 2 x 3; 6 patterns of 1 x 12 and 11 x 2",
          "thorough": "as quick up to 10^7 / 1/10^10, two symbolic numbers below 100 with 4 decimals, patterns up to 3 x 3"}
NOTE = ("Numbers exactly halfway between two roundings are left out (the machine rounds by the binary value). What counts as readable: "
        "shown to 0.0005, or to three significant digits below 1, four above 10^10.")
OPS = {"≤": "<=", "≥": ">=", "=": "="}
SUB = {c: i for i, c in enumerate("₀₁₂₃₄₅₆₇₈₉")}


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    places = ["c1", "c2", "A11", "A12", "A22", "b1", "b2", "z"]
    for p in places:
        for g in ("decimal", "small", "large", "huge"):
            out.append({"name": f"number at {p} {g}", "fn": "number", "params": {"place": p, "grid": g, "thorough": t},
                        "opts": {"samples": 20, "tol": 1e-12, "max_decisions": 4000, "path_wall": 30}})
        out.append({"name": f"number at {p} next to an integer", "fn": "number", "params": {"place": p, "grid": "near", "thorough": t},
                    "opts": {"samples": 20, "exact_tol": True, "max_decisions": 4000, "path_wall": 30}})
    for p in (("A11", "A21"), ("b1", "b2"), ("c1", "c2"), ("c2", "z")):
        out.append({"name": f"numbers at {p[0]}, {p[1]}", "fn": "pair", "params": {"places": p, "thorough": t},
                    "opts": {"samples": 20, "tol": 1e-12, "max_decisions": 4000}})
    for m, n in ([(0, 2), (1, 1), (1, 2), (2, 2), (2, 3)] + ([(3, 2), (3, 3), (2, 4)] if t else [])):
        for o in ("max", "min"):
            for integer in (False, True):
                out.append({"name": f"{'integer ' * integer}program {m}x{n} {o}", "fn": "pattern",
                            "params": {"m": m, "n": n, "objective": o, "integer": integer}, "opts": {"samples": 10, "tol": 1e-12}})
    for m, n in [(1, 12), (11, 2)]:
        for k in range(6):
            out.append({"name": f"wide {m}x{n} {k}", "fn": "pattern", "params": {"m": m, "n": n, "objective": ("max", "min")[k % 2], "integer": k == 3, "rotate": k},
                        "opts": {"samples": 4, "tol": 1e-12}})
    return out


# ---------------------------------------------------------------- reading the text
def digit(c):
    return not isinstance(c, str) or c in "0123456789"


def value(c):
    return c if not isinstance(c, str) else int(c)


def read(c):
    """The number a text stands for (Horner, exponent by scaling), or None."""
    i, sign, seen = 0, 1, False
    if c and c[0] in ("-", "+") and isinstance(c[0], str):
        sign, i = (-1 if c[0] == "-" else 1), 1
    mant, scale, dot = 0, 0, False
    while i < len(c):
        if digit(c[i]):
            mant, seen = mant * 10 + value(c[i]), True
            scale += dot
        elif c[i] == "." and not dot:
            dot = True
        else:
            break
        i += 1
    if not seen:
        return None
    e = 0
    if i < len(c):
        t = c[i:]
        if t[0] != "e" or len(t) < 2 or not all(isinstance(x, str) for x in t):
            return None
        try:
            e = int("".join(t[1:]))
        except ValueError:
            return None
    return sign * mant, e - scale


def split(c, sep):
    out = [[]]
    for x in c:
        if isinstance(x, str) and x == sep:
            out.append([])
        else:
            out[-1].append(x)
    return out


def find(c, s, start=0):
    for i in range(start, len(c) - len(s) + 1):
        if all(isinstance(c[i + k], str) and c[i + k] == s[k] for k in range(len(s))):
            return i
    return -1


def words(c):
    return [w for w in split(c, " ") if w]


def plain(c):
    return "".join(x if isinstance(x, str) else "#" for x in c)


class Num:
    """The number sign * size / 10^g of the program."""

    def __init__(self, size, g=0, sign=1):
        self.size, self.g, self.sign = size, g, sign

    def v(self):
        return self.sign * self.size / 10 ** self.g if self.g else self.sign * self.size

    def shown(self, api, text, sign=None):
        """The text stands for the number (its absolute value if sign is given) with the promised precision."""
        r = read(text)
        if r is None:
            return False
        n, e = r
        s = max(0, -(e + self.g))
        size, unit = self.size * 10 ** s, 10 ** (self.g + s)
        d = n * 10 ** (e + self.g + s) - (self.sign if sign is None else sign) * size

        def within(k, lim):
            return api.And(api.le(k * d, lim), api.ge(k * d, -lim))
        big = api.gt(size, unit * 10 ** 10)
        small = api.lt(size, unit)
        return api.And(api.Implies(big, within(2000, size)), api.Implies(small, within(200, size)),
                       api.Or(big, within(2000, unit)))


def aligned(lines):
    def marks(c):
        return [(i, x) for i, x in enumerate(c) if isinstance(x, str) and x in ".[]"]
    return all(marks(l) == marks(lines[0]) for l in lines)


def examine(api, lp, A, b, c, z, objective, ops, neg, free):
    m, n = len(b), len(c)
    text = repr(lp) if not api.symbolic else lp.__repr__()
    t = api.chars(text)
    lines = split(t, "\n")
    # objective
    head = lines[0]
    end = find(head, "]x")
    api.check(plain(head[:5]) == ("Max [" if objective == "max" else "Min [") and end > 0, "objective line")
    got = words(head[5:end])
    api.check(len(got) == n, "objective line")
    api.check(api.And([x.shown(api, g) for x, g in zip(c, got)]), "objective shown")
    rest = words(head[end + 2:])
    if not rest:
        api.check(api.eq(z.size, 0), "objective shown")
    else:
        sg = {"+": 1, "-": -1}.get(plain(rest[0]))
        api.check(len(rest) == 2 and sg is not None, "objective line")
        api.check(api.And(api.Or(api.eq(z.size, 0), sg == z.sign), z.shown(api, rest[1], 1)), "objective shown")
    # constraints
    rows = [l for l in lines[1:] if l and isinstance(l[0], str) and l[0] == "["]
    api.check(len(rows) == m, "one line per constraint")
    for i, l in enumerate(rows):
        e = find(l, "]")
        s = find(l, "[", e)
        api.check(e > 0 and s > 0, "constraint shown")
        mid = [w for w in map(plain, words(l[e + 1:s])) if w != "x"]
        api.check(len(mid) == 1 and OPS.get(mid[0]) == ops[i], "constraint shown")
        got = words(l[1:e])
        api.check(len(got) == n and plain(l[-1:]) == "]", "constraint shown")
        api.check(api.And([x.shown(api, g) for x, g in zip(A[i], got)]), "numbers shown")
        api.check(b[i].shown(api, [x for x in l[s + 1:-1] if x != " " or not isinstance(x, str)]), "numbers shown")
    if m > 1:
        api.check(aligned(rows), "columns aligned")
    # signs
    after = lines.index(rows[-1]) + 1 if rows else 1
    shown = {"≤": set(), "≥": set()}
    integral = False
    for l in map(plain, lines[after:]):
        if not l.strip() or l.startswith("Subject"):
            continue
        if l.strip() == "x ∈ Z":
            integral = True
            continue
        w = l.split()
        api.check(len(w) >= 3 and w[-1] == "0" and w[-2] in shown, "sign lines")
        names = [x.rstrip(",") for x in w[:-2]]
        for x in names:
            api.check(x[:1] == "x" and all(y in SUB for y in x[1:]), "sign lines")
            shown[w[-2]] |= {int("".join(str(SUB[y]) for y in x[1:]))} if x != "x" else set(range(1, n + 1))
    api.check(shown["≤"] == set(neg), "sign lines")
    api.check(shown["≥"] == set(range(1, n + 1)) - set(neg) - set(free), "sign lines")
    return integral


def build(api, A, b, c, z, objective="max", ops=None, neg=(), free=(), integer=False):
    m = api.mod("pytimize.programs")
    cls = m.IntegerProgram if integer else m.LinearProgram
    rows = [[x.v() for x in r] for r in A]
    return cls(api.array(rows) if rows else api.mod("numpy").zeros((0, len(c))), api.array([x.v() for x in b]),
               api.array([x.v() for x in c]), z.v(), objective, ops, free_variables=list(free), negative_variables=list(neg))


def grid(api, name, kind, thorough):
    sign = api.choice("sign " + name, [1, -1])
    if kind == "near":                                # within and just outside the tolerance for integers
        k, d = api.choice("k " + name, [1, 3, 40, 999]), api.int("d " + name, -1000, 1000)
        api.assume(api.Or(api.And(api.gt(d, -70), api.lt(d, 70)), api.gt(d, 150), api.lt(d, -150)))
        return Num(k * 10 ** 12 + d, 12, sign)
    q, r = api.int("q " + name, 0), api.int("r " + name, 0, 9)
    k = 10 * q + r
    if kind == "decimal":
        api.assume(api.And(api.ne(r, 5), api.le(k, 10 ** (11 if thorough else 9))))
        return Num(k, 4, sign)
    if kind == "small":
        g = 10 if thorough else 8
        api.assume(api.And(api.Or([api.eq(r, j) for j in (1, 3, 7, 9)]), api.lt(k, 10 ** g)))
        return Num(k, g, sign)
    if kind == "large":
        api.assume(api.le(k, 10 ** 10))
        return Num(k, 0, sign)
    api.assume(api.And(api.ne(r, 5), api.ne(r, 0), api.gt(k, 10 ** 5), api.le(k, 10 ** 9)))
    return Num(k * 10 ** 5, 0, sign)


def tables():
    A = [[Num(125, 1, -1), Num(3)], [Num(333, 3), Num(1, 0, -1)]]
    return {"A": A, "b": [Num(5), Num(2505, 2)], "c": [Num(1), Num(25, 2, -1)], "z": Num(0)}


def put(T, place, x):
    if place == "z":
        T["z"] = x
    elif place[0] == "A":
        T["A"][int(place[1]) - 1][int(place[2]) - 1] = x
    else:
        T[place[0]][int(place[1]) - 1] = x


def number(api, place, grid, thorough):
    T = tables()
    put(T, place, globals()["grid"](api, place, grid, thorough))
    lp = build(api, T["A"], T["b"], T["c"], T["z"], "min", ["<=", "="], [2])
    examine(api, lp, T["A"], T["b"], T["c"], T["z"], "min", ["<=", "="], [2], [])


def pair(api, places, thorough):
    T = tables()
    for p in places:
        g, lim = (4, 10 ** 6) if thorough else (3, 10 ** 4)
        sign = api.choice("sign " + p, [1, -1])
        q, r = api.int("q " + p, 0), api.int("r " + p, 0, 9)
        api.assume(api.lt(10 * q + r, lim))
        if thorough:
            api.assume(api.ne(r, 5))
        put(T, p, Num(10 * q + r, g, sign))
    lp = build(api, T["A"], T["b"], T["c"], T["z"], "max", [">=", "<="], [], [1])
    examine(api, lp, T["A"], T["b"], T["c"], T["z"], "max", [">=", "<="], [], [1])


def rotated(k, size, kinds):
    """A fixed choice for each of many rows or variables."""
    if k < 3:
        return [kinds[(k + i) % 3] for i in range(size)]
    return [kinds[(k + (i >= size - 2) + (i == 1)) % 3] for i in range(size)]


def pattern(api, m, n, objective, integer, rotate=None):
    k = api.int("k", 1, 99)
    A = [[Num((3 * i + 5 * j) % 7 + 1, j % 2) for j in range(n)] for i in range(m)]
    b = [Num(i + 2, 0, 1 - 2 * (i % 2)) for i in range(m)]
    c = [Num(j + 1, 1) for j in range(n)]
    z = Num(0)
    if m:
        b[-1] = Num(k, 1)
    else:
        z = Num(k, 1)
    if rotate is None:
        ops = [api.choice(f"op{i}", ["<=", ">=", "="]) for i in range(m)]
        signs = [api.choice(f"sign{j}", ["positive", "negative", "free"]) for j in range(n)]
    else:
        ops, signs = rotated(rotate, m, ["<=", ">=", "="]), rotated(rotate, n, ["positive", "negative", "free"])
    neg = [j + 1 for j in range(n) if signs[j] == "negative"]
    free = [j + 1 for j in range(n) if signs[j] == "free"]
    lp = build(api, A, b, c, z, objective, ops, neg, free, integer)
    integral = examine(api, lp, A, b, c, z, objective, ops, neg, free)
    api.check(integral == integer, "sign lines")
