"""C02: disjoint sets track exactly the unions performed."""
LABELS = ["same representative exactly when connected", "the representative is a member of its class",
          "finds never change the classes", "unknown and duplicate items are refused and change nothing"]
BOUNDS = {"quick": "4 items, every history of 3 operations; 3 items, every history of 4 operations; each operation a union of any two items, a find, or a call naming an unknown item; item lists up to length 4 over 3 names; merged blocks of 2 and 4, 4 and 4 items joined through any members; two trees as deep as unions make them, of 16 and 32 items each, joined or searched through any item",
          "thorough": "4 items and 4 operations, 5 items and 3 operations, 6 items and 5 unions that each join two classes"}
NOTE = "operations and their arguments are symbolic; each feasible value is one path of the solver"
NAMES = ["a", "b", "ab", "-", "", "0"]


def cases(tier, seed):
    out = [{"name": f"construct {k}", "fn": "construct", "params": {"k": k}} for k in range(5)]
    hist = [(2, 4), (3, 4), (4, 3)] if tier == "quick" else [(2, 4), (3, 5), (4, 4), (5, 3)]
    for n, k in hist:
        for first in range(n * n):
            out.append({"name": f"{n} items {k} operations, first {first}", "fn": "history",
                        "params": {"n": n, "k": k, "first": first}, "opts": {"samples": 3}})
    for n, k in [(5, 4)] + ([(6, 5)] if tier == "thorough" else []):
        for a in range(n):
            out.append({"name": f"{n} items joined {k} times, first {a}", "fn": "joins",
                        "params": {"n": n, "k": k, "a": a}, "opts": {"samples": 3}})
    for n in (16, 32):
        for how in ("first", "second"):
            out.append({"name": f"deep trees of {n}, {how}", "fn": "deep", "params": {"n": n, "how": how}, "opts": {"samples": 3}})
    for sizes in [[2, 4], [4, 2], [4, 4]] + ([[2, 8], [8, 2]] if tier == "thorough" else []):
        for first in (0, 1):
            out.append({"name": f"merged trees of {sizes}, {first}", "fn": "trees", "params": {"sizes": sizes, "first": first}, "opts": {"samples": 3}})
    return out


def trees(api, sizes, first):
    """Deep trees: blocks of 2, 4, ... items merged pairwise, then two blocks joined through any of their members."""
    items = [f"i{j}" for j in range(sum(sizes))]
    d = D(api)(list(items))
    cl = Classes(items)
    n = 0

    def join(a, b):
        d.union(a, b)
        cl.join(a, b)

    def build(block, top):
        nonlocal n
        if len(block) == 1:
            return
        h = len(block) // 2
        build(block[:h], False)
        build(block[h:], False)
        n += 1
        if len(block) == 2:
            x, y = block
        else:
            x, y = api.choice(f"x{n}", [block[0], block[h - 1]]), api.choice(f"y{n}", [block[h], block[-1]])
        join(*((x, y) if first == 0 or not top else (y, x)))

    build(items[:sizes[0]], True)
    build(items[sizes[0]:], True)
    a, b = api.choice("a", items[:sizes[0]]), api.choice("b", items[sizes[0]:])
    join(*((a, b) if api.bool("swap") else (b, a)))
    verify(api, d, cl, items)


def deep(api, n, how):
    """Two trees as deep as unions by rank make them, never searched, joined through any member of one."""
    items = [f"i{j}" for j in range(2 * n)]
    d = D(api)(list(items))
    cl = Classes(items)

    def build(block):
        if len(block) > 1:
            h = len(block) // 2
            a, b = build(block[:h]), build(block[h:])
            d.union(*((a, b) if how == "first" else (b, a)))
            cl.join(a, b)
        return block[0] if how == "first" else block[-1]

    a, b = build(items[:n]), build(items[n:])
    k = api.choice("member", list(range(n)))
    if api.bool("join"):
        d.union(items[k], b)
        cl.join(items[k], b)
    else:
        d.find(items[k])
    verify(api, d, cl, items)


def D(api):
    return api.mod("pytimize.utilities").DisjointSet


class Classes:
    def __init__(self, items):
        self.c = {x: {x} for x in items}

    def join(self, a, b):
        s = self.c[a] | self.c[b]
        for x in s:
            self.c[x] = s


def verify(api, d, cl, items):
    first = [d.find(x) for x in items]
    for x, r in zip(items, first):
        api.check(r in cl.c[x], "the representative is a member of its class")
        for y, q in zip(items, first):
            api.check((r == q) == (y in cl.c[x]), "same representative exactly when connected")
    api.check([d.find(x) for x in reversed(items)] == first[::-1], "finds never change the classes")
    api.observe("rep", first)


def history(api, n, k, first):
    items = NAMES[:n]
    d = D(api)(list(items))
    cl = Classes(items)
    for s in range(k):
        if s == 0:
            kind, a, b = "union", items[first // n], items[first % n]
        else:
            kind = api.choice(f"op{s}", ["union", "find", "unknown"])
            a = api.choice(f"a{s}", items)
            b = api.choice(f"b{s}", items) if kind == "union" else None
        if kind == "union":
            d.union(a, b)
            cl.join(a, b)
        elif kind == "find":
            api.check(d.find(a) in cl.c[a], "the representative is a member of its class")
        else:
            for f, args in ((d.find, ("zz",)), (d.union, (a, "zz")), (d.union, ("zz", a)), (d.union, ("zz", "zz"))):
                tag, _ = api.call(f, *args, raises=(ValueError,))
                api.check(tag == "raise", "unknown and duplicate items are refused and change nothing")
    verify(api, d, cl, items)


def joins(api, n, k, a):
    items = NAMES[:n]
    d = D(api)(list(items))
    cl = Classes(items)
    for s in range(k):
        x = items[a] if s == 0 else api.choice(f"a{s}", items)
        others = [y for y in items if y not in cl.c[x]]
        if not others:
            return
        y = api.choice(f"b{s}", others)
        d.union(x, y)
        cl.join(x, y)
    verify(api, d, cl, items)


def construct(api, k):
    names = ["a", "b", "c"]
    items = [api.choice(f"i{j}", names) for j in range(k)]
    keep = list(items)
    tag, d = api.call(D(api), items, raises=(ValueError,))
    api.check((tag == "raise") == (len(set(items)) < k), "unknown and duplicate items are refused and change nothing")
    api.check(items == keep, "unknown and duplicate items are refused and change nothing")
    if tag == "ok":
        verify(api, d, Classes(items), items)
        t, _ = api.call(d.find, "d", raises=(ValueError,))
        api.check(t == "raise", "unknown and duplicate items are refused and change nothing")
