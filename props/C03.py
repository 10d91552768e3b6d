"""C03: a program is accepted iff well formed, and reports what it was given."""
import itertools

from props.lpcommon import *

LABELS = ["accepted iff well formed", "reports the data given", "the three kinds of variables partition 1..n",
          "standard form flag is accurate", "arguments of the wrong kind are refused"]
BOUNDS = {"quick": "A up to 2x3 (and 0-, 1- and 3-dimensional), b and c of every length 0..3, all operator lists over "
                   "{=,<=,>=,<,==,''}, objectives over {max,min,Max,''}, up to 2 free and 2 negative indices symbolic in -1..n+2; all coefficients symbolic; 11x12 with 3 choices of restricted variables",
          "thorough": "the same with up to 3 free and 3 negative indices and A up to 3x3"}


def cases(tier, seed):
    out = []
    big = tier == "thorough"
    for m, n in [(1, 1), (1, 2), (2, 2), (2, 3)] + ([(3, 3)] if big else []):
        out.append({"name": f"sizes {m}x{n}", "fn": "sizes", "params": {"m": m, "n": n}})
        out.append({"name": f"operators {m}x{n}", "fn": "operators", "params": {"m": m, "n": n}})
    for n in (1, 2, 3):
        for f in range(0, 4 if big else 3):
            for g in range(0, 4 if big else 3):
                if f + g <= (5 if big else 4):
                    out.append({"name": f"{f} free and {g} negative of {n}", "fn": "signs", "params": {"n": n, "f": f, "g": g}})
    for k in range(3):
        out.append({"name": f"wide {k}", "fn": "wide", "params": {"k": k}, "opts": {"samples": 2}})
    out.append({"name": "kinds of arguments", "fn": "kinds", "params": {}})
    return out


def sizes(api, m, n):
    LP = lp(api)
    A = api.mat("A", m, n)
    nb, nc = api.int("nb", 0, 3), api.int("nc", 0, 3)
    nb, nc = (api.choice("nb", [0, 1, 2, 3]), api.choice("nc", [0, 1, 2, 3]))
    b, c = api.vec("b", nb), api.vec("c", nc)
    shape = api.choice("shape", ["matrix", "vector", "cube", "lists", "b2", "c2"])
    good = nb == m and nc == n
    AA = A
    if shape == "vector":
        AA, good = api.vec("v", n), False
    elif shape == "cube":
        AA, good = A.reshape(1, m, n), False
    elif shape == "lists":
        AA = [[api.as_float(x) for x in r] for r in rows(A)]
        b, c = [api.as_float(x) for x in b], [api.as_float(x) for x in c]
    elif shape == "b2":
        b, good = b.reshape(1, nb), False
    elif shape == "c2":
        c, good = c.reshape(nc, 1), False
    tag, p = api.call(LP, AA, b, c, raises=(ValueError,))
    api.check((tag == "ok") == good, "accepted iff well formed")
    if tag == "ok":
        api.check(api.And([api.eq(p.A[i, j], A[i, j]) for i in range(m) for j in range(n)]
                          + [api.eq(p.b[i], b[i]) for i in range(m)] + [api.eq(p.c[j], c[j]) for j in range(n)]
                          + [api.eq(p.z, 0)]), "reports the data given")
        api.check(list(p.inequalities) == ["="] * m and p.objective == "max", "reports the data given")
        api.check(p.is_sef is True, "standard form flag is accurate")


def operators(api, m, n):
    LP = lp(api)
    A, b, c, z = api.mat("A", m, n), api.vec("b", m), api.vec("c", n), api.real("z")
    k = api.choice("count", [-1] + list(range(0, m + 2)))
    ops = None if k < 0 else [api.choice(f"op{i}", ["=", "<=", ">=", "<", "==", ""]) for i in range(k)]
    obj = api.choice("objective", ["max", "min", "Max", ""])
    good = (ops is None or (len(ops) == m and all(o in OPS for o in ops))) and obj in ("max", "min")
    tag, p = api.call(LP, A, b, c, z, obj, ops, raises=(ValueError,))
    api.check((tag == "ok") == good, "accepted iff well formed")
    if tag == "ok":
        api.check(api.And([api.eq(p.A[i, j], A[i, j]) for i in range(m) for j in range(n)]
                          + [api.eq(p.b[i], b[i]) for i in range(m)] + [api.eq(p.c[j], c[j]) for j in range(n)]
                          + [api.eq(p.z, z)]), "reports the data given")
        api.check(list(p.inequalities) == (ops or ["="] * m) and p.objective == obj, "reports the data given")
        api.check(bool(p.is_sef) == (obj == "max" and all(o == "=" for o in (ops or []))), "standard form flag is accurate")


def signs(api, n, f, g):
    LP = lp(api)
    A, b, c = api.mat("A", 1, n), api.vec("b", 1), api.vec("c", n)
    fr = [api.int(f"f{i}", -1, n + 2) for i in range(f)]
    ng = [api.int(f"g{i}", -1, n + 2) for i in range(g)]
    op = api.choice("op", ["=", ">="])
    obj = api.choice("objective", ["max", "min"])
    cs = [api.And(api.ge(i, 1), api.le(i, n)) for i in fr + ng]
    cs += [api.ne(x, y) for x, y in itertools.combinations(fr + ng, 2)]
    tag, p = api.call(LP, A, b, c, 0, obj, [op], list(fr) if f or api.bool("none1") else None,
                      list(ng) if g or api.bool("none2") else None, raises=(ValueError,))
    api.check(api.Iff(tag == "ok", api.And(cs)), "accepted iff well formed")
    if tag == "ok":
        F, N, Q = list(p.free_variables), list(p.negative_variables), list(p.positive_variables)
        api.observe("kinds", [F, N, Q])
        api.check(len(F) == f and len(N) == g and len(Q) == n - f - g, "the three kinds of variables partition 1..n")
        for j in range(1, n + 1):
            isf = api.Or([api.eq(i, j) for i in fr])
            isn = api.Or([api.eq(i, j) for i in ng])
            api.check(api.Iff(api.Or([api.eq(i, j) for i in F]), isf), "the three kinds of variables partition 1..n")
            api.check(api.Iff(api.Or([api.eq(i, j) for i in N]), isn), "the three kinds of variables partition 1..n")
            api.check(api.Iff(api.Or([api.eq(i, j) for i in Q]), api.And(api.Not(isf), api.Not(isn))),
                      "the three kinds of variables partition 1..n")
        api.check(bool(p.is_sef) == (f + g == 0 and op == "=" and obj == "max"), "standard form flag is accurate")


def wide(api, k):
    """Twelve variables and eleven constraints: indices of two digits, given in any order."""
    n, m = 12, 11
    A = [[api.real("a") if (i, j) == (9, 10) else (3 * i + 5 * j) % 7 - 3 for j in range(n)] for i in range(m)]
    b, c, z = [float(i) for i in range(m)], [float(j) for j in range(n)], api.real("z")
    ops = [["=", "<=", ">="][(i + k) % 3] for i in range(m)]
    free, neg = [[2, 10, 11], [12, 3, 9], [10]][k], [[12, 1], [11, 2], [1, 12, 2, 11]][k]
    p = lp(api)(api.array([[float(v) if isinstance(v, int) else v for v in r] for r in A]), b, c, z, "min", list(ops), list(free), list(neg))
    lab = "the three kinds of variables partition 1..n"
    api.check(sorted(p.free_variables) == sorted(free) and sorted(p.negative_variables) == sorted(neg), lab)
    api.check(sorted(p.positive_variables) == [j for j in range(1, n + 1) if j not in free and j not in neg], lab)
    lab = "reports the data given"
    api.check(list(p.inequalities) == ops and p.objective == "min" and p.A.shape == (m, n), lab)
    api.check(api.And([api.eq(p.A[i, j], A[i][j]) for i in range(m) for j in range(n)] + [api.eq(x, y) for x, y in zip(list(p.b) + list(p.c), b + c)] + [api.eq(p.z, z)]), lab)
    api.check(not p.is_sef, "standard form flag is accurate")


def kinds(api):
    LP = lp(api)
    x = api.real("x")
    num = api.as_float(x)
    good = ([[1.0, num]], [num], [num, 2])
    bad = api.choice("bad", ["none", "ragged", "text", "tuple", "scalar", "missing", "deep", "textarray", "intarray"])
    A, b, c = [list(r) for r in good[0]], list(good[1]), list(good[2])
    ok = bad in ("none", "intarray")
    if bad == "ragged":
        A, b = [[1.0, num], [1.0]], [num, num]
    elif bad == "text":
        A = [[1.0, "1"]]
    elif bad == "tuple":
        b = tuple(b)
    elif bad == "scalar":
        c = num
    elif bad == "missing":
        b = None
    elif bad == "deep":
        A = [[[1.0], [num]]]
    elif bad == "textarray":
        import numpy
        A = numpy.array([["1", "2"]])
    elif bad == "intarray":
        import numpy
        A = numpy.array([[1, 2]])
    tag, p = api.call(LP, A, b, c, raises=(ValueError,))
    api.check((tag == "ok") == ok, "arguments of the wrong kind are refused")
    if tag == "ok" and bad == "intarray":
        h = p.A / 2
        api.check(api.And(api.eq(h[0, 0], 0.5), api.eq(p.A[0, 1], 2)), "reports the data given")
