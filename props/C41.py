"""C41: programs compare equal exactly when their data are the same, however they were made."""
from props.lpcommon import *

LABELS = ["equal exactly when the data are", "unequal is the opposite", "symmetric", "never equal to anything else",
          "the way it was made does not matter", "integer programs are equal exactly when their data and integrality are"]
BOUNDS = {"quick": "pairs of programs up to 2x2 of equal or different shapes, all data symbolic, every operator and sign pattern of the second "
                   "against a rotating first; programs built at once against built by added rows and columns, up to 2x2; pairs of integer programs up to 1x2 and 2x1 with every choice of integral variables; programs of twelve columns with one symbolic column and seven sign or integrality choices",
          "thorough": "the same up to 2x3, every pattern of the first"}


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(2, 3)] if t else [])
    for k, (a, b) in enumerate(itertools.product(shapes, repeat=2)):
        if a != b and a[0] * a[1] * b[0] * b[1] > 8:
            continue
        out.append({"name": f"{a} with {b}", "fn": "compare", "params": {"a": a, "b": b, "k": k + seed}, "opts": {"samples": 6, "tol": 1e-9, "max_decisions": 2000}})
    for a in shapes:
        out.append({"name": f"{a} made otherwise", "fn": "made", "params": {"a": a}, "opts": {"samples": 6}})
        out.append({"name": f"{a} with others", "fn": "others", "params": {"a": a}, "opts": {"samples": 2}})
    for k, a in enumerate([(1, 1), (1, 2), (2, 1)] + ([(2, 2), (1, 3)] if t else [])):
        for o in range(6 if t else 2):
            out.append({"name": f"{a} integer {o}", "fn": "integer", "params": {"a": a, "k": k + o}, "opts": {"samples": 6, "tol": 1e-9, "max_decisions": 2000}})
    for k in range(4):
        out.append({"name": f"twelve columns {k}", "fn": "wide", "params": {"k": k}, "opts": {"samples": 6, "tol": 1e-9}})
    return out


def wide(api, k):
    """Programs of twelve columns that differ in one place, if at all."""
    n = 12
    LP, IP = api.mod("pytimize.programs").LinearProgram, api.mod("pytimize.programs").IntegerProgram
    lists = [[1], [1, 2], [12], [11, 1], [10, 2], [2, 10]]
    where = [0, 1, 9, 11][k]
    free, neg = (lists, [[]]) if k % 2 else ([[]], lists)
    kinds = [None] + lists if k == 3 else [None]
    made = []
    for pre in "pq":
        A = [[float((5 * j + i) % 4 - 1) for j in range(n)] for i in range(2)]
        c = [float(j % 3) for j in range(n)]
        v = [api.real(pre + "a"), api.real(pre + "c")]
        A[1][where] = v[0]
        c[where] = v[1]
        I, f, g = api.choice(pre + "integral", kinds), api.choice(pre + "free", free), api.choice(pre + "negative", neg)
        args = (api.array(A), api.array([1.0, 2.0]), api.array(c), 0, "max", ["<=", "="], list(f), list(g))
        made.append((LP(*args) if k < 2 else IP(*args, None if I is None else list(I)), v, [set(range(n + 1)) if I is None else set(I), set(f), set(g)]))
    (p, v, s), (q, w, t) = made
    got = bool(p == q)
    api.observe("equal", got)
    api.check(api.Iff(got, api.And([api.eq(x, y) for x, y in zip(v, w)] + [s == t])), "equal exactly when the data are")
    api.check(bool(q == p) == got, "symmetric")
    api.check(bool(p != q) == (not got), "unequal is the opposite")
    api.check(bool(p == p.copy()) and bool(q.copy() == q), "the way it was made does not matter")


def integer(api, a, k):
    m, n = a
    ops, signs, o = [OPS[(k + i) % 3] for i in range(m)], [SIGNS[(k + j) % 3] for j in range(n)], ["max", "min"][k % 2]
    IP = api.mod("pytimize.programs").IntegerProgram
    kinds = [None] + [list(s) for r in range(n + 1) for s in itertools.permutations(range(1, n + 1), r)]
    made = []
    for pre in "pq":
        A, b, c, z = api.mat(pre + "A", m, n), api.vec(pre + "b", m), api.vec(pre + "c", n), api.real(pre + "z")
        I = api.choice(pre + "integral", kinds)
        p = IP(A, b, c, z, o, list(ops), free_of(signs), neg_of(signs), None if I is None else list(I))
        made.append((p, [v for r in rows(A) for v in r] + lst(b) + lst(c) + [z], set(range(1, n + 1)) if I is None else set(I)))
    (p, v, I), (q, w, J) = made
    label = "integer programs are equal exactly when their data and integrality are"
    same = api.And([api.eq(x, y) for x, y in zip(v, w)])
    want = api.And(same, I == J)
    got = bool(p == q)
    api.observe("equal", got)
    api.check(api.Iff(got, want), label)
    api.check(bool(q == p) == got and bool(p != q) == (not got), label)
    api.check(bool(p == p.copy()) and not bool(p != p.copy()), label)
    # a linear program with the same data is another program
    r = p.relax()
    api.check(not bool(p == r) and not bool(r == p) and bool(p != r) and bool(r != p), label)
    api.check(api.Iff(bool(r == q.relax()), same), label)
    for other in (None, 0, "p", [1]):
        api.check(not bool(p == other) and bool(p != other), label)


def one(api, pre, m, n, ops=None, signs=None, o=None):
    A, b, c, z = api.mat(pre + "A", m, n), api.vec(pre + "b", m), api.vec(pre + "c", n), api.real(pre + "z")
    ops = ops or [api.choice(f"{pre}op{i}", OPS) for i in range(m)]
    signs = signs or [api.choice(f"{pre}sign{j}", SIGNS) for j in range(n)]
    o = o or api.choice(pre + "objective", ["max", "min"])
    p = make(api, A, b, c, z, o, ops, signs)
    return p, A, b, c, z, (o, ops, signs)


def compare(api, a, b, k):
    p, A, B, c, z, form = one(api, "p", *a, ops=[OPS[(k + i) % 3] for i in range(a[0])], signs=[SIGNS[(k // 2 + j) % 3] for j in range(a[1])])
    q, A2, B2, c2, z2, form2 = one(api, "q", *b)
    if a != b or form != form2:
        want = False
    else:
        want = api.And([api.eq(x, y) for r, s in zip(rows(A), rows(A2)) for x, y in zip(r, s)] + [api.eq(x, y) for x, y in zip(B, B2)]
                       + [api.eq(x, y) for x, y in zip(c, c2)] + [api.eq(z, z2)])
    got = bool(p == q)
    api.observe("equal", got)
    api.check(api.Iff(got, want), "equal exactly when the data are")
    api.check(bool(p != q) == (not got), "unequal is the opposite")
    api.check(bool(q == p) == got, "symmetric")


def made(api, a):
    m, n = a
    p, A, b, c, z, (o, ops, signs) = one(api, "p", m, n)
    r = [[A[i, j] for j in range(n)] for i in range(m)]
    i0 = 1 if m > 1 and api.bool("rows later") else m
    j0 = 1 if n > 1 and api.bool("columns later") else n
    q = make(api, api.array([x[:j0] for x in r[:i0]]), api.array(lst(b)[:i0]), api.array(lst(c)[:j0]), z, o, ops[:i0], signs[:j0])
    first = api.bool("rows first")
    place = api.bool("in place")

    def add_rows(q, width):
        for i in range(i0, m):
            q = q.add_constraint(api.array(r[i][:width]), ops[i], api.as_float(b[i]), place)
        return q

    def add_columns(q, height):
        for j in range(j0, n):
            q = q.add_variable(api.as_float(c[j]), api.array([x[j] for x in r[:height]]), signs[j] == "free", signs[j] == "neg", place)
        return q
    q = add_columns(add_rows(q, j0), m) if first else add_rows(add_columns(q, i0), n)
    api.check(bool(p == q), "the way it was made does not matter")
    api.check(bool(p.copy() == p), "the way it was made does not matter")
    d = p.dual().dual()
    if api.holds(api.eq(z, 0)):
        api.check(bool(d == p), "the way it was made does not matter")


def others(api, a):
    p = one(api, "p", *a, ops=["="] * a[0], signs=["pos"] * a[1], o="max")[0]
    for other in (None, 0, "p", [1], p.copy().steps, {"A": 1}):
        api.check(not bool(p == other), "never equal to anything else")
        api.check(bool(p != other), "never equal to anything else")
    api.check(bool(p == p) and not bool(p != p), "equal exactly when the data are")
