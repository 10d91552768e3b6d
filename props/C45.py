"""C45: a program, its standard form, its canonical forms and its dual have the same optimum."""
import random

from props.lpcommon import *
from props.C11 import sef

LABELS = ["the dual has an optimum exactly when the program has", "the two solutions are complementary", "both solutions are feasible", "the optimal values of program and dual agree",
          "the standard form has the same optimum", "canonical forms have the same optimum"]
NOTE = ("The equality of the optimal values is decided by its equivalent: both results feasible and complementary (which makes c^T x = b^T y for every such pair), and optimal_value() being c^T x + z and b^T y; "
        "objective constants are left out of the comparison, as dual() drops them.")
BOUNDS = {"quick": "every operator, sign and objective pattern of a 1x1, 1x2 and 2x1 constant matrix, a seeded choice of 14 patterns of 2x2 and 12 of 2x3 and 3x2, every sign pattern of 2x3 and operator pattern of 3x2 with b or c constant, with both the matrix and its transpose usable "
                   "after conversion (independent rows); standard forms up to 2x2 and with b or c constant; b, c, z symbolic; canonical forms of 4 constant programs for every basis; 6 seeded programs of 3x3 to 4x3 with two entries of b or of c symbolic",
          "thorough": "three matrices per shape and three times as many patterns of 2x2, 2x3 and 3x2"}
SHAPES = {(1, 1): [[[2]], [[-1]], [[3]]], (1, 2): [[[1, 2]], [[1, -1]], [[-2, -1]]], (2, 1): [[[1], [2]], [[1], [-1]], [[-1], [-2]]],
          (2, 2): [[[1, 2], [3, 1]], [[1, -1], [-1, -1]], [[-1, 1], [1, 2]], [[1, 0], [1, 1]], [[2, 1], [0, 1]]],
          (2, 3): [[[1, 2, 1], [2, -1, 1]], [[1, -1, 1], [-1, -2, 1]], [[0, 1, -2], [1, 1, 0]]], (3, 2): [[[1, 2], [3, 1], [-1, 1]], [[1, 0], [0, 1], [1, 1]], [[2, -1], [-1, 1], [1, 1]]]}
CANON = ["1x2", "2x3", "2x4slack", "1x3"]


def dual_pattern(ops, signs, o):
    if o == "max":
        vop, csg = {"pos": ">=", "neg": "<=", "free": "="}, {"<=": "pos", ">=": "neg", "=": "free"}
    else:
        vop, csg = {"pos": "<=", "neg": ">=", "free": "="}, {">=": "pos", "<=": "neg", "=": "free"}
    return [vop[s] for s in signs], [csg[p] for p in ops]


def transpose(A):
    return [list(r) for r in zip(*A)]


def cases(tier, seed):
    t = tier == "thorough"
    rng = random.Random(5 + int(seed))
    out = []

    def add(A, ops, signs, o, const=None):
        dops, dsigns = dual_pattern(ops, signs, o)
        if crank(sef(A, ops, signs)[0]) < len(A) or crank(sef(transpose(A), dops, dsigns)[0]) < len(A[0]):
            return False
        nm = f"{o} {A} {list(ops)} {list(signs)}" + (f", {const[0]} = {const[1]}" if const else "")
        if all(c["name"] != nm for c in out):
            out.append({"name": nm, "fn": "pair", "params": {"A": A, "ops": list(ops), "signs": list(signs), "o": o, "sef_too": len(A) * len(A[0]) <= 4 or const is not None and len(A) * len(A[0]) <= 9, "const": const}, "opts": {"samples": 2}})
        return True

    for (m, n), fam in SHAPES.items():
        ps = [(ops, signs, o) for ops in itertools.product(OPS, repeat=m) for signs in itertools.product(SIGNS, repeat=n) for o in ("max", "min")]
        if m * n > 2:
            for _ in range((14 if m * n == 4 else 6) * (3 if t else 1)):
                for _ in range(60):
                    if add(rng.choice(fam), *rng.choice(ps)):
                        break
        else:
            for k, (ops, signs, o) in enumerate(ps):
                for i in range(3 if t else 1):
                    add(fam[(k + i + int(seed)) % len(fam)], ops, signs, o)
    for m, n in ((2, 3), (3, 2)):                 # every sign (operator) pattern of the larger shapes with one of b and c constant
        for i, pat in enumerate(itertools.product(SIGNS if n > m else OPS, repeat=3)):
            for o in ("max", "min"):
                for _ in range(60):
                    ops, signs = ([rng.choice(OPS) for _ in range(m)], pat) if n > m else (pat, [rng.choice(SIGNS) for _ in range(n)])
                    w = rng.choice("bc")
                    if add(rng.choice(SHAPES[m, n]), ops, signs, o, [w, [rng.randint(-2, 3) for _ in range(m if w == "b" else n)]]):
                        break
    for m, n in ((3, 3), (3, 4), (4, 3)):         # larger shapes, two entries of b or c symbolic
        for s in range(4 if t else 2):
            for _ in range(400):
                w = "bc"[s % 2]
                A = [[rng.choice([0, 0, 1, -1, 2, 3]) for _ in range(n)] for _ in range(m)]
                ops, signs, o = [rng.choice(OPS + ["<="]) for _ in range(m)], [rng.choice(SIGNS + ["pos"]) for _ in range(n)], rng.choice(["max", "min"])
                x = [rng.randint(0, 3) * (-1 if g == "neg" else 1) for g in signs]
                b = [sum(r[j] * x[j] for j in range(n)) + (2 if p == "<=" else -1 if p == ">=" else 0) for r, p in zip(A, ops)]
                c = [rng.randint(0, 4) * (-1 if (o == "max") != (g == "neg") else 1) for g in signs]
                if add(A, ops, signs, o, ["some", [b, c, w, sorted(rng.sample(range(m if w == "b" else n), 2))]]):
                    break
    for k in CANON:
        for o in ("max",):
            for B in bases_of(FIXED[k]):
                out.append({"name": f"canonical {k} {[j + 1 for j in B]}", "fn": "canonical", "params": {"k": k, "B": [j + 1 for j in B]}, "opts": {"samples": 2}})
    out.sort(key=lambda c: -len(c["params"].get("A", [])) * len(c["params"].get("A", [[]])[0]))
    return out


def pair(api, A, ops, signs, o, sef_too, const):
    m, n = len(A), len(A[0])
    if const and const[0] == "some":
        b, c, w, free = const[1]
        b, c = (api.array([api.real(f"{k}{i}") if w == k and i in free else float(t) for i, t in enumerate(v)]) for k, v in (("b", b), ("c", c)))
        return both(api, A, b, c, ops, signs, o, sef_too)
    b = api.array([float(v) for v in const[1]]) if const and const[0] == "b" else api.vec("b", m)
    c = api.array([float(v) for v in const[1]]) if const and const[0] == "c" else api.vec("c", n)
    both(api, A, b, c, ops, signs, o, sef_too)


def both(api, A, b, c, ops, signs, o, sef_too):
    m, n = len(A), len(A[0])
    z = api.real("z")
    p = make(api, api.array(flt(A)), b, c, z, o, ops, signs)
    d = p.dual()
    x, y = p.solve(), d.solve()
    dops, dsigns = dual_pattern(ops, signs, o)
    api.check((x is None) == (y is None), "the dual has an optimum exactly when the program has")
    api.observe("x", x)
    u = p.to_sef().solve() if sef_too else x
    api.check((u is None) == (x is None), "the standard form has the same optimum")
    if x is None:
        return
    vp, vd = p.evaluate(x), d.evaluate(y)
    x, y = lst(x), lst(y)
    At = transpose(A)
    api.check(len(x) == n and len(y) == m, "both solutions are feasible")
    api.check(feasible(api, A, b, ops, signs, x), "both solutions are feasible")
    api.check(feasible(api, At, c, dops, dsigns, y), "both solutions are feasible")
    gap = [api.Or(api.eq(y[i], 0), api.eq(dot(A[i], x), b[i])) for i in range(m)]
    gap += [api.Or(api.eq(x[j], 0), api.eq(dot(At[j], y), c[j])) for j in range(n)]
    api.check(api.And(gap), "the two solutions are complementary")
    api.check(api.eq(vp - z, dot(c, x)), "the optimal values of program and dual agree")
    api.check(api.eq(vd, dot(b, y)), "the optimal values of program and dual agree")
    if not sef_too:
        return
    # the standard form's optimum, written in the original variables, is as good as x: complementary with the dual solution too
    M, cols = sef(A, ops, signs)
    u = lst(u)
    api.check(len(u) == len(cols), "the standard form has the same optimum")
    w = [0] * n
    for v, (j, sg) in zip(u, cols):
        if j is not None:
            w[j] = w[j] + sg * v
    api.check(feasible(api, A, b, ops, signs, w), "the standard form has the same optimum")
    gap = [api.Or(api.eq(y[i], 0), api.eq(dot(A[i], w), b[i])) for i in range(m)]
    gap += [api.Or(api.eq(w[j], 0), api.eq(dot(At[j], y), c[j])) for j in range(n)]
    api.check(api.And(gap), "the standard form has the same optimum")


def canonical(api, k, B):
    A = FIXED[k]
    m, n = len(A), len(A[0])
    b, c, z = api.vec("b", m), api.vec("c", n), api.real("z")
    p = make(api, api.array(flt(A)), b, c, z)
    q = p.to_canonical_form(list(B))
    x, u = p.solve(), q.solve()
    label = "canonical forms have the same optimum"
    api.check((x is None) == (u is None), label)
    api.observe("x", x)
    if x is None:
        return
    api.check(api.eq(q.evaluate(x), p.evaluate(x)), label)
    x, u = lst(x), lst(u)
    api.check(feasible(api, A, b, ["="] * m, ["pos"] * n, u), label)
    alts = []
    for D in bases_of(A):                        # both complementary to one dual basic solution
        y = dual_solution(A, D, c)
        rc = [dot([A[i][j] for i in range(m)], y) - c[j] for j in range(n)]
        alts.append(api.And([api.ge(rc[j], 0) for j in range(n)] + [api.And(api.Or(api.eq(x[j], 0), api.eq(rc[j], 0)), api.Or(api.eq(u[j], 0), api.eq(rc[j], 0))) for j in range(n) if j not in D]))
    api.check(api.Or(alts), label)
