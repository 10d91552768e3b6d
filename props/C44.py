"""C44: solving a formulated model gives the best point the user's constraints allow."""
import random

from props.lpcommon import *
from props.C11 import judge, seeded, sef

LABELS = ["solution is feasible", "solution is optimal", "None only if infeasible or unbounded", "optimal value",
          "restrictions added later take effect", "an integral solution is feasible, integral and best", "the same model solves to the same"]
NOTE = ("The model is written with the formulation operators (terms on both sides, numbers on either side, restrictions in any order); the result is judged against the matrix of constants the "
        "model was generated from, with the oracle of C11 (and all integral points of a box for integer models).")
BOUNDS = {"quick": "constant coefficients of 1x1, 1x2, 2x1 and 2x2 models in 3 ways of writing each, symbolic constants, objective coefficients and objective constant, every sign pattern with its way of restricting; "
                   "restrictions in one or two steps with a solve in between; integer models of 1 and 2 variables with symbolic right-hand sides; 6 seeded models of 3x4 to 4x4 with two symbolic entries",
          "thorough": "more ways of writing, and 2x3 and 3x2 models"}
MATS = {(1, 1): [[[2]], [[-1]]], (1, 2): [[[1, 2]], [[1, -1]], [[-2, -1]]], (2, 1): [[[1], [2]], [[-1], [-2]]],
        (2, 2): [[[1, 2], [3, 1]], [[1, -1], [-1, -1]], [[2, 1], [0, 1]]], (2, 3): [[[1, 2, 1], [2, -1, 1]], [[1, -1, 1], [-1, -2, 1]]], (3, 2): [[[1, 2], [3, 1], [-1, 1]], [[1, 0], [0, 1], [1, 1]]]}
INTS = {"1 le": ([[2]], ["<="], ["pos"], [(-2, 5)], [(0, 3)]), "1 neg": ([[2]], [">="], ["neg"], [(-5, 1)], [(-3, 0)]),
        "2 le": ([[1, 1], [2, 5]], ["<=", "<="], ["pos", "pos"], [(0, 2), (0, 8)], [(0, 2), (0, 2)]),
        "2 knap": ([[3, 2]], ["<="], ["pos", "pos"], [(-1, 6)], [(0, 2), (0, 3)]),
        "2 negpos": ([[-2, 1], [0, 1]], ["<=", "<="], ["neg", "pos"], [(0, 4), (0, 2)], [(-2, 0), (0, 2)])}


def cases(tier, seed):
    t = tier == "thorough"
    rng = random.Random(31 + int(seed))
    out = []

    def add(A, ops, signs, o, k, early):
        if crank(sef(A, ops, signs)[0]) < len(A) or (early and crank(sef(A, ops, [s if i else "free" for i, s in enumerate(signs)])[0]) < len(A)):
            return False
        nm = f"{o} {A} {list(ops)} {list(signs)} written {k}{' restricted in steps' if early else ''}"
        if all(c["name"] != nm for c in out):
            out.append({"name": nm, "fn": "model", "params": {"A": A, "ops": list(ops), "signs": list(signs), "o": o, "k": k, "early": early}, "opts": {"samples": 2}})
        return True

    for (m, n), fam in MATS.items():
        if m * n > 4 and not t:
            continue
        count = {1: 8, 2: 16, 4: 30, 6: 24}[m * n]
        for i in range(count * (3 if t else 1)):
            for _ in range(30):
                if add(rng.choice(fam), [rng.choice(OPS) for _ in range(m)], [rng.choice(SIGNS) for _ in range(n)], rng.choice(["max", "min"]), rng.randrange(6), i % 3 == 2):
                    break
    for k, (m, n) in enumerate([(3, 4), (4, 3), (4, 4)] * (1 if not t else 3)):
        for s in range(2):
            pr = seeded(rng, m, n, "bc"[s])
            if pr and not all(v == 0 for v in pr["A"][0]):
                out.append({"name": f"large {m}x{n} {k} {s}", "fn": "larger", "params": dict(pr, k=k + s), "opts": {"samples": 2, "path_wall": 100}})
    for k in INTS:
        for o in ("max", "min"):
            for w in rng.sample(range(6), 3 if t else 1):
                out.append({"name": f"integer {k} {o} written {w}", "fn": "integral", "params": {"k": k, "o": o, "w": w}, "opts": {"samples": 3, "max_decisions": 6000, "path_wall": 100}})
    out.sort(key=lambda c: -len(c["params"].get("A", [])) * len(c["params"].get("A", [[]])[0]))
    return out


def write(api, L, vs, A, ops, c, b, z, o, k):
    """The model, with the terms of a row shared between the sides according to k."""
    rng = random.Random(k)
    n, m = len(c), len(b)
    form = lambda i: vs[i] if rng.random() < .5 else L.x[i + 1]

    def sum_of(terms):
        rng.shuffle(terms)
        e = None
        for co, j in terms:
            one = isinstance(co, int) and co == 1 and len(terms) > 1   # a bare variable compared with 0 is a sign restriction
            t = form(j) if one else (co * form(j) if rng.random() < .6 else form(j) * co)
            if e is None:
                e = t
            elif rng.random() < .3 and not one:
                e = e - (-co) * form(j)
            else:
                e = e + t
        return e

    f = sum_of([(c[j], j) for j in range(n)])
    f = z + f if rng.random() < .5 else f - (-z)
    f = L.maximize(f) if o == "max" else L.minimize(f)
    cons = []
    for i in range(m):
        left, right = [], []
        for j in range(n):
            r = rng.random()
            if r < .6 or j == 0:
                left.append((A[i][j], j))
            elif r < .8:
                right.append((-A[i][j], j))
            else:
                left.append((A[i][j] + 2, j))
                right.append((2, j))
        lhs = sum_of(left)
        rhs = b[i]
        q = rng.choice([0, 0, 3])
        if q:
            lhs, rhs = lhs + q, rhs + q
        if right:
            e = sum_of(right)
            rhs = e + rhs if rng.random() < .5 else rhs + e
        op = ops[i]
        if rng.random() < .4:
            lhs, rhs, op = rhs, lhs, {"<=": ">=", ">=": "<=", "=": "="}[op]
        cons.append(lhs <= rhs if op == "<=" else lhs >= rhs if op == ">=" else lhs == rhs)
    return f.subject_to(*cons)


def restrict(api, q, vs, signs, k, only):
    rng = random.Random(100 + k)
    todo = [i for i in only if signs[i] != "free"]
    if len(only) == len(signs) and len(todo) == len(signs) and len(set(signs)) == 1 and k % 2:
        return q.whereAllPositive() if signs[0] == "pos" else q.whereAllNegative()
    rng.shuffle(todo)
    items = []
    for i in todo:
        v = vs[i]
        items.append((v >= 0 if rng.random() < .5 else 0 <= v) if signs[i] == "pos" else (v <= 0 if rng.random() < .5 else 0 >= v))
    if k % 3 == 0:
        for it in items:
            q = q.where(it)
        return q
    return q.where(*items) if items else q


def model(api, A, ops, signs, o, k, early):
    L = api.mod("pytimize.formulations.linear")
    m, n = len(A), len(A[0])
    b, c, z = [api.real(f"b{i}") for i in range(m)], [api.real(f"c{j}") for j in range(n)], api.real("z")
    vs = L.variables(n)
    q = write(api, L, vs, A, ops, c, b, z, o, k)
    if early:
        s1 = ["free"] + list(signs[1:])
        q = restrict(api, q, vs, s1, k, list(range(1, n)))
        x = q.solve()
        judge(api, A, b, c, z, ops, s1, o, x, q.optimal_value, "first", "f")
        q = restrict(api, q, vs, signs, k, [0])
    else:
        q = restrict(api, q, vs, signs, k, list(range(n)))
    x = q.solve()
    judge(api, A, b, c, z, ops, signs, o, x, q.optimal_value)
    if early:
        api.check(sorted(q.free_variables) == free_of(signs) and sorted(q.negative_variables) == neg_of(signs), "restrictions added later take effect")
        api.check(x is None or sat_sign(api, x[0], signs[0]), "restrictions added later take effect")
    else:
        y = q.program.solve()
        api.check((x is None) == (y is None) and (x is None or vec_eq(api, lst(x), lst(y))), "the same model solves to the same")


def larger(api, A, b, c, ops, signs, o, free, what, k):
    """A larger model with two symbolic entries."""
    m, n = len(A), len(A[0])
    b, c = ([api.real(f"{w}{i}") if what == w and i in free else t for i, t in enumerate(v)] for w, v in (("b", b), ("c", c)))
    z = api.real("z")
    L = api.mod("pytimize.formulations.linear")
    vs = L.variables(n)
    q = restrict(api, write(api, L, vs, A, ops, c, b, z, o, k), vs, signs, k, list(range(n)))
    judge(api, A, b, c, z, ops, signs, o, q.solve(), q.optimal_value)


def integral(api, k, o, w):
    L = api.mod("pytimize.formulations.integer")
    A, ops, signs, br, box = INTS[k]
    m, n = len(A), len(signs)
    c = [[3], [2, 1], [1, 1], [1, -2]][len(signs) - 1 + w % 3 if n > 1 else 0]
    b = [api.real(f"b{i}", lo, hi) for i, (lo, hi) in enumerate(br)]
    if not api.symbolic:
        b = [float(x) for x in b]
    z = api.real("z")
    vs = L.variables(n)
    q = restrict(api, write(api, L, vs, A, ops, c, b, z, o, w), vs, signs, w, list(range(n)))
    x = q.branch_and_bound()
    label = "an integral solution is feasible, integral and best"
    api.observe("found", x is not None)
    w = [api.int(f"w{j + 1}") for j in range(n)]
    if x is None:
        api.check(api.Not(feasible(api, A, b, ops, signs, w)), label)
        return
    x = lst(x)
    api.check(api.And([len(x) == n and feasible(api, A, b, ops, signs, x)] + [api.is_int(v) for v in x]), label)
    v, u = dot(c, x), dot(c, w)
    api.observe("value", v)
    api.check(api.Implies(feasible(api, A, b, ops, signs, w), api.ge(v, u) if o == "max" else api.le(v, u)), label)
