"""C16: branch and bound returns an optimal integral solution."""
import random

from props.lpcommon import *

LABELS = ["result is feasible", "result is integral where required", "no integral feasible vector is better", "None only if no integral feasible vector exists",
          "program unchanged"]
NOTE = "the competing vector is symbolic when the objective is constant, and every integral vector of the box when the objective is symbolic"
BOUNDS = {"quick": "13 constant constraint systems (1 to 3 variables, every operator, nonnegative, negative and free variables), both objectives; symbolic right-hand "
                   "sides in boxes with 1 or 2 constant objectives, all or one or no variables integral; symbolic objective with one seeded right-hand side; 4 systems with solutions of 10^3 to 3*10^4; 6 systems of 3 to 5 variables with one symbolic right-hand side; 2 systems of 12 variables with one symbolic right-hand side",
          "thorough": "the same with 2 to 5 objectives and 4 right-hand sides each"}
# name: A, ops, signs, per-row (lo, hi) of the symbolic right-hand side, box of the integral vectors (lo, hi per variable)
FAM = {
    "1 le": ([[2]], ["<="], ["pos"], [(-2, 5)], [(0, 3)]),
    "1 ge": ([[3], [2]], [">=", "<="], ["pos"], [(-1, 4), (0, 5)], [(0, 3)]),
    "1 neg": ([[2]], [">="], ["neg"], [(-5, 1)], [(-3, 0)]),
    "1 free": ([[2], [3]], ["<=", ">="], ["free"], [(-3, 3), (-4, 4)], [(-2, 2)]),
    "1 eq": ([[2]], ["="], ["pos"], [(-1, 5)], [(0, 3)]),
    "2 le": ([[1, 1], [2, 5]], ["<=", "<="], ["pos", "pos"], [(0, 2), (0, 8)], [(0, 2), (0, 2)]),
    "2 knap": ([[3, 2]], ["<="], ["pos", "pos"], [(-1, 6)], [(0, 2), (0, 3)]),
    "2 eq": ([[2, 3]], ["="], ["pos", "pos"], [(0, 7)], [(0, 4), (0, 3)]),
    "2 eq ge": ([[1, 2], [1, -1]], ["=", ">="], ["pos", "pos"], [(0, 4), (-2, 2)], [(0, 4), (0, 2)]),
    "2 negpos": ([[-2, 1], [0, 1]], ["<=", "<="], ["neg", "pos"], [(0, 4), (0, 2)], [(-2, 0), (0, 2)]),
    "2 free": ([[1, 2], [1, 0], [0, 1]], ["<=", ">=", ">="], ["free", "free"], [(-1, 1), (-1, 0), (-1, 0)], [(-1, 3), (-1, 1)]),
    "2 posfree": ([[2, 2], [0, 2], [1, 0]], ["<=", ">=", "<="], ["pos", "free"], [(-1, 3), (-2, 0), (1, 2)], [(0, 2), (-1, 2)]),
    "3 knap": ([[2, 3, 4]], ["<="], ["pos", "pos", "pos"], [(0, 5)], [(0, 2), (0, 1), (0, 1)]),
}
LARGE = {  # no box: the objective is constant
    "1 le large": ([[2]], ["<="], ["pos"], [(2996, 3004)], None),
    "1 ge larger": ([[4]], [">="], ["pos"], [(2 ** 16, 2 ** 16 + 5)], None),
    "1 neg large": ([[4]], [">="], ["neg"], [(-10 ** 5, 5 - 10 ** 5)], None),
    "2 eq large": ([[2, 0], [1, 1]], ["<=", "="], ["pos", "free"], [(4001, 4005), (1, 1)], None),
}
FAM.update(LARGE)
MORE = {  # more variables, one right-hand side in a small range; the objective
    "4 knap": ([[5, 4, 3, 2]], ["<="], ["pos"] * 4, [(5, 7)], [7, 5, 4, 2]),
    "4 cover": ([[1, 1, 0, 1], [0, 2, 1, 1]], [">=", ">="], ["pos"] * 4, [(1, 2), (3, 3)], [-3, -4, -2, -5]),
    "3 two rows": ([[2, 1, 3], [1, 3, 1]], ["<=", "<="], ["pos"] * 3, [(4, 6), (5, 5)], [3, 4, 5]),
    "3 mixed signs": ([[2, -3, 1], [1, 0, 2], [0, 1, 0]], ["<=", "<=", ">="], ["pos", "neg", "pos"], [(5, 6), (7, 7), (-2, -2)], [2, -1, 3]),
    "4 equation": ([[2, 3, 5, 1], [1, 1, 1, 0]], ["=", "<="], ["pos"] * 4, [(5, 7), (3, 3)], [1, 2, 4, 0]),
    "5 knap": ([[7, 5, 4, 3, 1]], ["<="], ["pos"] * 5, [(9, 9)], [9, 6, 5, 4, 1]),
}
_three = [[2 if j == 0 else 3 if j == 1 else 5 + j for j in range(4)] + [0] * 8, [0] * 4 + [4, 3, 7, 2] + [0] * 4, [0] * 8 + [6, 7, 5, 2]]
WIDE = {  # twelve variables: column numbers of two digits; objective and the integral variables
    "12 variables": (_three, ["<="] * 3, ["pos"] * 12, [(5, 5), (3, 3), (4, 7)], [5, 7, 1, 1, 2, 2, 3, 1, 1, 1, 2, 1], [[1, 2], [10, 12], [2, 11]]),
    "12 variables, mixed signs": ([r[:8] + [-v if j == 3 else v for j, v in enumerate(r[8:])] for r in _three], ["<="] * 3, ["pos"] * 11 + ["neg"], [(5, 5), (3, 3), (4, 7)],
                                 [5, 7, 1, 1, 2, 2, 3, 1, 1, 1, 1, -1], [[1, 2], [12], [1, 12]]),
}
OBJ = {1: [[1], [-1], [3]], 2: [[1, 1], [5, 4], [-1, 2], [1, -3], [-2, -1]], 3: [[1, 1, 1], [3, 4, 6]]}


def cases(tier, seed):
    rng = random.Random(int(seed) * 7 + 3)
    out = []
    for k, (A, ops, signs, br, box) in FAM.items():
        n = len(signs)
        for o in ("max", "min"):
            if k in LARGE and o == ("min" if k in ("1 ge larger",) else "max"):
                c = {"1 neg large": [-2]}.get(k, [3, 1][:n])
                out.append({"name": f"{k} {o} {c}, symbolic right-hand side", "fn": "run",
                            "params": {"k": k, "o": o, "c": c, "b": None, "I": None},
                            "opts": {"samples": 4, "max_decisions": 6000, "path_wall": 100}})
            if k in LARGE:
                continue
            cs = OBJ[n] if tier == "thorough" else rng.sample(OBJ[n], min(2, len(OBJ[n])))
            for c in cs:
                out.append({"name": f"{k} {o} {c}, symbolic right-hand side", "fn": "run",
                            "params": {"k": k, "o": o, "c": c, "b": None, "I": None}, "opts": {"samples": 4, "max_decisions": 6000, "path_wall": 100}})
            if n > 1:
                for I in ([[1], [2]] if tier == "thorough" else [rng.choice([[1], [2]])]) + ([[]] if k == "2 le" else []):
                    c = rng.choice(OBJ[n])
                    out.append({"name": f"{k} {o} {c}, integral {I}", "fn": "run", "params": {"k": k, "o": o, "c": c, "b": None, "I": I}, "opts": {"samples": 4, "max_decisions": 6000, "path_wall": 100}})
            for t in range(1 if tier == "quick" else 4):
                b = [fstr(Fraction(rng.randint(2 * lo, 2 * hi), 2)) for lo, hi in br]
                if any(c["name"] == f"{k} {o} symbolic objective, {b}" for c in out):
                    continue
                out.append({"name": f"{k} {o} symbolic objective, {b}", "fn": "run", "params": {"k": k, "o": o, "c": None, "b": b, "I": None}, "opts": {"samples": 4, "max_decisions": 6000, "path_wall": 100}})
    for k, (A, ops, signs, br, c) in MORE.items():
        n = len(c)
        for t, I in enumerate([None, sorted(rng.sample(range(1, n + 1), n - 1))] + ([sorted(rng.sample(range(1, n + 1), 2))] if tier == "thorough" else [])):
            o = ("max", "min")[(t + len(k)) % 2]
            out.append({"name": f"{k} {o}, integral {I}", "fn": "run", "params": {"k": k, "o": o, "c": c if o == "max" else [-v for v in c], "b": None, "I": I}, "opts": {"samples": 4, "max_decisions": 6000, "path_wall": 100}})
    for k, (A, ops, signs, br, c, Is) in WIDE.items():
        for t, I in enumerate(Is):
            o = ("max", "min")[t % 2]
            out.append({"name": f"{k} {o}, integral {I}", "fn": "run", "params": {"k": k, "o": o, "c": c if o == "max" else [-v for v in c], "b": None, "I": I},
                        "opts": {"samples": 3, "max_decisions": 6000, "path_wall": 100}})
    return out


def fstr(f):
    return f"{f.numerator}/{f.denominator}"


def run(api, k, o, c, b, I):
    A, ops, signs, br, box = FAM.get(k) or MORE.get(k) or WIDE[k][:5]
    m, n = len(A), len(signs)
    bb = [(api.real(f"b{i}", lo, hi) if lo < hi or k in FAM else lo) for i, (lo, hi) in enumerate(br)] if b is None else [fr(Fraction(x)) for x in b]
    if not api.symbolic:
        bb = [float(x) for x in bb]
    cc = lst(api.vec("c", n)) if c is None else c
    z = api.real("z")
    p = api.mod("pytimize.programs").IntegerProgram(api.array(flt(A)), api.array(bb), api.array(cc), z, o, list(ops), free_of(signs), neg_of(signs), I)
    ints = list(range(1, n + 1)) if I is None else I
    before = snapshot(p)
    x = p.branch_and_bound()
    api.check(same_program(api, before, snapshot(p)), "program unchanged")
    api.observe("found", x is not None)
    if c is None:
        ws = list(itertools.product(*[range(lo, hi + 1) for lo, hi in box]))
    else:
        ws = [[api.int(f"w{j + 1}") if j + 1 in ints else api.real(f"w{j + 1}") for j in range(n)]]
    if x is None:
        for w in ws:
            api.check(api.Not(feasible(api, A, bb, ops, signs, w)), "None only if no integral feasible vector exists")
        return
    x = lst(x)
    api.check(len(x) == n and feasible(api, A, bb, ops, signs, x), "result is feasible")
    api.check(api.And([api.is_int(x[j - 1]) for j in ints]), "result is integral where required")
    v = dot(cc, x)
    api.observe("value", v)
    for w in ws:
        u = dot(cc, w)
        api.check(api.Implies(feasible(api, A, bb, ops, signs, w), api.ge(v, u) if o == "max" else api.le(v, u)), "no integral feasible vector is better")
