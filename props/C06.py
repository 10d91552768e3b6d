"""C06: the dual bounds the primal; the dual of the dual is the primal."""
import itertools

from props.C05 import patterns
from props.lpcommon import *

LABELS = ["the dual is the textbook dual", "weak duality", "the dual of the dual is the original", "the standard form flag of the dual is accurate",
          "dual feasibility is the textbook condition"]
BOUNDS = {"quick": "every objective, operator and sign pattern for 1x1, 1x2, 2x1, 2x2 and 20 of 2x3/3x2/3x3 (and the data of 3 of 1x12 and 11x2) with A, b, c, z, y symbolic; "
                   "weak duality over symbolic A for 1x1, over constant A with b, c, x, y symbolic for the others",
          "thorough": "every pattern up to 2x3 and 3x2, and 100 of 3x3"}


def cases(tier, seed):
    small = [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(2, 3), (3, 2)] if tier == "thorough" else [])
    pats = patterns(tier, seed, small, [(2, 3), (3, 2), (3, 3)], 100 if tier == "thorough" else 20)
    out = []
    for o, ops, s in pats:
        out.append({"name": f"{o} {' '.join(ops)} / {' '.join(s)}", "fn": "run",
                    "params": {"obj": o, "ops": list(ops), "signs": list(s)}, "opts": {"samples": 1}})
    return out


CONST = {(1, 2): [[2, -1]], (2, 1): [[1], [-3]], (2, 2): [[1, 2], [-1, 3]], (2, 3): [[1, 0, 2], [-1, 3, 1]],
         (3, 2): [[1, 2], [0, -1], [2, 1]], (3, 3): [[1, 2, 0], [0, 1, -1], [3, 0, 1]], (1, 3): [[1, -2, 3]]}


def run(api, obj, ops, signs):
    m, n = len(ops), len(signs)
    b, c, z = api.vec("b", m), api.vec("c", n), api.real("z")
    A = api.mat("A", m, n)
    p = make(api, A, b, c, z, obj, ops, signs)
    d = p.dual()
    dobj = "min" if obj == "max" else "max"
    api.check(d.objective == dobj and d.A.shape == (n, m), "the dual is the textbook dual")
    api.check(api.And([api.eq(d.A[j, i], A[i, j]) for i in range(m) for j in range(n)] + [vec_eq(api, d.b, c), vec_eq(api, d.c, b)]),
              "the dual is the textbook dual")
    if obj == "max":
        vop = {"pos": ">=", "neg": "<=", "free": "="}
        csg = {"<=": "pos", ">=": "neg", "=": "free"}
    else:
        vop = {"pos": "<=", "neg": ">=", "free": "="}
        csg = {">=": "pos", "<=": "neg", "=": "free"}
    dops, dsigns = [vop[s] for s in signs], [csg[o] for o in ops]
    api.check(list(d.inequalities) == dops and list(d.free_variables) == free_of(dsigns)
              and list(d.negative_variables) == neg_of(dsigns), "the dual is the textbook dual")
    api.check(bool(d.is_sef) == (dobj == "max" and all(o == "=" for o in dops) and all(s == "pos" for s in dsigns)),
              "the standard form flag of the dual is accurate")
    if max(m, n) > 4:                          # many rows or columns: the data of the dual only
        api.check(same_program(api, snapshot(p), snapshot(d.dual()), with_z=False), "the dual of the dual is the original")
        return
    y = api.vec("y", m)
    r = d.is_feasible(y)
    At = [[A[i, j] for i in range(m)] for j in range(n)]
    api.check(api.Iff(api.truth(r), feasible(api, At, c, dops, dsigns, y)), "dual feasibility is the textbook condition")
    dd = d.dual()
    s, t = snapshot(p), snapshot(dd)
    api.check(same_program(api, s, t, with_z=False), "the dual of the dual is the original")
    # weak duality
    x = api.vec("x", n)
    if (m, n) != (1, 1):
        K = CONST[(m, n)]
        p = make(api, api.array(K), b, c, z, obj, ops, signs)
        d = p.dual()
    P = feasible(api, rows(p.A), p.b, ops, signs, x)
    D = feasible(api, rows(d.A), d.b, list(d.inequalities), dsigns, y)
    hi, lo = (dot(d.c, y), dot(p.c, x)) if obj == "max" else (dot(p.c, x), dot(d.c, y))
    # the products whose sum is the gap, named so that the solver need not discover them
    gap = 0
    facts = []
    sgn = 1 if obj == "max" else -1
    for i in range(m):
        t = (p.b[i] - dot(rows(p.A)[i], x)) * y[i] * sgn
        facts.append(api.ge(t, 0))
        gap = gap + t
    for j in range(n):
        t = (dot(At2(d, j), y) - p.c[j]) * x[j] * sgn
        facts.append(api.ge(t, 0))
        gap = gap + t
    for f in facts:
        api.check(api.Implies(api.And(P, D), f), "weak duality")
    api.check(api.eq(hi - lo, gap), "weak duality")
    if m + n <= 3:
        api.check(api.Implies(api.And(P, D), api.le(lo, hi)), "weak duality")


def At2(d, j):
    return [d.A[j, i] for i in range(d.A.shape[1])]
