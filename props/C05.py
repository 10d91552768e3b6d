"""C05: standard equality form preserves the program."""
import itertools

from props.lpcommon import *

LABELS = ["the result is in standard equality form", "columns are the mapped variables then one slack per inequality",
          "a feasible point of the standard form maps to a feasible point", "a feasible point maps to a feasible point of the standard form",
          "objective comparisons are preserved", "a program in standard form is unchanged", "the original program is unchanged"]
BOUNDS = {"quick": "every objective, operator and sign pattern for 1x1, 1x2, 2x1, 2x2, 1x3 and 25 patterns of 2x3/3x3/2x4, 3 of 1x12 and 11x2; A, b, c, z and the points symbolic",
          "thorough": "every pattern up to 2x3, 3x2, and 200 patterns of 3x3/2x4/3x4"}


def patterns(tier, seed, small, more, count):
    import random
    rnd = random.Random(seed)
    pats = []
    for m, n in small:
        for ops in itertools.product(OPS, repeat=m):
            for signs in itertools.product(SIGNS, repeat=n):
                for obj in ("max", "min"):
                    pats.append((obj, ops, signs))
    for k in range(3):
        pats.append((("max", "min")[k % 2], tuple(OPS[k:k + 1]), tuple(SIGNS[(k + j) % 3] for j in range(12))))
        pats.append((("min", "max")[k % 2], tuple(OPS[(k + i) % 3] for i in range(11)), tuple(SIGNS[k:] + SIGNS[:k])[:2]))
    for _ in range(count):
        m, n = rnd.choice(more)
        pats.append((rnd.choice(["max", "min"]), tuple(rnd.choice(OPS) for _ in range(m)),
                     tuple(rnd.choice(SIGNS) for _ in range(n))))
    return list(dict.fromkeys(pats))


def cases(tier, seed):
    small = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3)]
    if tier == "thorough":
        small += [(2, 3), (3, 2)]
    pats = patterns(tier, seed, small, [(2, 3), (3, 3), (2, 4)] + ([(3, 4)] if tier == "thorough" else []),
                    200 if tier == "thorough" else 25)
    return [{"name": f"{o} {' '.join(ops)} / {' '.join(s)}", "fn": "run",
             "params": {"obj": o, "ops": list(ops), "signs": list(s)}, "opts": {"samples": 1}} for o, ops, s in pats]


def run(api, obj, ops, signs):
    m, n = len(ops), len(signs)
    A, b, c, z = api.mat("A", m, n), api.vec("b", m), api.vec("c", n), api.real("z")
    p = make(api, A.copy(), b.copy(), c.copy(), z, obj, ops, signs)
    before = snapshot(p)
    inplace = api.bool("in_place")
    s = p.to_sef(in_place=inplace)
    api.check(s is p if inplace else same_program(api, snapshot(p), before), "the original program is unchanged")
    api.check(s.objective == "max" and list(s.inequalities) == ["="] * m and list(s.free_variables) == []
              and list(s.negative_variables) == [] and bool(s.is_sef), "the result is in standard equality form")
    if before["sef"]:
        api.check(same_program(api, snapshot(s), before), "a program in standard form is unchanged")
    nf = sum(x == "free" for x in signs)
    nq = sum(o != "=" for o in ops)
    total = n + nf + nq
    api.check(s.A.shape == (m, total) and len(s.c) == total and len(s.b) == m,
              "columns are the mapped variables then one slack per inequality")
    # a point of the standard form
    X = api.vec("X", total)
    x, k = [], 0
    for sg in signs:
        if sg == "free":
            x.append(X[k] - X[k + 1])
            k += 2
        else:
            x.append(X[k] if sg == "pos" else -X[k])
            k += 1
    fs = feasible(api, s.A, s.b, ["="] * m, ["pos"] * total, X)
    api.check(api.Implies(fs, feasible(api, A, b, ops, signs, x)),
              "a feasible point of the standard form maps to a feasible point")
    v = dot(s.c, X)
    w = dot(c, x)
    api.check(api.eq(v, w if obj == "max" else -w), "objective comparisons are preserved")
    # the image of a point of the original
    lhs = [dot(A[i], x) for i in range(m)]
    slacks = [b[i] - lhs[i] if ops[i] == "<=" else lhs[i] - b[i] for i in range(m) if ops[i] != "="]
    Y = [X[j] for j in range(n + nf)] + slacks
    fo = api.And([feasible(api, A, b, ops, signs, x)] + [api.ge(X[j], 0) for j in range(n + nf)])
    api.check(api.Implies(fo, feasible(api, s.A, s.b, ["="] * m, ["pos"] * total, Y)),
              "a feasible point maps to a feasible point of the standard form")
