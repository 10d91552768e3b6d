"""C17: integer programs keep their constraints and integrality."""
from props.lpcommon import *

LABELS = ["the relaxation is a plain linear program with the same data", "feasible exactly when feasible for the relaxation and integral",
          "copies are integer programs with the same data", "copies keep the integrality", "value_of follows integer feasibility",
          "the standard form of an integer program is its relaxation's", "standard form in place keeps the integrality of the variables"]
BOUNDS = {"quick": "A, b, c, z and the point symbolic (|point| <= 3), every operator and sign pattern of 1x1 and a rotating objective and integrality choice; "
                   "24 seeded patterns of 1x2, 2x1 and 2x2 with every integrality choice rotating; standard form of every 1x2 pattern, two integrality choices each; programs of twelve variables with a constant matrix and up to six free entries of the point",
          "thorough": "every pattern of 1x1 and 1x2 with every integrality choice, 60 seeded patterns of 2x2 and 1x3"}


def subsets(n):
    out = [None]
    for r in range(n + 1):
        out += [list(s) for s in itertools.combinations(range(1, n + 1), r)]
    return out + ([[2, 1]] if n == 2 else [])


def cases(tier, seed):
    import random
    rng = random.Random(int(seed) + 17)
    out = []

    def add(ops, signs, obj, I):
        nm = f"{obj} {' '.join(ops)} / {' '.join(signs)} / {I}"
        if all(c["name"] != nm for c in out):
            out.append({"name": nm, "fn": "run", "params": {"ops": list(ops), "signs": list(signs), "obj": obj, "I": I}, "opts": {"samples": 3}})

    k = 0
    for m, n in [(1, 1)] + ([(1, 2)] if tier == "thorough" else []):
        for ops in itertools.product(OPS, repeat=m):
            for signs in itertools.product(SIGNS, repeat=n):
                for I in subsets(n):
                    add(ops, signs, ["max", "min"][k % 2], I)
                    k += 1
    for t in range(24 if tier == "quick" else 60):
        m, n = [(1, 2), (2, 1), (2, 2)][t % 3] if tier == "quick" else [(2, 2), (1, 3), (2, 1)][t % 3]
        S = subsets(n)
        add([rng.choice(OPS) for _ in range(m)], [rng.choice(SIGNS) for _ in range(n)], rng.choice(["max", "min"]), S[t // 3 % len(S)])
    forms = [(o, s) for o in OPS for s in itertools.product(SIGNS, repeat=2)]
    for t, (o, s) in enumerate(forms):
        S = subsets(2)
        for I in S if tier == "thorough" else [S[t % len(S)], S[(t + 3) % len(S)]]:
            out.append({"name": f"standard form {o} / {' '.join(s)} / {I}", "fn": "standard", "params": {"ops": [o], "signs": list(s), "obj": ["max", "min"][t % 2], "I": I},
                        "opts": {"samples": 3}})
    wide = ["pos", "free", "neg"] * 4
    for t, I in enumerate([[1, 2], [12], [10, 3], [2, 11], None]):
        for fn in ("run", "standard"):
            out.append({"name": f"twelve variables {fn} / {I}", "fn": fn, "params": {"ops": [OPS[t % 3]], "signs": wide[t % 3:] + wide[:t % 3], "obj": ["max", "min"][t % 2], "I": I, "wide": True}, "opts": {"samples": 3}})
    return out


def data(api, m, n, wide):
    """The matrix, and a point with few symbolic entries if there are many."""
    if not wide:
        return api.mat("A", m, n), lambda name, k: api.vec(name, k, lo=-3, hi=3)
    A = api.array([[float((5 * j + i) % 4 - 1) for j in range(n)] for i in range(m)])
    return A, lambda name, k: api.array([api.real(f"{name}{j}", -3, 3) if j in (0, 1, 9, 11, 14, k - 1) else 0.0 for j in range(k)])


def standard(api, ops, signs, obj, I, wide=False):
    m, n = len(ops), len(signs)
    progs = api.mod("pytimize.programs")
    A, point = data(api, m, n, wide)
    b, c, z = api.vec("b", m), api.vec("c", n), api.real("z")
    p = progs.IntegerProgram(A, b, c, z, obj, list(ops), free_of(signs), neg_of(signs), None if I is None else list(I))
    ints = list(range(1, n + 1)) if I is None else I
    lab = "the standard form of an integer program is its relaxation's"
    before, r = snapshot(p), p.relax().to_sef()
    already = before["sef"]
    keep = p.copy()
    s = p.to_sef()
    api.check(s is not p and same_program(api, before, snapshot(p)) and bool(p == keep), lab)
    api.check(same_program(api, snapshot(s), snapshot(r)), lab)
    if not already:
        api.check(not isinstance(s, progs.IntegerProgram), lab)
    q = keep.to_sef(True, True)
    lab = "standard form in place keeps the integrality of the variables"
    api.check(q is keep and same_program(api, snapshot(q), snapshot(r)), lab)
    N = len(lst(r.c))
    X = point("X", N)
    # every column of an integral variable is integral, no slack is
    cols, k = [], 0
    for j, sg in enumerate(signs):
        w = 2 if sg == "free" else 1
        cols += range(k, k + w) if j + 1 in ints else []
        k += w
    spec = api.And(feasible(api, r.A, r.b, ["="] * m, ["pos"] * N, X), api.And([api.is_int(X[k]) for k in cols]))
    f = q.is_feasible(X)
    api.observe("feasible", f)
    api.check(api.Iff(api.truth(f), spec), lab)
    again = q.to_sef(True, True)
    api.check(again is q and same_program(api, snapshot(q), snapshot(r)) and api.Iff(api.truth(again.is_feasible(X)), spec), lab)


def run(api, ops, signs, obj, I, wide=False):
    m, n = len(ops), len(signs)
    progs = api.mod("pytimize.programs")
    A, point = data(api, m, n, wide)
    b, c, z = api.vec("b", m), api.vec("c", n), api.real("z")
    p = progs.IntegerProgram(A, b, c, z, obj, list(ops), free_of(signs), neg_of(signs), None if I is None else list(I))
    ints = list(range(1, n + 1)) if I is None else I
    s = snapshot(p)
    r = p.relax()
    api.check(isinstance(r, progs.LinearProgram) and not isinstance(r, progs.IntegerProgram), "the relaxation is a plain linear program with the same data")
    api.check(same_program(api, s, snapshot(r)), "the relaxation is a plain linear program with the same data")
    api.check(api.And([api.eq(r.A[i, j], A[i, j]) for i in range(m) for j in range(n)]), "the relaxation is a plain linear program with the same data")
    x = point("x", n)
    spec = api.And(feasible(api, A, b, ops, signs, x), api.And([api.is_int(x[j - 1]) for j in ints]))
    f = p.is_feasible(x)
    api.observe("feasible", f)
    lab = "feasible exactly when feasible for the relaxation and integral"
    api.check(api.Iff(api.truth(f), spec), lab)
    api.check(api.Implies(api.truth(f), api.truth(r.is_feasible(x))), lab)
    api.check(api.Iff(api.truth(r.is_feasible(x)), feasible(api, A, b, ops, signs, x)), lab)
    q = p.copy()
    api.check(type(q) is progs.IntegerProgram, "copies are integer programs with the same data")
    api.check(same_program(api, s, snapshot(q)), "copies are integer programs with the same data")
    api.check(api.Iff(api.truth(q.is_feasible(x)), spec), "copies keep the integrality")
    api.check(api.Iff(api.truth(q.copy().is_feasible(x)), spec), "copies keep the integrality")
    tag, v = api.call(p.value_of, x, raises=(ValueError,))
    api.check(api.Iff(tag == "ok", spec), "value_of follows integer feasibility")
    t = p.add_constraint([1.0] * n, "<=", 2.0)
    api.check(type(t) is progs.IntegerProgram, "copies are integer programs with the same data")
    api.check(api.Iff(api.truth(t.is_feasible(x)), api.And(spec, api.le(sum(lst(x)), 2))), "copies keep the integrality")
