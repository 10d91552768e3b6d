"""C04: is_feasible, evaluate and value_of follow the program's definition."""
import itertools

from props.lpcommon import *

LABELS = ["is_feasible agrees with the definition", "evaluate is c.x + z", "value_of only for feasible points",
          "value_of equals evaluate", "rounding-sized residuals are tolerated and real violations are not", "a vector of the wrong size is refused"]
BOUNDS = {"quick": "every objective, operator and sign pattern for 1x1, 1x2, 2x1 and 2x2 programs and 12 of 3x3, 3 of 1x12; A, b, c, z, x symbolic; tolerances exactly: 4 constant systems, every operator and sign pattern, |x| <= 10",
          "thorough": "every pattern up to 2x3 and 3x2 and 60 of 3x3; A, b, c, z, x symbolic"}


def cases(tier, seed):
    import random
    rnd = random.Random(seed)
    out = []
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(2, 3), (3, 2)] if tier == "thorough" else [])
    pats = []
    for m, n in sizes:
        for ops in itertools.product(OPS, repeat=m):
            for signs in itertools.product(SIGNS, repeat=n):
                pats.append((ops, signs))
    for _ in range(60 if tier == "thorough" else 12):
        pats.append((tuple(rnd.choice(OPS) for _ in range(3)), tuple(rnd.choice(SIGNS) for _ in range(3))))
    for k in range(3):
        pats.append((tuple(OPS[k:k + 1]), tuple(SIGNS[(k + j) % 3] for j in range(12))))
    for k, (ops, signs) in enumerate(dict.fromkeys(pats)):
        for obj in (["max", "min"] if len(ops) * len(signs) <= 2 or all(o == "=" for o in ops) and all(s == "pos" for s in signs) else [["max", "min"][k % 2]]):
            out.append({"name": f"{obj} {' '.join(ops)} / {' '.join(signs)}", "fn": "run",
                        "params": {"ops": list(ops), "signs": list(signs), "obj": obj}, "opts": {"samples": 4}})
    # tolerances modelled exactly: constant data, symbolic point
    for A, b in (([[1]], [2]), ([[3]], [0]), ([[1, 1]], [1]), ([[1, -2], [2, 1]], [0, 3])):
        m, n = len(A), len(A[0])
        for ops in itertools.product(OPS, repeat=m):
            for signs in itertools.product(SIGNS, repeat=n):
                if tier == "quick" and m == 2 and rnd.random() < 0.6:
                    continue
                out.append({"name": f"tolerance {A} {b} {' '.join(ops)} / {' '.join(signs)}", "fn": "tolerance",
                            "params": {"A": A, "b": b, "ops": list(ops), "signs": list(signs)},
                            "opts": {"exact_tol": True, "tol": 1e-14, "samples": 2}})
    return out


def tolerance(api, A, b, ops, signs):
    m, n = len(A), len(A[0])
    p = make(api, api.array(A), api.array(b), api.array([1] * n), 0, "max", ops, signs)
    x = api.vec("x", n, lo=-10, hi=10)
    r = bool(p.is_feasible(x))
    small, big = (1e-12, 1e-3)
    res = []
    for i in range(m):
        d = dot(A[i], x) - b[i]
        res += [d, -d] if ops[i] == "=" else ([d] if ops[i] == "<=" else [-d])
    for j in range(n):
        res += [-x[j]] if signs[j] == "pos" else ([x[j]] if signs[j] == "neg" else [])
    lab = "rounding-sized residuals are tolerated and real violations are not"
    if r:
        api.check(api.And([api.le(d, big) for d in res]), lab)
    else:
        api.check(api.Or([api.gt(d, small) for d in res]), lab)


def run(api, ops, signs, obj):
    m, n = len(ops), len(signs)
    A, b, c = api.mat("A", m, n), api.vec("b", m), api.vec("c", n)
    z, x = api.real("z"), api.vec("x", n)
    p = make(api, A, b, c, z, obj, ops, signs)
    spec = feasible(api, A, b, ops, signs, x)
    r = p.is_feasible(x)
    api.observe("feasible", r)
    api.check(api.Iff(api.truth(r), spec), "is_feasible agrees with the definition")
    want = dot(c, x) + z
    api.check(api.eq(p.evaluate(x), want), "evaluate is c.x + z")
    # lists are accepted as well as arrays
    api.check(api.eq(p.evaluate([api.as_float(x[i]) for i in range(n)]), want), "evaluate is c.x + z")
    tag, v = api.call(p.value_of, x, raises=(ValueError,))
    if tag == "ok":
        api.check(spec, "value_of only for feasible points")
        api.check(api.eq(v, want), "value_of equals evaluate")
    else:
        api.check(api.Not(spec), "value_of only for feasible points")
    for bad in (api.vec("w", n + 1), api.vec("w", n - 1), api.mat("w", 1, n)):
        for f in (p.is_feasible, p.evaluate, p.value_of):
            tag, _ = api.call(f, bad, raises=(ValueError,))
            api.check(tag == "raise", "a vector of the wrong size is refused")
