"""C12: the certificate verifiers are sound and complete."""
from props.lpcommon import *

LABELS = ["infeasibility accepted iff yA >= 0 and yb < 0", "no feasible point exists beside an accepted certificate",
          "unboundedness accepted iff feasible point and improving ray", "optimality accepted iff dual feasible",
          "no feasible point exceeds an accepted dual value", "programs not in standard form are refused"]
BOUNDS = {"quick": "A (1x1, 1x2, 2x2), b, c, certificates and points all symbolic; 8 seeded constant programs of 2x12 to 5x10 with symbolic certificates and points", "thorough": "A up to 2x3 and 3x2, all symbolic"}


def cases(tier, seed):
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2)] + ([(2, 3), (3, 2)] if tier == "thorough" else [])
    out = []
    for m, n in sizes:
        for fn in ("infeasibility", "unboundedness", "optimality"):
            out.append({"name": f"{fn} {m}x{n}", "fn": fn, "params": {"m": m, "n": n}})
    for m, k in [(3, 4), (4, 4), (5, 5), (2, 10)] + ([(6, 6), (6, 9)] if tier == "thorough" else []):
        for s in range(2):
            for fn in ("infeasibility", "unboundedness", "optimality"):
                out.append({"name": f"large {fn} {m}x{m + k} {s}", "fn": fn, "params": {"m": m, "n": m + k, "data": list(large(s, m, k))}, "opts": {"samples": 3, "path_wall": 30}})
    for ops, signs, obj in ((["<="], ["pos"], "max"), (["="], ["free"], "max"), (["="], ["neg"], "max"),
                            (["="], ["pos"], "min"), (["=", ">="], ["pos", "pos"], "max")):
        out.append({"name": f"not standard: {obj} {ops} {signs}", "fn": "refused",
                    "params": {"ops": ops, "signs": signs, "obj": obj}})
    return out


def program(api, m, n, data=None):
    if data is not None:                               # constant program; certificates and points are symbolic
        A, b, c = [api.array(flt(data[0])), api.array([float(v) for v in data[1]]), api.array([float(v) for v in data[2]])]
        return A, b, c, make(api, A, b, c, api.real("z"))
    A, b, c = api.mat("A", m, n), api.vec("b", m), api.vec("c", n)
    return A, b, c, make(api, A, b, c, api.real("z"))


def std_feasible(api, A, b, x):
    return feasible(api, A, b, ["="] * len(b), ["pos"] * len(x), x)


def yA(A, y):
    return [dot([A[i, j] for i in range(A.shape[0])], y) for j in range(A.shape[1])]


def infeasibility(api, m, n, data=None):
    A, b, c, p = program(api, m, n, data)
    y = api.vec("y", m)
    r = p.verify_infeasibility(y)
    api.observe("r", r)
    spec = api.And([api.ge(v, 0) for v in yA(A, y)] + [api.lt(dot(y, b), 0)])
    api.check(api.Iff(api.truth(r), spec), "infeasibility accepted iff yA >= 0 and yb < 0")
    r2 = p.verify_infeasibility([api.as_float(y[i]) for i in range(m)])
    api.check(api.Iff(api.truth(r2), spec), "infeasibility accepted iff yA >= 0 and yb < 0")
    if m * n <= 2 and api.holds(api.truth(r)):
        x = api.vec("x", n)
        api.check(api.Not(std_feasible(api, A, b, x)), "no feasible point exists beside an accepted certificate")


def unboundedness(api, m, n, data=None):
    A, b, c, p = program(api, m, n, data)
    x, d = api.vec("x", n), api.vec("d", n)
    r = p.verify_unboundedness(x, d)
    api.observe("r", r)
    spec = api.And([std_feasible(api, A, b, x)] + [api.ge(v, 0) for v in d]
                   + [api.eq(v, 0) for v in matvec(A, d)] + [api.gt(dot(c, d), 0)])
    api.check(api.Iff(api.truth(r), spec), "unboundedness accepted iff feasible point and improving ray")


def optimality(api, m, n, data=None):
    A, b, c, p = program(api, m, n, data)
    y = api.vec("y", m)
    r = p.verify_optimality(y)
    api.observe("r", r)
    spec = api.And([api.ge(v, cj) for v, cj in zip(yA(A, y), c)])
    api.check(api.Iff(api.truth(r), spec), "optimality accepted iff dual feasible")
    if m * n <= 2 and api.holds(api.truth(r)):
        x = api.vec("x", n)
        api.check(api.Implies(std_feasible(api, A, b, x), api.le(dot(c, x), dot(y, b))),
                  "no feasible point exceeds an accepted dual value")


def refused(api, ops, signs, obj):
    m, n = len(ops), len(signs)
    A, b, c = api.mat("A", m, n), api.vec("b", m), api.vec("c", n)
    p = make(api, A, b, c, 0, obj, ops, signs)
    y, x, d = api.vec("y", m), api.vec("x", n), api.vec("d", n)
    for f, args in ((p.verify_infeasibility, (y,)), (p.verify_optimality, (y,)), (p.verify_unboundedness, (x, d))):
        tag, _ = api.call(f, *args, raises=(ArithmeticError,))
        api.check(tag == "raise", "programs not in standard form are refused")
