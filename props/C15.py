"""C15: the auxiliary program decides feasibility."""
from props.lpcommon import *

LABELS = ["minimization with nonnegative right-hand side and nonnegative variables", "artificial variables form an identity basis",
          "feasible exactly when extended by zeros it is feasible with value zero", "no feasible vector has negative value",
          "not in standard form raises ArithmeticError"]
BOUNDS = {"quick": "A, b, c, z and the vectors symbolic, shapes up to 3x3, 2x4 and 1x4; constant matrices up to 6x12; refusal for every pattern not in standard form up to 2x2",
          "thorough": "the same up to 4x4 and 3x5"}


def cases(tier, seed):
    out = []
    sizes = [(1, 1), (1, 2), (1, 4), (2, 1), (2, 2), (2, 3), (2, 4), (3, 2), (3, 3)] + ([(3, 5), (4, 3), (4, 4), (5, 2)] if tier == "thorough" else [])
    for m, n in sizes:
        out.append({"name": f"standard {m}x{n}", "fn": "standard", "params": {"m": m, "n": n}, "opts": {"samples": 8}})
    for m, n in ((4, 8), (5, 6), (6, 12)):
        out.append({"name": f"constant matrix {m}x{n}", "fn": "standard", "params": {"m": m, "n": n, "M": large(m, m, n - m)[0]}, "opts": {"samples": 4, "path_wall": 30}})
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2)):
        out.append({"name": f"other forms {m}x{n}", "fn": "other", "params": {"m": m, "n": n}, "opts": {"samples": 4}})
    return out


def standard(api, m, n, M=None):
    A, b, c = api.mat("A", m, n) if M is None else api.array(flt(M)), api.vec("b", m), api.vec("c", n)
    p = make(api, A, b, c, api.real("z"))
    q = p.auxiliary()
    lab = "minimization with nonnegative right-hand side and nonnegative variables"
    api.check(q.objective == "min" and list(q.inequalities) == ["="] * m and not q.free_variables and not q.negative_variables, lab)
    api.check(q.A.shape == (m, n + m) and len(q.b) == m and len(q.c) == n + m, lab)
    QA, Qb, Qc = rows(q.A), lst(q.b), lst(q.c)
    api.observe("aux", [QA, Qb, Qc])
    api.check(api.And([api.ge(v, 0) for v in Qb]), lab)
    lab = "artificial variables form an identity basis"
    api.check(api.And([api.eq(QA[i][n + k], 1 if i == k else 0) for i in range(m) for k in range(m)]), lab)
    x = api.vec("x", n, lo=0)
    e = lst(x) + [0] * m
    spec = api.And([api.eq(dot(A[i], x), b[i]) for i in range(m)])
    aux = api.And([api.eq(dot(QA[i], e), Qb[i]) for i in range(m)])
    val = dot(Qc, e) + q.z
    lab = "feasible exactly when extended by zeros it is feasible with value zero"
    api.check(api.Iff(spec, api.And(aux, api.eq(val, 0))), lab)
    w = lst(x) + lst(api.vec("w", m, lo=0))
    api.check(api.Implies(api.And([api.eq(dot(QA[i], w), Qb[i]) for i in range(m)]), api.ge(dot(Qc, w) + q.z, 0)),
              "no feasible vector has negative value")
    # value zero forces the artificials to be zero
    api.check(api.Implies(api.And(api.And([api.eq(dot(QA[i], w), Qb[i]) for i in range(m)]), api.eq(dot(Qc, w) + q.z, 0)),
                          spec), lab)
    api.check(api.And([api.eq(p.A[i, j], A[i, j]) for i in range(m) for j in range(n)]), "artificial variables form an identity basis")


def other(api, m, n):
    ops = [api.choice(f"o{i}", OPS) for i in range(m)]
    signs = [api.choice(f"s{j}", SIGNS) for j in range(n)]
    obj = api.choice("obj", ["max", "min"])
    p = make(api, api.mat("A", m, n), api.vec("b", m), api.vec("c", n), 0, obj, ops, signs)
    sef = obj == "max" and all(o == "=" for o in ops) and all(s == "pos" for s in signs)
    tag, _ = api.call(p.auxiliary, raises=(ArithmeticError,))
    api.check((tag == "ok") == sef, "not in standard form raises ArithmeticError")
