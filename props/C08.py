"""C08: canonical form is an equivalent rewriting."""
import itertools

from props.lpcommon import *

LABELS = ["basis columns become the identity with zero objective", "the solutions of the constraints are unchanged",
          "the objective on solutions is unchanged", "programs not in standard form are refused", "non-bases are refused",
          "the original is untouched unless in place"]
BOUNDS = {"quick": "A (1x1, 1x2, 1x3, 2x2, 2x3), b, c, z symbolic, every ascending basis; 3x4 constant A with symbolic b, c, z",
          "thorough": "additionally 2x4 and 3x3 symbolic"}
K34 = [[1, 2, 0, 1], [0, 1, 3, -1], [2, 0, 1, 1]]


def cases(tier, seed):
    out = []
    for m, n in [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 4)] + ([(2, 4), (3, 3)] if tier == "thorough" else []):
        for B in itertools.combinations(range(1, n + 1), m):
            out.append({"name": f"{m}x{n} {list(B)}", "fn": "run", "params": {"m": m, "n": n, "B": list(B)}, "opts": {"samples": 3}})
    for ops, signs, obj in ((["<="], ["pos", "pos"], "max"), (["="], ["free", "pos"], "max"), (["="], ["pos", "neg"], "max"),
                            (["="], ["pos", "pos"], "min")):
        out.append({"name": f"not standard: {obj} {ops} {signs}", "fn": "refused", "params": {"obj": obj, "ops": ops, "signs": signs}})
    return out


def run(api, m, n, B):
    A = api.array(K34) if m == 3 and n == 4 else api.mat("A", m, n)
    b, c, z = api.vec("b", m), api.vec("c", n), api.real("z")
    p = make(api, A.copy(), b.copy(), c.copy(), z)
    before = snapshot(p)
    M = [[A[i, j - 1] for j in B] for i in range(m)]
    d = det(api, M)
    inplace = api.bool("in_place")
    tag, q = api.call(p.to_canonical_form, list(B), in_place=inplace, raises=(ValueError,))
    api.check(api.Iff(tag == "ok", api.ne(d, 0)), "non-bases are refused")
    if tag != "ok" or not inplace:
        api.check(same_program(api, snapshot(p), before), "the original is untouched unless in place")
    if tag != "ok":
        return
    api.check((q is p) == inplace, "the original is untouched unless in place")
    api.assume(api.ne(d, 0))
    api.observe("z", q.z)
    api.check(api.And([api.eq(q.A[i, j - 1], int(i == k)) for i in range(m) for k, j in enumerate(B)]
                      + [api.eq(q.c[j - 1], 0) for j in B]), "basis columns become the identity with zero objective")
    # A' = (A_B)^-1 A and b' = (A_B)^-1 b, the only equivalent system with identity columns
    api.check(api.And([api.eq(dot(M[i], [q.A[k, j] for k in range(m)]), A[i, j]) for i in range(m) for j in range(n)]
                      + [api.eq(dot(M[i], q.b), b[i]) for i in range(m)]), "the solutions of the constraints are unchanged")
    # value on solutions: c'x + z' = cx + z - y(Ax - b) for some y
    y = []
    for k in range(m):
        # solve A_B^T y = c_B by Cramer's rule
        Mt = [[M[i][t] for i in range(m)] for t in range(m)]
        Mk = [[c[B[t] - 1] if i == k else Mt[t][i] for i in range(m)] for t in range(m)]
        y.append(det(api, Mk) / d)
    api.check(api.And([api.eq(q.c[j], c[j] - dot(y, [A[i, j] for i in range(m)])) for j in range(n)]
                      + [api.eq(q.z, z + dot(y, b))]), "the objective on solutions is unchanged")
    api.check(q.objective == "max" and bool(q.is_sef) and list(q.inequalities) == ["="] * m,
              "the solutions of the constraints are unchanged")


def refused(api, obj, ops, signs):
    m, n = len(ops), len(signs)
    p = make(api, api.mat("A", m, n), api.vec("b", m), api.vec("c", n), 0, obj, ops, signs)
    tag, _ = api.call(p.to_canonical_form, [1], raises=(ArithmeticError,))
    api.check(tag == "raise", "programs not in standard form are refused")
