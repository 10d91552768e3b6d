"""C07: bases and basic solutions are what linear algebra says."""
import itertools

from props.lpcommon import *

LABELS = ["basis iff one valid index per row and independent columns", "basic solution solves Ax = b and vanishes outside",
          "non-bases are refused", "basic solution predicate", "feasible basic solution predicate", "basis feasibility",
          "canonical form predicate"]
BOUNDS = {"quick": "A (1x1, 1x2, 1x3, 2x2, 2x3), b, c, x symbolic; every index list in any order of length up to rows+1 over 0..columns+1 "
                   "(bases in every order for the predicates)",
          "thorough": "additionally 2x4 and 3x3 with symbolic A and 3x4 with constant A"}


def cases(tier, seed):
    out = []
    sizes = [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3)] + ([(2, 4), (3, 3)] if tier == "thorough" else [])
    for m, n in sizes:
        out.append({"name": f"refused lists {m}x{n}", "fn": "refused", "params": {"m": m, "n": n}})
        for B in itertools.permutations(range(1, n + 1), m):
            for fn in ("basis", "predicates", "canonical"):
                out.append({"name": f"{fn} {m}x{n} {list(B)}", "fn": fn, "params": {"m": m, "n": n, "B": list(B)},
                            "opts": {"samples": 3}})
    return out


def program(api, m, n):
    A, b, c = api.mat("A", m, n), api.vec("b", m), api.vec("c", n)
    return A, b, c, make(api, A, b, c)


def cols(A, B):
    return [[A[i, j - 1] for j in B] for i in range(A.shape[0])]


def refused(api, m, n):
    A, b, c, p = program(api, m, n)
    k = api.choice("length", list(range(0, m + 2)))
    B = [api.choice(f"i{t}", list(range(0, n + 2))) for t in range(k)]
    good = k == m and all(1 <= i <= n for i in B) and len(set(B)) == len(B)
    if good:
        return
    api.check(api.Not(api.truth(p.is_basis(list(B)))), "basis iff one valid index per row and independent columns")
    for f, args in ((p.compute_basic_solution, ()), (p.is_basic_solution, (api.vec("x", n),)),
                    (p.to_canonical_form, ())):
        tag, _ = api.call(f, *args, list(B), raises=(Exception,))
        api.check(tag == "raise", "non-bases are refused")
    tag, r = api.call(p.is_feasible_basic_solution, api.vec("x", n), list(B), raises=(Exception,))
    api.check(tag == "raise" or api.Not(api.truth(r)), "feasible basic solution predicate")
    tag, r = api.call(p.is_canonical_form_for, list(B), raises=(Exception,))
    api.check(tag == "raise" or api.Not(api.truth(r)), "canonical form predicate")
    api.check(api.Not(api.truth(p.is_basis_feasible(list(B)))), "basis feasibility")


def basis(api, m, n, B):
    A, b, c, p = program(api, m, n)
    d = det(api, cols(A, B))
    r = p.is_basis(list(B))
    api.check(api.Iff(api.truth(r), api.ne(d, 0)), "basis iff one valid index per row and independent columns")
    given = list(B)
    tag, s = api.call(p.compute_basic_solution, given, raises=(Exception,))
    api.check(api.Iff(tag == "ok", api.ne(d, 0)), "non-bases are refused")
    api.check(given == list(B), "basic solution solves Ax = b and vanishes outside")
    if tag == "ok":
        api.observe("solution", s)
        api.check(api.And([api.eq(s[j], 0) for j in range(n) if j + 1 not in B]
                          + [api.eq(v, w) for v, w in zip(matvec(rows(A), s), b)]),
                  "basic solution solves Ax = b and vanishes outside")
    f = p.is_basis_feasible(list(B))
    # Cramer's rule
    nums = []
    M = cols(A, B)
    for k in range(m):
        Mk = [[b[i] if t == k else M[i][t] for t in range(m)] for i in range(m)]
        nums.append(det(api, Mk))
    spec = api.Or(api.And([api.gt(d, 0)] + [api.ge(x, 0) for x in nums]), api.And([api.lt(d, 0)] + [api.le(x, 0) for x in nums]))
    api.check(api.Iff(api.truth(f), spec), "basis feasibility")


def predicates(api, m, n, B):
    A, b, c, p = program(api, m, n)
    x = api.vec("x", n)
    d = det(api, cols(A, B))
    basic = api.And([api.eq(x[j], 0) for j in range(n) if j + 1 not in B] + [api.eq(v, w) for v, w in zip(matvec(rows(A), x), b)])
    tag, r = api.call(p.is_basic_solution, x, list(B), raises=(Exception,))
    api.check(api.Iff(tag == "ok", api.ne(d, 0)), "non-bases are refused")
    if tag == "ok":
        api.check(api.Iff(api.truth(r), basic), "basic solution predicate")
    nonneg = api.And([api.ge(v, 0) for v in x])
    tag, r = api.call(p.is_feasible_basic_solution, x, list(B), raises=(ValueError, ArithmeticError))
    if tag == "ok":
        api.check(api.Iff(api.truth(r), api.And(basic, nonneg, api.ne(d, 0))), "feasible basic solution predicate")
    else:
        api.check(api.eq(d, 0), "non-bases are refused")


def canonical(api, m, n, B):
    A, b, c, p = program(api, m, n)
    M = cols(A, B)
    spec = api.And([api.eq(M[i][k], int(i == k)) for i in range(m) for k in range(m)] + [api.eq(c[j - 1], 0) for j in B])
    r = p.is_canonical_form_for(list(B))
    api.check(api.Iff(api.truth(r), spec), "canonical form predicate")
