"""C09: simplex from a feasible basis terminates with a correct, certified answer."""
import random

from props.lpcommon import *

LABELS = ["solution is the basic solution of the returned basis", "solution is feasible", "certificate is dual feasible",
          "certificate has the solution's value", "unbounded: point is feasible", "unbounded: direction is nonnegative and keeps Ax",
          "unbounded: direction improves", "program unchanged"]
NOTE = ("Optimality of the returned solution over all feasible points follows from the checked conditions "
        "(dual feasible certificate of equal value) by weak duality.")
BOUNDS = {"quick": "A from fixed families (up to 3x6, including parallel columns, zero entries, degenerate cycling examples) and seeded "
                   "2x4, 2x5 and 3x5 matrices, plus fully symbolic 1x2 and 1x3; b and c symbolic; every feasible starting basis; 16 seeded programs of 3x7 to 5x10 with one entry of b and two of c symbolic",
          "thorough": "the same with more seeded matrices up to 4x6, and programs up to 6x14"}
CYCLE = {  # Beale / Hoffman style degenerate programs (b = 0 on the cycling rows)
    "beale": ([[Fraction(1, 4), -8, -1, 9, 1, 0, 0], [Fraction(1, 2), -12, Fraction(-1, 2), 3, 0, 1, 0], [0, 0, 1, 0, 0, 0, 1]],
              [0, 0, 1], [Fraction(3, 4), -20, Fraction(1, 2), -6, 0, 0, 0], [5, 6, 7]),
    "marshall": ([[Fraction(1, 2), Fraction(-11, 2), Fraction(-5, 2), 9, 1, 0, 0], [Fraction(1, 2), Fraction(-3, 2), Fraction(-1, 2), 1, 0, 1, 0],
                  [1, 0, 0, 0, 0, 0, 1]], [0, 0, 1], [10, -57, -9, -24, 0, 0, 0], [5, 6, 7]),
}


def cases(tier, seed):
    out = []
    fam = dict(FIXED)
    fam.update(families(tier, seed, [(2, 4, 2), (2, 5, 1), (3, 5, 1)] if tier == "quick" else [(2, 4, 10), (2, 5, 4), (2, 6, 2), (3, 5, 6), (3, 6, 3), (4, 6, 2)]))
    for name, A in fam.items():
        bs = bases_of(A)
        for B in bs:
            out.append({"name": f"{name} from {[j + 1 for j in B]}", "fn": "run",
                        "params": {"A": A, "B": [j + 1 for j in B]}, "opts": {"samples": 3}})
    for k, (m, q) in enumerate([(3, 4), (4, 4), (4, 5), (5, 5)] + ([(5, 6), (6, 6), (6, 8)] if tier == "thorough" else [])):
        for s in range(4 if tier == "quick" else 8):
            out.append({"name": f"large {m}x{m + q} {s}", "fn": "larger", "params": {"m": m, "k": q, "s": s + 10 * int(seed), "free": [(s + k) % q, (s + k + 2) % q], "right": (s + k) % m},
                        "opts": {"samples": 3, "path_wall": 20, "wall": 3000}})
    for n in (1, 2, 3):
        for j in range(1, n + 1):
            out.append({"name": f"symbolic 1x{n} from [{j}]", "fn": "symbolic", "params": {"n": n, "j": j}})
    for name, (A, b, c, B) in CYCLE.items():
        for free in (0, 1, 2):
            out.append({"name": f"{name} with symbolic c{free}", "fn": "cycle",
                        "params": {"name": name, "free": free}, "opts": {"path_wall": 20}})
    return out


def judge(api, p, A, b, c, n, res):
    """The property, for a result of a simplex solver on the program max cx : Ax = b, x >= 0 (A may be symbolic)."""
    x, basis, cert = res
    if x is not None:
        ok = isinstance(basis, list) and len(set(basis)) == len(A) and all(1 <= j <= n for j in basis)
        api.check(ok and len(x) == n, "solution is the basic solution of the returned basis")
        api.observe("x", x)
        api.observe("basis", sorted(basis))
        api.observe("certificate", cert)
        api.check(api.And([api.eq(x[j], 0) for j in range(n) if j + 1 not in basis]), "solution is the basic solution of the returned basis")
        api.check(api.ne(det(api, [[A[i][j - 1] for j in basis] for i in range(len(A))]), 0), "solution is the basic solution of the returned basis")
        api.check(api.And([api.eq(dot(A[i], x), b[i]) for i in range(len(A))]), "solution is feasible")
        api.check(api.And([api.ge(x[j], 0) for j in range(n)]), "solution is feasible")
        api.check(not isinstance(cert, tuple) and len(cert) == len(A), "certificate is dual feasible")
        api.check(api.And([api.ge(dot([A[i][j] for i in range(len(A))], cert), c[j]) for j in range(n)]), "certificate is dual feasible")
        api.check(api.eq(dot(b, cert), dot(c, x)), "certificate has the solution's value")
        return "optimal"
    api.check(basis is None, "unbounded: point is feasible")
    if not isinstance(cert, tuple):
        return "other"
    xf, d = cert
    api.observe("point", xf)
    api.observe("direction", d)
    api.check(api.And([api.eq(dot(A[i], xf), b[i]) for i in range(len(A))]), "unbounded: point is feasible")
    api.check(api.And([api.ge(xf[j], 0) for j in range(n)]), "unbounded: point is feasible")
    api.check(api.And([api.eq(dot(A[i], d), 0) for i in range(len(A))] + [api.ge(d[j], 0) for j in range(n)]),
              "unbounded: direction is nonnegative and keeps Ax")
    api.check(api.gt(dot(c, d), 0), "unbounded: direction improves")
    return "unbounded"


def finish(api, p, before, A, b, c, n, B):
    res = p.simplex(list(B))
    api.check(same_program(api, before, snapshot(p)), "program unchanged")
    api.check(judge(api, p, A, b, c, n, res) != "other", "unbounded: point is feasible")


def run(api, A, B):
    m, n = len(A), len(A[0])
    b, c = api.vec("b", m), api.vec("c", n)
    x0 = basic_solution(A, [j - 1 for j in B], lst(b), n)
    api.assume(api.And([api.ge(v, 0) for v in x0]))
    p = make(api, api.array(flt(A)), b, c, api.real("z"))
    finish(api, p, snapshot(p), A, lst(b), lst(c), n, B)


def symbolic(api, n, j):
    A, b, c = api.mat("A", 1, n), api.vec("b", 1), api.vec("c", n)
    api.assume(api.Or(api.And(api.gt(A[0, j - 1], 0), api.ge(b[0], 0)), api.And(api.lt(A[0, j - 1], 0), api.le(b[0], 0))))
    p = make(api, A, b, c)
    finish(api, p, snapshot(p), rows(A), lst(b), lst(c), n, [j])


def larger(api, m, k, s, free, right):
    A, b, c, B = large(s, m, k)
    b, c = loosen(api, "b", b, [right], 0), loosen(api, "c", c, free)
    p = make(api, api.array(flt(A)), b, c, api.real("z"))
    finish(api, p, snapshot(p), A, lst(b), lst(c), m + k, B)


def cycle(api, name, free):
    A, b, c, B = CYCLE[name]
    n = len(c)
    cc = api.vec("c", n)
    for j in range(n):
        if j not in [(free + t) % 4 for t in range(2)]:
            api.assume(api.eq(cc[j], Fraction(c[j])))
    bb = api.vec("b", len(b))
    api.assume(api.And([api.eq(bb[0], 0), api.eq(bb[1], 0), api.ge(bb[2], 0)]))
    p = make(api, api.array(flt(A)), bb, cc)
    finish(api, p, snapshot(p), A, lst(bb), lst(cc), n, B)
