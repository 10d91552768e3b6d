"""C10: two-phase simplex classifies every program, with a certificate."""
import random

from props.lpcommon import *
from props.C09 import CYCLE, judge

LABELS = ["solution is the basic solution of the returned basis", "solution is feasible", "certificate is dual feasible",
          "certificate has the solution's value", "unbounded: point is feasible", "unbounded: direction is nonnegative and keeps Ax",
          "unbounded: direction improves", "infeasibility certificate is valid", "dependent rows are refused only when a feasible point exists",
          "program unchanged"]
NOTE = ("Each certificate excludes the other two classifications (weak duality, Farkas), so valid certificates on every path "
        "decide 'exactly when'.")
BOUNDS = {"quick": "A full row rank: fixed families up to 3x6, seeded 2x3..3x5 matrices, and symbolic 1x1..1x3; 9 families with dependent rows; b, c, z symbolic; 24 seeded programs of 3x7 to 4x8 with two entries of b or of c symbolic",
          "thorough": "the same with more seeded matrices up to 3x6, and programs up to 5x10"}


def cases(tier, seed):
    out = []
    fam = dict(FIXED)
    fam.update(families(tier, seed, [(2, 3, 1), (2, 4, 2), (3, 4, 1), (3, 5, 1)] if tier == "quick"
                        else [(2, 3, 4), (2, 4, 8), (2, 5, 4), (3, 4, 4), (3, 5, 3), (3, 6, 1)]))
    for name, A in fam.items():
        out.append({"name": name, "fn": "run", "params": {"A": A}, "opts": {"samples": 6}})
    for name, A in DEPENDENT.items():
        out.append({"name": f"dependent rows {name}", "fn": "dependent", "params": {"A": A}, "opts": {"samples": 4}})
    for k, (m, q) in enumerate([(3, 7), (3, 8), (4, 7), (4, 8)] + ([(5, 9), (5, 10)] if tier == "thorough" else [])):
        for s in range(3 if tier == "quick" else 6):
            for what in "bc":
                out.append({"name": f"large {m}x{q} {s} {what}", "fn": "larger", "params": {"m": m, "n": q, "s": s + 10 * int(seed), "free": [(s + k) % (m if what == "b" else q), (s + k + 2) % (m if what == "b" else q)], "what": what},
                            "opts": {"samples": 2, "path_wall": 20, "wall": 3000}})
    for n in (1, 2, 3):
        out.append({"name": f"symbolic 1x{n}", "fn": "symbolic", "params": {"n": n}})
    for name in CYCLE:
        for free in (0, 1, 2):
            out.append({"name": f"{name} with symbolic c{free}", "fn": "cycle", "params": {"name": name, "free": free},
                        "opts": {"path_wall": 20, "samples": 4}})
    return out


DEPENDENT = {"2x1": [[1], [1]], "2x1 scaled": [[2], [-3]], "2x2": [[1, 2], [2, 4]], "2x2 opposite": [[1, -1], [-1, 1]], "zero row": [[1, 2], [0, 0]],
             "3x2": [[1, 1], [1, -1], [0, 1]], "3x1": [[1], [2], [0]], "3x3": [[1, 0, 1], [0, 1, 1], [1, 1, 2]], "3x2 twice": [[1, 2], [1, 2], [1, 2]]}


def dependent(api, A):
    """Rows that depend on each other may be refused, but not when there is no feasible point."""
    m, n = len(A), len(A[0])
    b, c = api.vec("b", m), api.vec("c", n)
    p = make(api, api.array(flt(A)), b, c, api.real("z"))
    before = snapshot(p)
    tag, res = api.call(p.two_phase_simplex, raises=(ValueError, ArithmeticError))
    api.check(same_program(api, before, snapshot(p)), "program unchanged")
    if tag == "ok":
        verdict(api, A, lst(b), lst(c), n, res)
        return
    points = []                                # the basic solutions: one of them is feasible when anything is
    for k in range(n + 1):
        for S in itertools.combinations(range(n), k):
            x = solution(A, S, b)
            if x is not None:
                points.append(api.And([api.ge(x[j], 0) for j in S] + [api.eq(sum((A[i][j] * x[j] for j in S), 0), b[i]) for i in range(m)]))
    api.check(api.Or(points), "dependent rows are refused only when a feasible point exists")


def solution(A, S, b):
    """The entries on the columns S that solve as many rows of Ax = b as there are columns, or None if the columns depend."""
    rows_ = [([Fraction(A[i][j]) for j in S], b[i]) for i in range(len(A))]
    done = []
    for t in range(len(S)):
        k = next((i for i, r in enumerate(rows_) if r[0][t] != 0), None)
        if k is None:
            return None
        r, v = rows_.pop(k)
        f = r[t]
        r, v = [q / f for q in r], v * fr(1 / f)
        rows_ = [([q - w[t] * u for q, u in zip(w, r)], y - fr(w[t]) * v) for w, y in rows_]
        done = [([q - w[t] * u for q, u in zip(w, r)], y - fr(w[t]) * v) for w, y in done]
        done.append((r, v))
    return {j: done[t][1] for t, j in enumerate(S)}


def verdict(api, A, b, c, n, res):
    kind = judge(api, None, A, b, c, n, res)
    if kind == "other":
        y = res[2]
        api.observe("infeasibility", y)
        api.check(y is not None and not isinstance(y, tuple) and len(y) == len(A), "infeasibility certificate is valid")
        api.check(api.And([api.ge(dot([A[i][j] for i in range(len(A))], y), 0) for j in range(n)] + [api.lt(dot(y, b), 0)]),
                  "infeasibility certificate is valid")


def go(api, p, A, b, c, n):
    before = snapshot(p)
    tag, res = api.call(p.two_phase_simplex)
    api.check(same_program(api, before, snapshot(p)), "program unchanged")
    verdict(api, A, b, c, n, res)


def run(api, A):
    m, n = len(A), len(A[0])
    b, c = api.vec("b", m), api.vec("c", n)
    p = make(api, api.array(flt(A)), b, c, api.real("z"))
    go(api, p, A, lst(b), lst(c), n)


def symbolic(api, n):
    A, b, c = api.mat("A", 1, n), api.vec("b", 1), api.vec("c", n)
    api.assume(api.Or([api.ne(A[0, j], 0) for j in range(n)]))
    p = make(api, A, b, c)
    go(api, p, rows(A), lst(b), lst(c), n)


def larger(api, m, n, s, free, what):
    """A larger program with equations of either sign, made feasible or not by its right-hand side."""
    rng = random.Random(f"{s} {m} {n}")
    while True:
        A = [[rng.choice([0, 0, 1, -1, 2, 3, -2]) for _ in range(n)] for _ in range(m)]
        if crank(A) == m:
            break
    x = [rng.choice([0, 0, 1, 2, 3]) for _ in range(n)]
    b = [sum(r[j] * x[j] for j in range(n)) for r in A]
    c = [rng.randint(-4, 2) for _ in range(n)]
    b, c = (loosen(api, "b", b, free), [float(t) for t in c]) if what == "b" else ([float(t) for t in b], loosen(api, "c", c, free))
    p = make(api, api.array(flt(A)), api.array(lst(b)), api.array(lst(c)), api.real("z"))
    go(api, p, A, lst(b), lst(c), n)


def cycle(api, name, free):
    A, b, c, B = CYCLE[name]
    n = len(c)
    cc = api.vec("c", n)
    for j in range(n):
        if j not in [(free + t) % 4 for t in range(2)]:
            api.assume(api.eq(cc[j], Fraction(c[j])))
    p = make(api, api.array(flt(A)), api.array(flt([b])[0]), cc)
    go(api, p, A, [float(t) for t in b], lst(cc), n)
