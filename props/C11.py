"""C11: solve() returns an optimal solution of the stated program, or None if none exists."""
import random

from props.lpcommon import *

LABELS = ["solution is feasible", "solution is optimal", "None only if infeasible or unbounded", "optimal value", "program unchanged"]
NOTE = ("Optimality is decided by complementary slackness against the dual basic solutions of an independently built standard form "
        "(an Or over its bases, linear in b and c); None is decided against a free symbolic primal point and dual point (Farkas / strong duality).")
BOUNDS = {"quick": "every operator, sign and objective pattern for one constant matrix of each of the shapes 1x1, 1x2, 2x1 and 2x2 (matrices "
                   "rotate over families with zero, negative and seeded entries), a seeded choice of 24 patterns of 2x3, 3x2 and 3x3, "
                   "each with three matrices; b, c, z symbolic; 20 seeded programs of 3x4 to 5x5 with two entries of b or of c symbolic",
          "thorough": "every pattern for three matrices per shape, and 150 patterns of 2x3, 3x2 and 3x3"}
SHAPES = {(1, 1): [[[2]], [[-1]], [[3]]], (1, 2): [[[1, 2]], [[1, -1]], [[-2, -1]], [[0, 1]]],
          (2, 1): [[[1], [2]], [[1], [-1]], [[-1], [-2]]],
          (2, 2): [[[1, 2], [3, 1]], [[1, -1], [-1, -1]], [[-1, 1], [1, 2]], [[1, 0], [1, 1]], [[2, 1], [0, 1]]]}


def patterns(m, n):
    for ops in itertools.product(OPS, repeat=m):
        for signs in itertools.product(SIGNS, repeat=n):
            for o in ("max", "min"):
                yield ops, signs, o


def sef(A, ops, signs):
    """Textbook standard form: columns as (kind, original index, sign), matrix of constants."""
    m, n = len(A), len(A[0])
    cols, M = [], [[] for _ in range(m)]
    for j, s in enumerate(signs):
        for sg in ((1,) if s == "pos" else (-1,) if s == "neg" else (1, -1)):
            cols.append((j, sg))
            for i in range(m):
                M[i].append(sg * A[i][j])
    for i, o in enumerate(ops):
        if o != "=":
            cols.append((None, i))
            for k in range(m):
                M[k].append(0 if k != i else 1 if o == "<=" else -1)
    return M, cols


def cases(tier, seed):
    rng = random.Random(77 + int(seed))
    out = []

    def add(A, ops, signs, o):
        M, cols = sef(A, ops, signs)
        if crank(M) < len(A):
            return False
        nm = f"{o} {A} {list(ops)} {list(signs)}"
        if all(c["name"] != nm for c in out):
            out.append({"name": nm, "fn": "run", "params": {"A": A, "ops": list(ops), "signs": list(signs), "o": o},
                        "opts": {"samples": 2}})
        return True

    for (m, n), fam in SHAPES.items():
        for k, (ops, signs, o) in enumerate(patterns(m, n)):
            for t in range(1 if tier == "quick" else 3):
                add(fam[(k + t + int(seed)) % len(fam)], ops, signs, o)
    for m, n in ((2, 3), (3, 2), (3, 3)):
        ps = list(patterns(m, n))
        for ops, signs, o in rng.sample(ps, 8 if tier == "quick" else 50):
            for t in range(3 if tier == "quick" else 2):
                for _ in range(20):
                    if add([[rng.randint(-3, 3) for _ in range(n)] for _ in range(m)], ops, signs, o):
                        break
    for k, (m, n) in enumerate([(3, 4), (4, 3), (4, 4), (5, 5), (4, 6)] + ([(4, 5), (5, 4), (5, 6)] if tier == "thorough" else [])):
        for s in range(4 if tier == "quick" else 10):
            what = "bc"[s % 2]
            pr = seeded(rng, m, n, what)
            if pr:
                out.append({"name": f"large {m}x{n} {s} {what}", "fn": "larger", "opts": {"samples": 2, "wall": 3000}, "params": pr})
    out.sort(key=lambda c: -len(c["params"]["A"]) * len(c["params"]["A"][0]))
    return out


def seeded(rng, m, n, what, extra=2):
    """A feasible program of mixed form, most often bounded, with two entries of b or c left open."""
    for _ in range(50):
        A = [[rng.choice([0, 0, 1, -1, 2, 3, -2]) for _ in range(n)] for _ in range(m)]
        x = [rng.randint(0, 3) for _ in range(n)]
        ops, signs, o = [rng.choice(OPS + ["<="]) for _ in range(m)], [rng.choice(SIGNS + ["pos"]) for _ in range(n)], rng.choice(["max", "min"])
        b = [sum(r[j] * x[j] * (-1 if signs[j] == "neg" else 1) for j in range(n)) for r in A]
        b = [v + (2 if p == "<=" else -1 if p == ">=" else 0) for v, p in zip(b, ops)]
        c = [rng.randint(0, 4) * (-1 if o == "max" else 1) * (-1 if g == "neg" else 1) for g in signs]
        M, cols = sef(A, ops, signs)
        if crank(M) < m or len(cols) > m + n + extra:
            continue
        return {"A": A, "b": b, "c": c, "ops": ops, "signs": signs, "o": o, "free": rng.sample(range(m if what == "b" else n), 2), "what": what}


def judge(api, A, b, c, z, ops, signs, o, x, value, name="x", tag=""):
    """x is an optimal solution of the program (None: there is none) and value() its objective value."""
    m, n = len(A), len(A[0])
    M, cols = sef(A, ops, signs)
    N = len(cols)
    cc = [0 if j is None else (sg if o == "max" else -sg) * c[j] for j, sg in cols]
    if x is None:
        api.observe(name, None)
        pt = [api.real(f"{tag}p{k}", lo=0) for k in range(N)]
        y = [api.real(f"{tag}y{i}") for i in range(m)]
        api.check(api.Not(api.And([api.eq(dot(M[i], pt), b[i]) for i in range(m)]
                                  + [api.ge(dot([M[i][k] for i in range(m)], y), cc[k]) for k in range(N)])),
                  "None only if infeasible or unbounded")
        api.check(value() is None, "optimal value")
        return
    api.check(len(x) == n, "solution is feasible")
    api.observe(name, x)
    x = lst(x)
    api.check(feasible(api, A, b, ops, signs, x), "solution is feasible")
    xt = []                                   # one standard-form point for x
    for j, sg in cols:
        if j is None:
            i = sg
            xt.append((b[i] - dot(A[i], x)) if ops[i] == "<=" else (dot(A[i], x) - b[i]))
        else:
            xt.append(sg * x[j])              # split parts of a free variable: both have zero reduced cost at any dual point
    alts = []
    for B in bases_of(M):
        y = dual_solution(M, B, cc)
        conds = []
        for k in range(N):
            rc = dot([M[i][k] for i in range(m)], y) - cc[k]
            conds.append(api.ge(rc, 0))
            if k not in B:
                conds.append(api.Or(api.eq(xt[k], 0), api.eq(rc, 0)))
        alts.append(api.And(conds))
    api.check(api.Or(alts), "solution is optimal")
    v = value()
    api.check(v is not None, "optimal value")
    api.check(api.eq(v, dot(c, x) + z), "optimal value")


def larger(api, A, b, c, ops, signs, o, free, what):
    w = loosen(api, what, b if what == "b" else c, free)
    z = api.real("z")
    p = make(api, api.array(flt(A)), w if what == "b" else api.array([float(t) for t in b]), w if what == "c" else api.array([float(t) for t in c]), z, o, ops, signs)
    # the constants as whole numbers, so that exact arithmetic judges
    b, c = ([w[i] if what == k and i in free else t for i, t in enumerate(v)] for k, v in (("b", b), ("c", c)))
    before = snapshot(p)
    x = p.solve()
    api.check(same_program(api, before, snapshot(p)), "program unchanged")
    judge(api, A, b, c, z, ops, signs, o, x, p.optimal_value)


def run(api, A, ops, signs, o):
    m, n = len(A), len(A[0])
    b, c, z = api.vec("b", m), api.vec("c", n), api.real("z")
    p = make(api, api.array(flt(A)), b, c, z, o, ops, signs)
    before = snapshot(p)
    x = p.solve()
    api.check(same_program(api, before, snapshot(p)), "program unchanged")
    judge(api, A, b, c, z, ops, signs, o, x, p.optimal_value)
