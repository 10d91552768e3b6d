"""Shared pieces of the linear programming harnesses (used symbolically and in replays)."""
import itertools

OPS = ["=", "<=", ">="]
SIGNS = ["pos", "neg", "free"]


def lp(api):
    return api.mod("pytimize.programs").LinearProgram


def free_of(signs):
    return [i + 1 for i, s in enumerate(signs) if s == "free"]


def neg_of(signs):
    return [i + 1 for i, s in enumerate(signs) if s == "neg"]


def make(api, A, b, c, z=0, objective="max", ops=None, signs=None):
    m, n = len(b), len(c)
    ops = ops or ["="] * m
    signs = signs or ["pos"] * n
    return lp(api)(A, b, c, z, objective, list(ops), free_of(signs), neg_of(signs))


def dot(u, v):
    t = 0
    for a, b in zip(list(u), list(v)):
        t = t + a * b
    return t


def matvec(A, x):
    return [dot(A[i], x) for i in range(len(A))]


def rows(A):
    """2-D array -> list of lists."""
    return [[A[i, j] for j in range(A.shape[1])] for i in range(A.shape[0])]


def lst(v):
    return [v[i] for i in range(len(v))]


def sat_row(api, lhs, op, rhs):
    if op == "=":
        return api.eq(lhs, rhs)
    return api.le(lhs, rhs) if op == "<=" else api.ge(lhs, rhs)


def sat_sign(api, x, s):
    if s == "pos":
        return api.ge(x, 0)
    return api.le(x, 0) if s == "neg" else True


def feasible(api, A, b, ops, signs, x):
    """The textbook definition of feasibility."""
    return api.And([sat_row(api, dot(A[i], x), ops[i], b[i]) for i in range(len(b))]
                   + [sat_sign(api, x[j], signs[j]) for j in range(len(x))])


def snapshot(p):
    """Every observable piece of a program's data."""
    return {"A": [[p.A[i, j] for j in range(p.A.shape[1])] for i in range(p.A.shape[0])],
            "shape": list(p.A.shape), "b": lst(p.b), "c": lst(p.c), "z": p.z,
            "objective": p.objective, "ops": list(p.inequalities), "free": list(p.free_variables),
            "neg": list(p.negative_variables), "pos": list(p.positive_variables),
            "sef": bool(p.is_sef)}


def same_program(api, s, t, with_z=True):
    """Condition: two snapshots describe the same program."""
    for k in ("shape", "objective", "ops", "free", "neg", "pos", "sef"):
        if s[k] != t[k]:
            return False
    cs = []
    for r, q in zip(s["A"], t["A"]):
        cs += [api.eq(x, y) for x, y in zip(r, q)]
    cs += [api.eq(x, y) for x, y in zip(s["b"], t["b"])]
    cs += [api.eq(x, y) for x, y in zip(s["c"], t["c"])]
    if with_z:
        cs.append(api.eq(s["z"], t["z"]))
    return api.And(cs)


def vec_eq(api, u, v):
    u, v = list(u), list(v)
    if len(u) != len(v):
        return False
    return api.And([api.eq(a, b) for a, b in zip(u, v)])


# ---------------------------------------------------------------- exact constant linear algebra
from fractions import Fraction  # noqa: E402


def cdet(M):
    n = len(M)
    M = [[Fraction(x) for x in r] for r in M]
    d = Fraction(1)
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return Fraction(0)
        if p != c:
            M[p], M[c] = M[c], M[p]
            d = -d
        d *= M[c][c]
        for r in range(c + 1, n):
            f = M[r][c] / M[c][c]
            if f:
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return d


def crank(M):
    M = [[Fraction(x) for x in r] for r in M]
    if not M:
        return 0
    r = 0
    for c in range(len(M[0])):
        p = next((i for i in range(r, len(M)) if M[i][c] != 0), None)
        if p is None:
            continue
        M[p], M[r] = M[r], M[p]
        for i in range(r + 1, len(M)):
            f = M[i][c] / M[r][c]
            if f:
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        r += 1
        if r == len(M):
            break
    return r


def cinv(M):
    n = len(M)
    a = [[Fraction(x) for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        p = next(r for r in range(c, n) if a[r][c] != 0)
        a[p], a[c] = a[c], a[p]
        f = a[c][c]
        a[c] = [x / f for x in a[c]]
        for r in range(n):
            if r != c and a[r][c]:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]


def bases_of(A):
    """All column index lists (ascending, from 0) whose columns form a basis of constant A."""
    m, n = len(A), len(A[0])
    return [B for B in itertools.combinations(range(n), m)
            if cdet([[A[i][j] for j in B] for i in range(m)]) != 0]


def det(api, M):
    """Determinant of a small symbolic matrix (list of lists)."""
    n = len(M)
    if n == 0:
        return 1
    if n == 1:
        return M[0][0]
    t = 0
    for j in range(n):
        minor = [r[:j] + r[j + 1:] for r in M[1:]]
        s = M[0][j] * det(api, minor)
        t = t + s if j % 2 == 0 else t - s
    return t


# ---------------------------------------------------------------- families of constant matrices
FIXED = {
    "1x1": [[2]], "1x2": [[1, 2]], "1x2s": [[1, -1]], "1x3": [[1, -2, 3]], "1x3z": [[0, 2, 1]],
    "2x2": [[1, 2], [3, 1]], "2x3": [[1, 2, 1], [2, -1, 1]], "2x3u": [[1, -1, 1], [-1, -2, 1]],
    "2x4slack": [[1, 2, 1, 0], [3, 1, 0, 1]], "2x4neg": [[1, -1, 1, 0], [-1, 1, 0, 1]],
    "2x4": [[1, 1, 2, 1], [2, -1, 1, 3]], "2x4par": [[1, 2, 2, 1], [2, 4, 1, 1]],
    "2x5": [[1, 1, 1, 1, 0], [1, -2, 3, 0, 1]],
    "3x5": [[1, 1, 1, 0, 0], [1, -1, 0, 1, 0], [0, 1, 0, 0, 1]],
    "3x6": [[2, 1, 1, 1, 0, 0], [1, 3, 2, 0, 1, 0], [1, 1, -1, 0, 0, 1]],
}


def random_matrix(rng, m, n, lo=-3, hi=3):
    """Full row rank, entries in lo..hi."""
    while True:
        A = [[rng.randint(lo, hi) for _ in range(n)] for _ in range(m)]
        if crank(A) == m:
            return A


def families(tier, seed, sizes):
    """name -> constant full-row-rank matrices: the fixed ones, plus seeded ones of the given sizes."""
    import random as _r
    rng = _r.Random(1000 + int(seed))
    out = {}
    for k, (m, n, count) in enumerate(sizes):
        for i in range(count):
            out[f"r{m}x{n}.{i}"] = random_matrix(rng, m, n)
    return out


def large(seed, m, k, k_dense=0.7):
    """A program with k variables and m slacks: matrix, right-hand side, objective (constants), slack basis."""
    import random as _r
    rng = _r.Random(f"{seed} {m} {k}")
    A = [[rng.randint(-3, 5) if rng.random() < k_dense else 0 for _ in range(k)] + [int(i == t) for t in range(m)] for i in range(m)]
    b = [rng.randint(0, 9) for _ in range(m)]
    if rng.random() < 0.5:
        b[rng.randrange(m)] = 0
    c = [rng.randint(-2, 6) for _ in range(k)] + [0] * m
    return A, b, c, [k + i + 1 for i in range(m)]


def loosen(api, name, consts, where, lo=None):
    """The constants as numbers, the entries in `where` symbolic instead."""
    return api.array([api.real(f"{name}{i}", lo) if i in where else float(t) for i, t in enumerate(consts)])


def flt(A):
    return [[float(x) for x in r] for r in A]


def const_times(M, v):
    """Constant matrix (Fractions) times a vector of numbers."""
    out = []
    for r in M:
        t = 0
        for a, x in zip(r, v):
            if a != 0:
                t = t + fr(a) * x
        out.append(t)
    return out


def fr(a):
    """A constant as the kind of number both interpreters can multiply with."""
    a = Fraction(a)
    return int(a) if a.denominator == 1 else a


def basic_solution(A, B, b, n):
    """x with A_B x_B = b, zero elsewhere (constant A, basis B from 0)."""
    inv = cinv([[A[i][j] for j in B] for i in range(len(A))])
    xb = const_times(inv, b)
    x = [0] * n
    for j, v in zip(B, xb):
        x[j] = v
    return x


def dual_solution(A, B, c):
    """y with A_B^T y = c_B."""
    m = len(A)
    inv = cinv([[A[i][j] for i in range(m)] for j in B])
    return const_times(inv, [c[j] for j in B])
