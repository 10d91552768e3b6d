"""C37: row reduction yields the reduced row echelon form."""
from props.lpcommon import *

LABELS = ["result is in reduced row echelon form", "same row space", "argument is not modified", "flag is exactly the definition"]
BOUNDS = {"quick": "symbolic matrices 1x1..1x4, 2x1..2x3, 3x1, 3x2, and larger ones (2x4, 3x3, 3x4, 4x3) with a seeded third of the entries symbolic and the rest "
                   "constants in -1..2; 4 matrices with one entry between 1/10^12 and 1/10^7; flag also on 2x2, 2x3, 3x3 with entries symbolic",
          "thorough": "the same with 2x4 fully symbolic and more seeded patterns"}


# matrices and the place of an entry between 1/10^12 and 1/10^7, well conditioned whatever the entry
TINY = [([[2, 4, 10 ** 9], [0, 3, 1]], [1, 0]), ([[2, 1, 4], [4, 7, 10 ** 9], [6, 2, 9]], [2, 0]), ([[2, 1, 0, 4], [0, 5, 1, 1], [0, 0, 9, 10 ** 9]], [0, 2]),
        ([[2, 3, 1, 10 ** 8], [4, 5, 2, 7]], [1, 0])]


def cases(tier, seed):
    import random
    rng = random.Random(31 + int(seed))
    out = []
    for m, n in [(1, 1), (1, 2), (1, 3), (1, 4), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2)] + ([(2, 4)] if tier == "thorough" else []):
        out.append({"name": f"reduce {m}x{n}", "fn": "reduce", "params": {"m": m, "n": n, "fixed": []}, "opts": {"samples": 10, "nonlinear": True}})
    for m, n in ((2, 4), (3, 3), (3, 4), (4, 3)):
        for t in range(4 if tier == "quick" else 20):
            k = (m * n * 2 + 2) // 3
            fixed = [[i, rng.choice([-1, 0, 0, 1, 2])] for i in sorted(rng.sample(range(m * n), max(k, m * n - 4)))]
            out.append({"name": f"reduce {m}x{n} pattern {t}", "fn": "reduce", "params": {"m": m, "n": n, "fixed": fixed}, "opts": {"samples": 4}})
    for k, (E, pos) in enumerate(TINY):
        out.append({"name": f"reduce with a tiny entry {k}", "fn": "tiny", "params": {"E": E, "pos": pos}, "opts": {"samples": 4, "exact_tol": True}})
    for m, n in [(1, 1), (1, 3), (2, 2), (2, 3), (3, 2)] + ([(3, 3), (2, 4)] if tier == "thorough" else []):
        out.append({"name": f"flag {m}x{n}", "fn": "flag", "params": {"m": m, "n": n}})
    return out


def entries(api, m, n, fixed):
    f = dict((k, v) for k, v in fixed)
    return [[f[i * n + j] if i * n + j in f else api.real(f"a{i}_{j}") for j in range(n)] for i in range(m)]


def tiny(api, E, pos):
    e = api.real("e", 0, 1)
    api.assume(api.And(api.ge(e * 10 ** 12, 1), api.le(e * 10 ** 7, 1)))
    sign = api.choice("sign", [1, -1])
    reduce(api, len(E), len(E[0]), [], [[sign * e if [i, j] == pos else v for j, v in enumerate(r)] for i, r in enumerate(E)])


def is_rref(api, M, m, n):
    """The definition, as one condition: choose the pivot columns."""
    alts = []
    for r in range(min(m, n) + 1):
        for piv in itertools.combinations(range(n), r):
            c = []
            for i in range(m):
                for j in range(n):
                    if i >= r or j < piv[i]:
                        c.append(api.eq(M[i][j], 0))
                    elif j in piv:
                        c.append(api.eq(M[i][j], 1 if piv[i] == j else 0))
            alts.append(api.And(c))
    return api.Or(alts)


def reduce(api, m, n, fixed, E=None):
    E = entries(api, m, n, fixed) if E is None else E
    A = api.array(E)
    p = make(api, A, api.array([1.0] * m), api.array([1.0] * n))
    R = p.to_rref(A)
    api.check(R.shape == (m, n), "result is in reduced row echelon form")
    api.observe("R", R)
    api.check(api.And([api.eq(A[i, j], E[i][j]) for i in range(m) for j in range(n)]), "argument is not modified")
    Rm = rows(R)
    # the pivot structure is decided on every path: find it by branching
    piv = []
    for i in range(m):
        j = 0
        while j < n and not api.holds(api.ne(Rm[i][j], 0)):
            j += 1
        if j == n:
            break
        piv.append(j)
    api.check(piv == sorted(set(piv)), "result is in reduced row echelon form")
    r = len(piv)
    cond = []
    for i in range(m):
        for j in range(n):
            if i >= r:
                cond.append(api.eq(Rm[i][j], 0))
            elif j in piv:
                cond.append(api.eq(Rm[i][j], 1 if piv[i] == j else 0))
    api.check(api.And(cond), "result is in reduced row echelon form")
    # row space: each row of A is the combination of R's rows given by its pivot entries, and the rank is r
    for i in range(m):
        for j in range(n):
            t = 0
            for k in range(r):
                t = t + E[i][piv[k]] * Rm[k][j]
            api.check(api.eq(t, E[i][j]), "same row space")
    if r:
        api.check(api.Or([api.ne(det(api, [[E[i][j] for j in piv] for i in I]), 0) for I in itertools.combinations(range(m), r)]), "same row space")


def flag(api, m, n):
    E = entries(api, m, n, [])
    p = make(api, api.array(E), api.array([1.0] * m), api.array([1.0] * n))
    r = p.is_in_rref
    api.check(api.Iff(api.truth(r), is_rref(api, E, m, n)), "flag is exactly the definition")
