"""C20: Newton's method follows Newton steps and leaves its inputs alone."""
from fractions import Fraction

from props.C19 import Table, dots, lst, same
from props.lpcommon import det

LABELS = ["each step solves the Newton equation", "stops once the gradient is within tolerance", "no iterations leave the start",
          "a quadratic ends at its stationary point", "the starting point is not modified"]
NOTE = "iterates are observed by running with iteration limits 0, 1, 2; an arbitrary function is a table of symbolic gradients and Hessians, equal at equal points"
BOUNDS = {"quick": "arbitrary gradients and nonsingular Hessians in 1 variable (2 steps) and 2 variables (1 step); quadratics with symbolic symmetric Hessian in 1 and 2 "
                   "variables and the default limit; constant gradients of 1 variable with 120 steps and of 8 with 20; both objectives; tolerance 1/2, and the default tolerance for gradients that halve",
          "thorough": "the same with 3 steps in 1 variable, 2 steps in 2 variables for constant Hessians, quadratics in 3 variables"}
TOLER = 0.5


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for o in ("min", "max"):
        for n, K in [(1, 1), (1, 2), (2, 1)] + ([(1, 3)] if t else []):
            for kind in ("array", "list") if K == 1 else ("array",):
                out.append({"name": f"{o} arbitrary {n} variables {K} steps from {kind}", "fn": "arbitrary", "params": {"o": o, "n": n, "K": K, "kind": kind, "H": None},
                            "opts": {"samples": 4, "nonlinear": True}})
        for H in ([[2, 1], [1, 3]], [[1, -2], [-2, 1]]):
            out.append({"name": f"{o} Hessian {H} 2 steps", "fn": "arbitrary", "params": {"o": o, "n": 2, "K": 2, "kind": "array", "H": H}, "opts": {"samples": 4}})
        for n, K in ((1, 120), (8, 20)):
            out.append({"name": f"{o} constant gradient, {n} variables, {K} steps", "fn": "constant", "params": {"o": o, "n": n, "K": K}, "opts": {"samples": 4, "path_wall": 60}})
        out.append({"name": f"{o} default tolerance", "fn": "default_tolerance", "params": {"o": o}, "opts": {"samples": 4, "path_wall": 60}})
        for n in (1, 2) + ((3,) if t else ()):
            out.append({"name": f"{o} quadratic {n}", "fn": "quadratic", "params": {"o": o, "n": n}, "opts": {"samples": 4, "nonlinear": True}})
    return out


def arbitrary(api, o, n, K, kind, H):
    G = Table(api, "g", n)
    T = Table(api, "h", n * (n + 1) // 2)

    def hess(x):
        if H is not None:
            return H
        v = T(x)
        it = iter(v)
        M = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                M[i][j] = M[j][i] = next(it)
        api.assume(api.ne(det(api, M), 0))
        return M

    x0 = lst(api.vec("x", n))
    prog = api.mod("pytimize.programs").UnconstrainedProgram(lambda x: 0.0, o)
    res = []
    for k in range(K + 1):
        start = api.array(x0) if kind == "array" else [api.as_float(v) for v in x0]
        r = prog.newton_method(start, lambda x: api.array(G(lst(x))), lambda x: api.array(hess(lst(x))), TOLER, k)
        api.check(same(api, lst(start), x0) and r is not start, "the starting point is not modified")
        res.append(lst(r))
        api.check(len(r) == n, "no iterations leave the start")
    api.observe("iterates", res)
    api.check(same(api, res[0], x0), "no iterations leave the start")
    for k in range(K):
        g = G(res[k])
        if k >= 1 and api.holds(api.le(dots(g, g), TOLER * TOLER)):
            api.check(same(api, res[k], res[k + 1]), "stops once the gradient is within tolerance")
            continue
        M = hess(res[k])
        d = [a - b for a, b in zip(res[k + 1], res[k])]
        api.check(api.And([api.eq(dots(M[i], d), -g[i]) for i in range(n)]), "each step solves the Newton equation")


def quadratic(api, o, n):
    M = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            M[i][j] = M[j][i] = api.real(f"q{i}{j}")
    api.assume(api.ne(det(api, M), 0))
    L, x0 = lst(api.vec("l", n)), lst(api.vec("x", n))
    g = lambda x: [dots(M[i], x) + L[i] for i in range(n)]
    prog = api.mod("pytimize.programs").UnconstrainedProgram(lambda x: 0.0, o)
    start = api.array(x0)
    r = lst(prog.newton_method(start, lambda x: api.array(g(lst(x))), lambda x: api.array(M)))
    api.check(same(api, lst(start), x0), "the starting point is not modified")
    api.observe("r", r)
    api.check(api.And([api.eq(v, 0) for v in g(r)]), "a quadratic ends at its stationary point")


def constant(api, o, n, K):
    """A constant gradient and Hessian: every step is the same, up to the iteration limit."""
    L = [(j % 5 + 1) * (-1) ** j for j in range(n)]
    M = [[2 if i == j else 1 if i == j + 1 else 0 for j in range(n)] for i in range(n)]
    d = []                                             # M d = -L
    for i in range(n):
        d.append((Fraction(-L[i]) - (d[i - 1] if i else 0)) / 2)
    x0 = lst(api.vec("x", n))
    prog = api.mod("pytimize.programs").UnconstrainedProgram(lambda x: 0.0, o)
    for k in (K - 1, K):
        start = api.array(x0)
        r = lst(prog.newton_method(start, lambda x: api.array(L), lambda x: api.array(M), TOLER, k))
        api.check(same(api, lst(start), x0), "the starting point is not modified")
        api.check(len(r) == n and same(api, r, [x + k * v if api.symbolic else x + float(k * v) for x, v in zip(x0, d)]), "each step solves the Newton equation")
    api.observe("r", r)


def default_tolerance(api, o):
    """Steps that halve the gradient each time, until it is at most the default tolerance of 1e-4."""
    x0 = api.real("x", 1, 20)
    prog = api.mod("pytimize.programs").UnconstrainedProgram(lambda x: 0.0, o)
    r = lst(prog.newton_method(api.array([x0]), lambda x: api.array([x[0]]), lambda x: api.array([[2]])))
    api.observe("r", r)
    api.check(api.And(api.le(r[0], Fraction(1, 10000)), api.gt(r[0], Fraction(1, 20000))), "stops once the gradient is within tolerance")
