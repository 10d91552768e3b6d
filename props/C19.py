"""C19: steepest descent only ever improves and leaves its inputs alone."""
from fractions import Fraction

LABELS = ["each step is a gradient step that improves sufficiently", "the result is no worse than the start", "stops once the gradient is within tolerance",
          "no iterations leave the start", "the starting point is not modified", "the result is not the caller's array"]
NOTE = ("iterates are observed by running with iteration limits 0, 1, 2, ...; an arbitrary function is a table of symbolic values and gradients, "
        "equal at equal points (finitely many distinct points always extend to a smooth function)")
BOUNDS = {"quick": "arbitrary functions of 1 and 2 variables, at most 3 step halvings per step and 2 steps (1 step for 2 variables); quadratics with symbolic curvature in -2..8, "
                   "slope and start (1 variable, 2 steps) and separable with constant curvatures (2 variables), all halvings; curvatures 10^3 and 10^6 (up to 22 halvings); linear functions of 1 variable with 120 steps and of 12 with 30; both objectives; tolerance 1/2, and the default tolerance for x*x/2",
          "thorough": "the same with 5 halvings, 3 steps for constant curvatures, symbolic c and alpha for one step"}
TOLER = 0.5


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for o in ("min", "max"):
        for n, K in ((1, 1), (1, 2), (2, 1)):
            for kind in ("array", "list") if K == 1 else ("array",):
                out.append({"name": f"{o} arbitrary {n} variables {K} steps from {kind}", "fn": "arbitrary",
                            "params": {"o": o, "n": n, "K": K, "J": 3 if not t or K > 1 else 5, "kind": kind}, "opts": {"samples": 4, "nonlinear": True}})
        out.append({"name": f"{o} quadratic 1 step, symbolic curvature", "fn": "quadratic", "params": {"o": o, "q": None, "K": 1, "conf": [1, 0.7, 0.5]}, "opts": {"samples": 4}})
        for q in (1, 3, 8, -1, 0):
            for conf in ([1, 0.7, 0.5], [0.5, 0.25, 0.25]):
                out.append({"name": f"{o} quadratic curvature {q}, {conf}", "fn": "quadratic", "params": {"o": o, "q": [q], "K": 3 if t else 2, "conf": conf}, "opts": {"samples": 4}})
        for q in ([1, 4], [2, -1]):
            out.append({"name": f"{o} quadratic curvatures {q}", "fn": "quadratic", "params": {"o": o, "q": q, "K": 2 if t else 1, "conf": [1, 0.5, 0.5]}, "opts": {"samples": 4}})
        if t:
            out.append({"name": f"{o} symbolic parameters", "fn": "parameters", "params": {"o": o}, "opts": {"samples": 4}})
        for q, conf in ((1000003, [1, 0.7, 0.5]), (1000, [1, 0.5, 0.25])):
            out.append({"name": f"{o} steep, curvature {q}, {conf}", "fn": "quadratic", "params": {"o": o, "q": [q], "K": 1, "conf": conf, "J": 22 if q > 1000 else 8}, "opts": {"samples": 4, "path_wall": 30}})
        for n, K in ((1, 120), (12, 30)):
            out.append({"name": f"{o} linear, {n} variables, {K} steps", "fn": "linear", "params": {"o": o, "n": n, "K": K}, "opts": {"samples": 4, "path_wall": 60}})
        out.append({"name": f"{o} default tolerance", "fn": "default_tolerance", "params": {"o": o}, "opts": {"samples": 4, "path_wall": 60}})
        out.append({"name": f"{o} defaults", "fn": "quadratic", "params": {"o": o, "q": [1], "K": 1, "conf": None}, "opts": {"samples": 4}})
    return out


def frac(x):
    f = Fraction(str(x))
    return int(f) if f.denominator == 1 else f


class Table:
    """A function given by its values at the points asked for."""

    def __init__(self, api, name, size, limit=None, value=None):
        self.api, self.name, self.size, self.limit = api, name, size, limit
        self.calls = []

    def __call__(self, x):
        api = self.api
        p = [x[i] for i in range(len(x))]
        for q, v in self.calls:
            if api.And([api.eq(a, b) for a, b in zip(p, q)]) is True:
                return v
        k = len(self.calls)
        if self.limit is not None and k >= self.limit:
            api.assume(False)
        v = [api.real(f"{self.name}{k}_{i}") for i in range(self.size)]
        for q, w in self.calls:
            api.assume(api.Implies(api.And([api.eq(a, b) for a, b in zip(p, q)]), api.And([api.eq(a, b) for a, b in zip(v, w)])))
        self.calls.append((p, v))
        return v


def dots(u, v):
    t = 0
    for a, b in zip(u, v):
        t = t + a * b
    return t


def lst(x):
    return [x[i] for i in range(len(x))]


def same(api, u, v):
    return api.And([api.eq(a, b) for a, b in zip(u, v)])


def steps(api, o, f, g, x0, K, J, conf, prog, kind="array"):
    """f, g: exact functions on lists; runs the code with limits 0..K and judges consecutive results."""
    n = len(x0)
    alpha, c, p = conf if conf is not None else (1, 0.7, 0.5)
    sign = 1 if o == "min" else -1
    res = []
    for k in range(K + 1):
        start = api.array(x0) if kind == "array" else [api.as_float(v) for v in x0]
        args = () if conf is None else (alpha, c, p, TOLER)
        kw = {"max_iteration": k} if conf is not None else {"max_iteration": k, "tolerance": TOLER}
        r = prog.steepest_descent(start, lambda x: api.array(g(lst(x))), *args, **kw)
        api.check(same(api, lst(start), x0), "the starting point is not modified")
        api.check(r is not start, "the result is not the caller's array")
        api.check(len(r) == n, "no iterations leave the start")
        res.append(lst(r))
    api.observe("iterates", res)
    alpha, c, p = [frac(v) if isinstance(v, (int, float)) and api.symbolic else v for v in (alpha, c, p)]
    api.check(same(api, res[0], x0), "no iterations leave the start")
    fx = [f(x) for x in res]
    api.check(api.ge(sign * fx[0], sign * fx[-1]), "the result is no worse than the start")
    for k in range(K):
        gk = g(res[k])
        gg = dots(gk, gk)
        if k >= 1 and api.holds(api.le(gg, TOLER * TOLER)):
            api.check(same(api, res[k], res[k + 1]), "stops once the gradient is within tolerance")
            continue
        alts = []
        a = alpha
        for j in range(J + 1):
            alts.append(api.And(same(api, res[k + 1], [x - sign * a * d for x, d in zip(res[k], gk)]),
                                api.le(sign * fx[k + 1], sign * fx[k] - c * a * gg)))
            a = a * p
        api.check(api.Or(alts), "each step is a gradient step that improves sufficiently")


def arbitrary(api, o, n, K, J, kind):
    F, G = Table(api, "f", 1), Table(api, "g", n)
    x0 = lst(api.vec("x", n))
    f = lambda x: F(x)[0]
    count = [0]

    def bounded(x):
        count[0] += 1
        if count[0] > (K + 1) * K * (J + 1) * 2:
            api.assume(False)
        return f(x)

    prog = api.mod("pytimize.programs").UnconstrainedProgram(bounded, o)
    # at most J halvings: among the points on one step, the first J + 1 contain one that improves enough
    conf = [1, 0.7, 0.5]
    x = x0
    for k in range(K):
        gk = G(x)
        s = 1 if o == "min" else -1
        a = Fraction(1)
        nxt = None
        for j in range(J + 1):
            y = [u - s * (a if api.symbolic else float(a)) * d for u, d in zip(x, gk)]
            lim = s * f(x) - (Fraction(7, 10) * a if api.symbolic else 0.7 * float(a)) * dots(gk, gk)
            if api.holds(api.le(s * f(y), lim)):
                nxt = y
                break
            a = a / 2
        api.assume(nxt is not None)
        x = nxt
    steps(api, o, f, G, x0, K, J, conf, prog, kind)


def quadratic(api, o, q, K, conf, J=12):
    n = 1 if q is None else len(q)
    Q = [api.real("q", -2, 8)] if q is None else q
    L = lst(api.vec("l", n))
    x0 = lst(api.vec("x", n))
    s = 1 if o == "min" else -1
    h = Fraction(1, 2) if api.symbolic else 0.5
    f = lambda x: s * dots([Q[i] * h * x[i] + L[i] for i in range(n)], x)
    g = lambda x: [s * (Q[i] * x[i] + L[i]) for i in range(n)]
    prog = api.mod("pytimize.programs").UnconstrainedProgram(lambda x: f(lst(x)), o)
    steps(api, o, f, g, x0, K, J, conf, prog)


def linear(api, o, n, K):
    """A linear function: every step is the whole gradient, up to the iteration limit."""
    L = [(j % 5 + 1) * (-1) ** j for j in range(n)]
    x0 = lst(api.vec("x", n))
    s = 1 if o == "min" else -1
    prog = api.mod("pytimize.programs").UnconstrainedProgram(lambda x: dots(L, lst(x)), o)
    for k in (K - 1, K):
        start = api.array(x0)
        r = lst(prog.steepest_descent(start, lambda x: api.array(L), 1, 0.5, 0.5, TOLER, k))
        api.check(same(api, lst(start), x0), "the starting point is not modified")
        api.check(len(r) == n and same(api, r, [x - s * k * l for x, l in zip(x0, L)]), "each step is a gradient step that improves sufficiently")
    api.observe("r", r)


def default_tolerance(api, o):
    """x * x / 2: with the default parameters every step halves the gradient, until it is at most 1e-4."""
    x0 = api.real("x", 1, 20)
    s = 1 if o == "min" else -1
    h = Fraction(1, 2) if api.symbolic else 0.5
    prog = api.mod("pytimize.programs").UnconstrainedProgram(lambda x: s * h * x[0] * x[0], o)
    r = lst(prog.steepest_descent(api.array([x0]), lambda x: api.array([s * x[0]])))
    api.observe("r", r)
    api.check(api.And(api.le(r[0], Fraction(1, 10000)), api.gt(r[0], Fraction(1, 20000))), "stops once the gradient is within tolerance")


def parameters(api, o):
    L, x0 = lst(api.vec("l", 1)), lst(api.vec("x", 1))
    s = 1 if o == "min" else -1
    f = lambda x: s * (x[0] * x[0] + L[0] * x[0])
    g = lambda x: [s * (2 * x[0] + L[0])]
    prog = api.mod("pytimize.programs").UnconstrainedProgram(lambda x: f(lst(x)), o)
    alpha = api.real("alpha", Fraction(1, 4) if api.symbolic else 0.25, 4)
    c = api.real("c", Fraction(1, 10) if api.symbolic else 0.1, Fraction(9, 10) if api.symbolic else 0.9)
    steps(api, o, f, g, x0, 1, 8, (api.as_float(alpha), api.as_float(c), 0.5), prog)
