"""C01: tolerant comparisons form one consistent order (tolerances modelled exactly)."""
from fractions import Fraction

LABELS = ["exactly one of negative, close to zero, positive", "close to zero means magnitude below 1e-10",
          "exactly one of less, close, greater", "close means numpy's isclose", "<= and >= are the complements",
          "an array compares as its elements do", "integral means within 1e-10 of an integer",
          "an array is integral when its elements are", "unknown operators are refused"]
BOUNDS = {"quick": "one symbolic value and one symbolic reference, unbounded reals; integrality for whole parts up to 1000 in magnitude; arrays of shapes (1,), (2,), (3,), (2, 2)",
          "thorough": "the same, arrays up to (4,) and (2, 3), integral parts up to 10000"}
NOTE = "the tolerances are kept exact here; each threshold is allowed 1% of rounding slack"
E10 = Fraction(1, 10 ** 10)
OPTS = {"exact_tol": True, "tol": 1e-14, "samples": 20}


def cases(tier, seed):
    out = [{"name": "sign", "fn": "sign", "params": {}, "opts": OPTS},
           {"name": "integer value", "fn": "integer", "params": {"k": 1000 if tier == "quick" else 10000}, "opts": OPTS},
           {"name": "operators", "fn": "operators", "params": {}, "opts": OPTS}]
    for t in ("zero", "any"):
        out.append({"name": f"order against {t}", "fn": "order", "params": {"ref": t}, "opts": OPTS})
    shapes = [[1], [2], [3], [2, 2]] + ([[4], [2, 3]] if tier == "thorough" else [])
    for s in shapes:
        for f in ("neg", "pos", "<", "<=", ">", ">="):
            out.append({"name": f"array {s} {f}", "fn": "arrays", "params": {"shape": s, "f": f}, "opts": OPTS})
        out.append({"name": f"array {s} zero", "fn": "zeros", "params": {"shape": s}, "opts": OPTS})
        out.append({"name": f"array {s} integral", "fn": "integers", "params": {"shape": s}, "opts": OPTS})
    return out


def C(api):
    return api.mod("pytimize.utilities").Comparator


def q(api, x):
    return x if api.symbolic else float(x)


def sign(api):
    v = api.real("v")
    c = C(api)
    z, n, p = bool(c.is_close_to_zero(v)), bool(c.is_negative(v)), bool(c.is_positive(v))
    api.check(z + n + p == 1, "exactly one of negative, close to zero, positive")
    lo, hi = q(api, E10 * Fraction(99, 100)), q(api, E10 * Fraction(101, 100))
    if z:
        api.check(api.And(api.lt(v, hi), api.gt(v, -hi)), "close to zero means magnitude below 1e-10")
    elif n:
        api.check(api.lt(v, -lo), "close to zero means magnitude below 1e-10")
    else:
        api.check(api.gt(v, lo), "close to zero means magnitude below 1e-10")
    api.observe("r", [z, n, p])


def order(api, ref):
    v = api.real("v")
    t = api.real("t") if ref == "any" else 0
    c = C(api)
    r = {o: bool(c.is_close_compare(v, o, t)) for o in ("<", "<=", ">", ">=")}
    api.observe("r", [r[o] for o in ("<", "<=", ">", ">=")])
    api.check(r["<="] != r[">"] and r[">="] != r["<"], "<= and >= are the complements")
    api.check(not (r["<"] and r[">"]), "exactly one of less, close, greater")
    if ref == "zero":
        lo, hi = q(api, E10 * Fraction(99, 100)), q(api, E10 * Fraction(101, 100))
    else:
        if not api.holds(api.ne(t, 0)):
            return
        m = t if api.holds(api.ge(t, 0)) else -t
        w = q(api, Fraction(1, 10 ** 8)) + q(api, Fraction(1, 10 ** 5)) * m
        lo, hi = w * q(api, Fraction(99, 100)), w * q(api, Fraction(101, 100))
    if r["<"]:
        api.check(api.lt(v - t, -lo), "close means numpy's isclose")
    elif r[">"]:
        api.check(api.gt(v - t, lo), "close means numpy's isclose")
    else:
        api.check(api.And(api.lt(v - t, hi), api.gt(v - t, -hi)), "close means numpy's isclose")


def fill(api, shape, elem):
    if len(shape) == 1:
        return api.array([elem(f"v{i}") for i in range(shape[0])])
    return api.array([[elem(f"v{i}_{j}") for j in range(shape[1])] for i in range(shape[0])])


def flat(a):
    out = []
    for x in a:
        out += flat(x) if getattr(x, "shape", ()) else [x]
    return out


def arrays(api, shape, f):
    a = fill(api, shape, api.real)
    c = C(api)
    if f in ("neg", "pos"):
        g = c.is_negative if f == "neg" else c.is_positive
    else:
        t = api.choice("t", [0, 3])
        g = lambda x: c.is_close_compare(x, f, t)
    each = [bool(g(x)) for x in flat(a)]
    api.check(bool(g(a)) == all(each), "an array compares as its elements do")


def zeros(api, shape):
    a = fill(api, shape, api.real)
    c = C(api)
    each = [bool(c.is_close_to_zero(x)) for x in flat(a)]
    r = c.is_close_to_zero(a)
    api.check(tuple(r.shape) == tuple(shape) and [bool(x) for x in flat(r)] == each, "an array compares as its elements do")


def number(api, name, k=50):
    """An integer plus a fraction: both are recorded inputs."""
    i = api.int(name + "i", -k, k)
    f = api.real(name + "f", -1, 1)
    return i + f


def integer(api, k):
    i, f = api.int("i", -k, k), api.real("f", q(api, Fraction(-1, 2)), q(api, Fraction(1, 2)))
    r = bool(C(api).is_integer(api.as_float(i + f)))
    api.observe("r", r)
    lo, hi = q(api, E10 * Fraction(99, 100)), q(api, E10 * Fraction(101, 100))
    if r:
        api.check(api.And(api.lt(f, hi), api.gt(f, -hi)), "integral means within 1e-10 of an integer")
    else:
        api.check(api.Or(api.gt(f, lo), api.lt(f, -lo)), "integral means within 1e-10 of an integer")
    api.check(bool(C(api).is_integer(i)), "integral means within 1e-10 of an integer")


def integers(api, shape):
    a = fill(api, shape, lambda n: api.as_float(number(api, n, 3)))
    c = C(api)
    each = [bool(c.is_integer(x)) for x in flat(a)]
    api.check(bool(c.is_integer(a)) == all(each), "an array is integral when its elements are")


def operators(api):
    v = api.real("v")
    o = api.choice("o", ["==", "=", "", "=<", "=>", "<>", "!=", " <", "<= "])
    tag, _ = api.call(C(api).is_close_compare, v, o, api.choice("t", [0, 1]), raises=(ValueError,))
    api.check(tag == "raise", "unknown operators are refused")
