"""C32: linear expressions denote exactly the arithmetic the user wrote."""

VALUE = "the expression has the coefficients and constant of the written arithmetic"
LABELS = [VALUE, "building or comparing never changes the operands", "a comparison yields the constraint equivalent to the one written"]
NOTE = "every operand is an arbitrary expression over symbolic coefficients, so one operation is an inductive step from any expression; two are run to see sharing"
BOUNDS = {"quick": "operands: a variable, x[i], an arbitrary expression over up to 3 variables with symbolic coefficients and constant, ints and symbolic reals; any two operations (unary, binary, in place, either order) "
                   "on any operands and the first result, then any comparison; numbers are ints and floats",
          "thorough": "any three operations, then any comparison"}
N = 4
OPS = ["add", "sub", "mul", "neg", "pos", "iadd", "isub", "imul"]


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for a in OPS:
        for b in OPS:
            if t:
                for c in OPS:
                    out.append({"name": f"{a}, {b}, {c}", "fn": "arithmetic", "params": {"ops": [a, b, c], "small": True}, "opts": {"samples": 1, "wall": 3000}})
            out.append({"name": f"{a}, {b}", "fn": "arithmetic", "params": {"ops": [a, b], "small": False}, "opts": {"samples": 2, "wall": 3000}})
        out.append({"name": f"{a}, then comparison", "fn": "comparison", "params": {"op": a}, "opts": {"samples": 2}})
    out.append({"name": "comparison", "fn": "comparison", "params": {"op": None}, "opts": {"samples": 2}})
    return out


class Val:
    """What an operand denotes: obj is the real thing, c its coefficients, k its constant."""

    def __init__(self, obj, c, k, kind):
        self.obj, self.c, self.k, self.kind = obj, c, k, kind


def coeffs(e):
    """Coefficients padded to N, of an expression or a variable."""
    if not hasattr(e, "coefficients"):
        e = e.equation
    c = e.coefficients
    return [0] * N if c is None else [c[i] for i in range(len(c))] + [0] * (N - len(c))


def constant(e):
    return e.constant if hasattr(e, "coefficients") else 0


def denotes(api, v):
    if v.kind == "num":
        return True
    c = coeffs(v.obj)
    if len(c) != N:
        return False
    return api.And([api.eq(c[i], v.c[i]) for i in range(N)] + [api.eq(constant(v.obj), v.k)])


def unit(i):
    return [1 if j == i else 0 for j in range(N)]


def operands(api, small=False):
    """x[i], a variable, an arbitrary expression, a whole number, a real."""
    L = api.mod("pytimize.formulations.linear")
    vs = L.variables(N)
    i = api.choice("i", [0, 2]) if not small else 0
    out = [Val(vs[1], unit(1), 0, "var"), Val(L.x[i + 1], unit(i), 0, "expr")]
    c0, c2, k = api.real("c0"), api.real("c2"), api.real("k")
    e = c0 * vs[0] + vs[2] * c2 + k
    out.append(Val(e, [c0, 0, c2, 0], k, "expr"))
    if not small:
        d = api.real("d")
        out.append(Val(d * L.x[4] + 0, [0, 0, 0, d], 0, "expr"))
        out.append(Val(3, [0] * N, 3, "num"))
    r = api.real("r")
    out.append(Val(r, [0] * N, r, "num"))
    return out


def apply(api, op, k, regs):
    """One operation on any of the registers; the new register, or None if it needs no check."""
    name = f"op{k}"
    un = op in ("neg", "pos")
    a = api.choice(name + "a", list(range(len(regs))))
    A = regs[a]
    if un:
        if A.kind == "num":
            return None
        obj = -A.obj if op == "neg" else +A.obj
        s = -1 if op == "neg" else 1
        return Val(obj, [s * x for x in A.c], s * A.k, "expr")
    b = api.choice(name + "b", list(range(len(regs))))
    B = regs[b]
    if A.kind == "num" and B.kind == "num":
        return None
    if op in ("mul", "imul"):
        if A.kind != "num" and B.kind != "num":
            return None
        if op == "mul":
            obj = A.obj * B.obj
        else:
            obj = A.obj
            obj *= B.obj
        n, e = (A, B) if A.kind == "num" else (B, A)
        return Val(obj, [x * n.k for x in e.c], e.k * n.k, "expr")
    s = -1 if op in ("sub", "isub") else 1
    if op == "add":
        obj = A.obj + B.obj
    elif op == "sub":
        obj = A.obj - B.obj
    else:
        obj = A.obj
        if op == "iadd":
            obj += B.obj
        else:
            obj -= B.obj
    return Val(obj, [x + s * y for x, y in zip(A.c, B.c)], A.k + s * B.k, "expr")


def arithmetic(api, ops, small):
    regs = operands(api, small)
    for v in regs:
        api.check(denotes(api, v), VALUE)
    for k, op in enumerate(ops):
        r = apply(api, op, k, regs)
        if r is None:
            api.assume(k > 0 and False)
        api.check(denotes(api, r), VALUE)
        regs.append(r)
        api.check(api.And([denotes(api, v) for v in regs]), "building or comparing never changes the operands")
    api.observe("result", coeffs(regs[-1].obj) + [constant(regs[-1].obj)])


def comparison(api, op):
    regs = operands(api)
    z = api.real("z")
    regs.append(Val(0, [0] * N, 0, "num"))
    if op is not None:
        r = apply(api, op, 0, regs[:-1])
        if r is None:
            api.assume(False)
        regs.append(r)
        A = r
        B = regs[api.choice("b", list(range(len(regs))))]
        if api.bool("swap"):
            A, B = B, A
    else:
        A, B = regs[api.choice("a", list(range(len(regs))))], regs[api.choice("b", list(range(len(regs))))]
    if A.kind == "num" and B.kind == "num":
        api.assume(False)
    rel = api.choice("rel", ["<=", ">=", "="])
    con = A.obj <= B.obj if rel == "<=" else A.obj >= B.obj if rel == ">=" else A.obj == B.obj
    label = "a comparison yields the constraint equivalent to the one written"
    # written: sum want_c x (rel) want_k
    want = [x - y for x, y in zip(A.c, B.c)]
    k = B.k - A.k
    flip = {"<=": ">=", ">=": "<=", "=": "="}
    if hasattr(con, "negative_variables"):
        pos, neg = con.positive_variables or [], con.negative_variables or []
        api.check(len(pos) + len(neg) == 1, label)
        v, got = (pos[0], ">=") if pos else (neg[0], "<=")
        api.check(api.eq(k, 0), label)
        forms = [api.And([got == rr] + [api.eq(s * want[i], 1 if i == v - 1 else 0) for i in range(N)]) for s, rr in ((1, rel), (-1, flip[rel]))]
        api.check(api.Or(forms), label)
    else:
        c = con.coefficients
        got = [c[i] for i in range(len(c))] + [0] * (N - len(c))
        api.check(len(got) == N and con.inequality in flip, label)
        forms = [api.And([con.inequality == rr, api.eq(con.constant, s * k)] + [api.eq(got[i], s * want[i]) for i in range(N)]) for s, rr in ((1, rel), (-1, flip[rel]))]
        api.check(api.Or(forms), label)
        api.observe("constraint", [con.inequality, got, con.constant])
    api.check(api.And([denotes(api, v) for v in regs]), "building or comparing never changes the operands")
