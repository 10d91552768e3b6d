"""C33: a formulated program is the program the user wrote."""

OBJ = "the program's objective is the one written"
ROWS = "one row per constraint, in order, equivalent to the constraint written"
COLS = "one column per variable up to the highest one mentioned"
SIGNS = "exactly the written sign restrictions hold and other variables are free"
REFUSED = "duplicate or conflicting sign restrictions raise ValueError and change nothing"
AGAIN = "an objective or constraint used again yields the same again"
TYPE = "integer formulations build integer programs"
LABELS = [OBJ, ROWS, COLS, SIGNS, REFUSED, AGAIN, TYPE, "operations through the formulation act on its program"]
NOTE = "expressions are taken in the shapes a user can write (a variable, a scaled sum, a constant); C32 decides that these denote what was written"
BOUNDS = {"quick": "up to 4 variables, an objective and one or two constraints, each side a variable, an expression over any of three variable sets with symbolic coefficients and constant, or a number; both objectives, "
                   "three relations, both modules, any coefficients (zero included); up to three where() calls of one or two restrictions of any form; four models of 10 to 12 variables",
          "thorough": "the same with three constraints and four where() calls"}
N = 4


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for mod in ("linear", "integer"):
        for o in ("var", "one", "two", "three", "const"):
            out.append({"name": f"{mod}, objective {o}, 1 constraint", "fn": "program", "params": {"mod": mod, "obj": o, "m": 1}, "opts": {"samples": 3}})
            out.append({"name": f"{mod}, objective {o}, 2 constraints", "fn": "program", "params": {"mod": mod, "obj": o, "m": 2}, "opts": {"samples": 3}})
            if t:
                out.append({"name": f"{mod}, objective {o}, 3 constraints", "fn": "program", "params": {"mod": mod, "obj": o, "m": 3}, "opts": {"samples": 3, "wall": 3000}})
    for k in range(4):
        out.append({"name": f"twelve variables {k}", "fn": "wide", "params": {"k": k}, "opts": {"samples": 2}})
    for first in FORMS:
        for calls in (1, 2, 3) + ((4,) if t else ()):
            out.append({"name": f"where {first}, {calls} calls", "fn": "where", "params": {"first": first, "calls": calls}, "opts": {"samples": 3, "wall": 3000}})
    return out


def side(api, name, vs, L, shape):
    """One side of a written relation: (object, coefficients, constant)."""
    def real(s):
        return api.real(f"{name}{s}")
    if shape == "var":
        return vs[2], [0, 0, 1, 0], 0
    if shape == "const":
        k = real("k")
        return k, [0] * N, k
    if shape == "one":
        p = real("p")
        return p * vs[0], [p, 0, 0, 0], 0
    if shape == "two":
        p, q, k = real("p"), real("q"), real("k")
        return p * L.x[2] + q * vs[2] - k, [0, p, q, 0], -k
    p, q, r, k = real("p"), real("q"), real("r"), real("k")
    return p * vs[3] + k + q * L.x[1] - r * vs[1], [q, -r, 0, p], k


MENTION = {"var": 3, "const": 0, "one": 1, "two": 3, "three": 4}


def row(p, i, n):
    return [p.A[i, j] for j in range(n)]


def check_program(api, p, n, obj, goal, cons):
    oc, ok = obj
    api.check(p.A.shape == (len(cons), n) and p.b.shape == (len(cons),) and p.c.shape == (n,) and len(p.inequalities) == len(cons), COLS)
    api.check(api.And([p.objective == goal, api.eq(p.z, ok)] + [api.eq(p.c[j], oc[j]) for j in range(n)]), OBJ)
    flip = {"<=": ">=", ">=": "<=", "=": "="}
    for i, (c, rel, k) in enumerate(cons):
        got = row(p, i, n)
        forms = [api.And([p.inequalities[i] == rr, api.eq(p.b[i], s * k)] + [api.eq(got[j], s * c[j]) for j in range(n)]) for s, rr in ((1, rel), (-1, flip[rel]))]
        api.check(api.Or(forms), ROWS)


def build(api, L, vs, m, obj, pick):
    goal = pick("goal", ["max", "min"])
    o, oc, ok = side(api, "o", vs, L, obj)
    f = L.maximize(o) if goal == "max" else L.minimize(o)
    high = MENTION[obj]
    cons, objs = [], []
    for i in range(m):
        sa, sb = pick(f"shape{i}", [("two", "const"), ("var", "two"), ("three", "one"), ("one", "const"), ("var", "var"), ("const", "two")] if i == 0 else [("one", "const"), ("three", "two"), ("var", "const1")])
        a, ac, ak = side(api, f"a{i}", vs, L, sa)
        b, bc, bk = (5, [0] * N, 5) if sb == "const1" else side(api, f"b{i}", vs, L, sb)
        rel = pick(f"rel{i}", ["<=", ">=", "="])
        con = a <= b if rel == "<=" else a >= b if rel == ">=" else a == b
        objs.append(con)
        cons.append(([x - y for x, y in zip(ac, bc)], rel, bk - ak))
        high = max(high, MENTION[sa], MENTION.get(sb, 0))
    return f, (oc, ok), goal, objs, cons, high


def program(api, mod, obj, m):
    L = api.mod("pytimize.formulations." + mod)
    P = api.mod("pytimize.programs")
    vs = L.variables(N)
    f, o, goal, objs, cons, high = build(api, L, vs, m, obj, api.choice)
    q = f.subject_to(*objs)
    p = q.program
    check_program(api, p, high, o, goal, cons)
    api.check(sorted(p.free_variables) == list(range(1, high + 1)) and list(p.negative_variables) == [], SIGNS)
    api.check(isinstance(p, P.LinearProgram) and (mod == "integer") == isinstance(p, P.IntegerProgram), TYPE)
    api.observe("A", p.A)
    # every attribute of the program is reachable from the formulation
    api.check(api.eq(q.b[0], p.b[0]), ROWS)
    # the same parts again, after the first program was changed
    g = f.subject_to(*(objs + objs[:1]))
    q.to_sef(in_place=True)
    api.check(list(q.free_variables) == [] and set(q.inequalities) <= {"="}, "operations through the formulation act on its program")
    check_program(api, g.program, high, o, goal, cons + cons[:1])
    check_program(api, f.subject_to(*objs).program, high, o, goal, cons)
    api.check(sorted(g.program.free_variables) == list(range(1, high + 1)), AGAIN)
    check_program(api, g.where(vs[0] >= 0).program, high, o, goal, cons + cons[:1])


def wide(api, k):
    """Indices of two digits."""
    L = api.mod("pytimize.formulations.linear" if k != 3 else "pytimize.formulations.integer")
    n = 12
    vs = L.variables(n)
    p, q, r, s, t = (api.real(x) for x in "pqrst")
    hi = [12, 11, 12, 10][k]
    e = [p * vs[9] + q * L.x[2], L.x[11] * p - q * vs[1], p * L.x[1] + q * L.x[12] + t, vs[9] * p + 3 * L.x[1]][k]
    def at(**kw):
        return [kw.get(f"x{j + 1}", 0) for j in range(hi)]
    oc = [at(x10=p, x2=q), at(x11=p, x2=-q), at(x1=p, x12=q), at(x10=p, x1=3)][k]
    two = (vs[11] if hi == 12 else vs[9]) * r + vs[0]
    tc = at(**{"x12" if hi == 12 else "x10": r, "x1": 1})
    f = L.maximize(e).subject_to(two <= s, L.x[10] >= L.x[2], vs[8] + vs[7] == 4)
    high = max(hi, 12 if hi == 12 else 10)
    cons = [(tc, "<=", s), (at(x10=1, x2=-1), ">=", 0), (at(x9=1, x8=1), "=", 4)]
    check_program(api, f.program, high, (oc, t if k == 2 else 0), "max", cons)
    g = f.where(vs[9] >= 0, vs[1] <= 0, 0 <= vs[0], 0 >= vs[8])
    api.check(sorted(g.program.free_variables) == [j for j in range(1, high + 1) if j not in (1, 2, 9, 10)] and sorted(g.program.negative_variables) == [2, 9], SIGNS)
    api.call(g.where, vs[1] >= 0, raises=(ValueError,))
    api.check(api.call(g.where, vs[9] <= 0, raises=(ValueError,))[0] == "raise", REFUSED)
    api.check(sorted(g.program.free_variables) == [j for j in range(1, high + 1) if j not in (1, 2, 9, 10)] and sorted(g.program.negative_variables) == [2, 9], SIGNS)


FORMS = ["v>=0", "v<=0", "0<=v", "0>=v", "x>=0", "x<=0", "allpos", "allneg", "float"]
H = 3  # variables of the program whose signs are restricted


def item(api, L, vs, name, form):
    """A restriction: (object, positive indices, negative indices)."""
    every = list(range(1, H + 1))
    if form == "x>=0":
        return L.x >= 0, every, []
    if form == "x<=0":
        return L.x <= 0, [], every
    i = api.choice(name + "v", [0, 1, 2])
    v = vs[i]
    if form == "v>=0":
        return v >= 0, [i + 1], []
    if form == "v<=0":
        return v <= 0, [], [i + 1]
    if form == "0<=v":
        return 0 <= v, [i + 1], []
    if form == "0>=v":
        return 0 >= v, [], [i + 1]
    return v >= 0.0, [i + 1], []


def where(api, first, calls):
    L = api.mod("pytimize.formulations.linear")
    vs = L.variables(H)
    c, k = api.real("c"), api.real("k")
    q = L.maximize(c * vs[0] + vs[2]).subject_to(vs[1] + vs[2] * c <= k)
    want = ([c, 0, 1], 0), "max", [([0, 1, c], "<=", k)]
    pos, neg = [], []

    def signs():
        p = q.program
        free = [i for i in range(1, H + 1) if i not in pos and i not in neg]
        return sorted(p.free_variables) == free and sorted(p.negative_variables) == sorted(neg)

    if api.bool("early"):
        api.check(signs(), SIGNS)
    for n in range(calls):
        form = first if n == 0 else api.choice(f"form{n}", FORMS if n == 1 else ["v>=0", "v<=0", "x>=0"])
        if form in ("allpos", "allneg"):
            every = list(range(1, H + 1))
            r = api.call(q.whereAllPositive if form == "allpos" else q.whereAllNegative, raises=(ValueError,))
            p1, n1 = (every, []) if form == "allpos" else ([], every)
            bad = bool(pos or neg)
        else:
            items = [item(api, L, vs, f"i{n}", form)]
            if calls < 3 and form in ("v>=0", "v<=0") and api.bool(f"pair{n}"):
                items.append(item(api, L, vs, f"j{n}", api.choice(f"second{n}", ["v>=0", "v<=0"])))
            p1, n1 = [i for it in items for i in it[1]], [i for it in items for i in it[2]]
            bad = len(set(pos + p1 + neg + n1)) < len(pos + p1 + neg + n1)
            r = api.call(q.where, *[it[0] for it in items], raises=(ValueError,))
        if bad:
            api.check(r[0] == "raise", REFUSED)
            api.check(signs(), REFUSED)
        else:
            api.check(r[0] == "ok", SIGNS)
            pos, neg = pos + p1, neg + n1
            if n == calls - 1 or api.bool(f"look{n}"):
                api.check(signs(), SIGNS)
    check_program(api, q.program, H, *want)
    api.observe("free", list(q.program.free_variables))
    q.to_sef(in_place=True)
    api.check(list(q.free_variables) == [] and list(q.negative_variables) == [] and set(q.inequalities) <= {"="}, "operations through the formulation act on its program")
