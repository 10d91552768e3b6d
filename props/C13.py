"""C13: adding a constraint or a variable changes exactly that."""
from props.lpcommon import *

LABELS = ["constraint: feasible points", "constraint: objective unchanged", "constraint: everything else unchanged",
          "variable: column, coefficient and sign", "variable: fixing it to zero gives the original", "standard form flag is accurate",
          "ill-formed arguments are refused and change nothing", "the original is untouched unless in place"]
BOUNDS = {"quick": "programs 1x1, 1x2, 2x2 with symbolic data, every operator/sign/objective pattern of 1x1 and a rotating selection for the rest; "
                   "new row, operator, value, column, coefficient, signs symbolic; in place and not; lists and arrays; sequences of two additions; 1x11 programs with two more variables and a row",
          "thorough": "every pattern up to 2x2 and programs 2x3"}


def cases(tier, seed):
    out = []
    for m, n in [(1, 1), (1, 2), (2, 2)] + ([(2, 3)] if tier == "thorough" else []):
        k = 0
        for ops in itertools.product(OPS, repeat=m):
            for signs in itertools.product(SIGNS, repeat=n):
                k += 1
                if tier == "quick" and (m, n) != (1, 1) and (k + seed) % (3 if m == 1 else 9):
                    continue
                if (m, n) == (2, 3) and (k + seed) % 11:
                    continue
                o = ("max", "min")[(k // 2) % 2]
                P = {"m": m, "n": n, "ops": list(ops), "signs": list(signs), "o": o}
                for fn in ("constraint", "variable"):
                    out.append({"name": f"{fn} {m}x{n} {o} {list(ops)} {list(signs)}", "fn": fn, "params": P, "opts": {"samples": 3}})
    for k in range(3):
        P = {"m": 1, "n": 11, "ops": [OPS[k]], "signs": [SIGNS[(k + j) % 3] for j in range(11)], "o": ("max", "min")[k % 2]}
        out.append({"name": f"variable wide {k}", "fn": "wide", "params": P, "opts": {"samples": 2}})
    for m, n in [(1, 2), (2, 1), (2, 2)]:
        for fn in ("bad_constraint", "bad_variable"):
            out.append({"name": f"{fn} {m}x{n}", "fn": fn, "params": {"m": m, "n": n}, "opts": {"samples": 4}})
        for k, (op, sign, o) in enumerate(itertools.product(OPS, SIGNS, ("max", "min"))):
            for first in ("constraint", "variable"):
                if tier == "thorough" or (m * n == 2 and (k + seed) % 6 == (first == "variable") * 3):
                    out.append({"name": f"twice {m}x{n} {o} {op} {sign} {first} first", "fn": "twice", "opts": {"samples": 4},
                                "params": {"m": m, "n": n, "ops": [op] * m, "signs": [sign] * n, "o": o, "first": first}})
    return out


def build(api, m, n, ops, signs, o):
    A, b, c, z = api.mat("A", m, n), api.vec("b", m), api.vec("c", n), api.real("z")
    return A, b, c, z, make(api, A, b, c, z, o, ops, signs)


def sef_flag(p):
    return bool(p.is_sef) == (p.objective == "max" and all(t == "=" for t in p.inequalities)
                              and not p.free_variables and not p.negative_variables)


def target(api, p, in_place, q, before, same):
    """The not-in-place original is untouched; in place returns the program itself."""
    if in_place:
        api.check(q is p, "the original is untouched unless in place")
    else:
        api.check(q is not p, "the original is untouched unless in place")
        api.check(same_program(api, before, snapshot(p)), "the original is untouched unless in place")


def constraint(api, m, n, ops, signs, o):
    A, b, c, z, p = build(api, m, n, ops, signs, o)
    before = snapshot(p)
    row, val = api.vec("row", n), api.as_float(api.real("value"))
    op = api.choice("op", OPS)
    in_place = api.bool("in place")
    arg = row if api.bool("array") else [api.as_float(t) for t in row]
    q = p.add_constraint(arg, op, val, in_place)
    target(api, p, in_place, q, before, None)
    x = api.vec("x", n)
    api.check(api.Iff(api.truth(q.is_feasible(x)), api.And(feasible(api, A, b, ops, signs, lst(x)), sat_row(api, dot(row, x), op, val))),
              "constraint: feasible points")
    api.check(api.eq(q.evaluate(x), dot(c, x) + z), "constraint: objective unchanged")
    s = snapshot(q)
    want = dict(before, shape=[m + 1, n], A=before["A"] + [lst(row)], b=before["b"] + [val], ops=before["ops"] + [op],
                sef=before["sef"] and op == "=")
    api.check(same_program(api, s, want), "constraint: everything else unchanged")
    api.check(sef_flag(q), "standard form flag is accurate")


def variable(api, m, n, ops, signs, o):
    A, b, c, z, p = build(api, m, n, ops, signs, o)
    before = snapshot(p)
    col, coef = api.vec("col", m), api.as_float(api.real("coef"))
    sign = api.choice("sign", SIGNS)
    in_place = api.bool("in place")
    how = api.choice("column", ["array", "list", "none"])
    arg = col if how == "array" else [api.as_float(t) for t in col] if how == "list" else None
    q = p.add_variable(coef, arg, sign == "free", sign == "neg", in_place)
    target(api, p, in_place, q, before, None)
    cv = lst(col) if arg is not None else [0] * m
    s = snapshot(q)
    want = dict(before, shape=[m, n + 1], A=[r + [t] for r, t in zip(before["A"], cv)], c=before["c"] + [coef],
                free=before["free"] + ([n + 1] if sign == "free" else []), neg=before["neg"] + ([n + 1] if sign == "neg" else []),
                pos=before["pos"] + ([n + 1] if sign == "pos" else []), sef=before["sef"] and sign == "pos")
    api.check(same_program(api, s, want), "variable: column, coefficient and sign")
    api.check(sef_flag(q), "standard form flag is accurate")
    x = api.vec("x", n)
    x0 = api.array(lst(x) + [0])
    api.check(api.Iff(api.truth(q.is_feasible(x0)), feasible(api, A, b, ops, signs, lst(x))), "variable: fixing it to zero gives the original")
    api.check(api.eq(q.evaluate(x0), dot(c, x) + z), "variable: fixing it to zero gives the original")
    t = api.real("t")
    xt = api.array(lst(x) + [t])
    A2 = [r + [v] for r, v in zip(rows(A), cv)]
    api.check(api.Iff(api.truth(q.is_feasible(xt)), feasible(api, A2, b, ops, list(signs) + [sign], lst(x) + [t])),
              "variable: column, coefficient and sign")
    api.check(api.eq(q.evaluate(xt), dot(c, x) + z + coef * t), "variable: column, coefficient and sign")


def wide(api, m, n, ops, signs, o):
    """Many variables: the data of the result, for one or two additions."""
    A, b, c, z, p = build(api, m, n, ops, signs, o)
    want = snapshot(p)
    q = p
    for t in range(2):
        sign, coef, col = api.choice(f"sign{t}", SIGNS), api.as_float(api.real(f"coef{t}")), api.vec(f"col{t}", m)
        q = q.add_variable(coef, col, sign == "free", sign == "neg")
        k = n + t + 1
        want = dict(want, shape=[m, k], A=[r + [v] for r, v in zip(want["A"], lst(col))], c=want["c"] + [coef], free=want["free"] + [k] * (sign == "free"),
                    neg=want["neg"] + [k] * (sign == "neg"), pos=want["pos"] + [k] * (sign == "pos"), sef=False)
        api.check(same_program(api, snapshot(q), want), "variable: column, coefficient and sign")
    row, val = api.vec("row", n + 2), api.as_float(api.real("value"))
    r = q.add_constraint(row, "<=", val)
    want = dict(want, shape=[m + 1, n + 2], A=want["A"] + [lst(row)], b=want["b"] + [val], ops=want["ops"] + ["<="])
    api.check(same_program(api, snapshot(r), want), "constraint: everything else unchanged")


def bad_constraint(api, m, n):
    ops, signs, o = ["="] * m, ["pos"] * n, "max"
    if api.bool("general"):
        ops, signs, o = ["<="] * m, ["neg"] * n, "min"
    A, b, c, z, p = build(api, m, n, ops, signs, o)
    before = snapshot(p)
    what = api.choice("what", ["short", "long", "matrix", "<", "==", "", "text"])
    row = [api.as_float(api.real(f"r{j}")) for j in range(n)]
    op = api.choice("op", OPS)
    arg = row
    if what == "short":
        arg = row[:-1]
    elif what == "long":
        arg = row + [1.0]
    elif what == "matrix":
        arg = [row]
    elif what == "text":
        arg = "row"
    else:
        op = what
    tag, _ = api.call(p.add_constraint, arg, op, 1.0, api.bool("in place"), raises=(ValueError,))
    api.check(tag == "raise", "ill-formed arguments are refused and change nothing")
    api.check(same_program(api, before, snapshot(p)), "ill-formed arguments are refused and change nothing")


def bad_variable(api, m, n):
    ops, signs, o = ["="] * m, ["pos"] * n, "max"
    if api.bool("general"):
        ops, signs, o = ["<="] * m, ["neg"] * n, "min"
    A, b, c, z, p = build(api, m, n, ops, signs, o)
    before = snapshot(p)
    what = api.choice("what", ["both", "short", "long"])
    col = [api.as_float(api.real(f"col{i}")) for i in range(m)]
    sign = api.choice("sign", SIGNS)
    free, neg = sign == "free", sign == "neg"
    if what == "both":
        free = neg = True
    elif what == "short":
        col = col[:-1]
    else:
        col = col + [1.0]
    arg = api.array(col) if api.bool("array") else col
    tag, _ = api.call(p.add_variable, 1.0, arg, free, neg, api.bool("in place"), raises=(ValueError,))
    api.check(tag == "raise", "ill-formed arguments are refused and change nothing")
    api.check(same_program(api, before, snapshot(p)), "ill-formed arguments are refused and change nothing")


def twice(api, m, n, ops, signs, o, first):
    """Two additions in a row, in place, and none of them aliases what the caller passed."""
    A, b, c, z, p = build(api, m, n, ops, signs, o)
    row, col = api.vec("row", n), api.vec("col", m)
    op = api.choice("op", OPS)
    sign = api.choice("sign", SIGNS)
    v, k = api.as_float(api.real("value")), api.as_float(api.real("coef"))
    r2, c2 = api.as_float(api.real("r")), api.as_float(api.real("s"))
    x = api.vec("x", n + 1)
    xs = lst(x)
    if first == "constraint":
        p.add_constraint(row, op, v, True)
        p.add_variable(k, api.array(lst(col) + [c2]), sign == "free", sign == "neg", True)
        new = lst(row) + [c2]
    else:
        p.add_variable(k, col, sign == "free", sign == "neg", True)
        p.add_constraint(api.array(lst(row) + [r2]), op, v, True)
        new = lst(row) + [r2]
    A2 = [r + [t] for r, t in zip(rows(A), lst(col))] + [new]
    api.check(api.Iff(api.truth(p.is_feasible(x)), feasible(api, A2, lst(b) + [v], list(ops) + [op], list(signs) + [sign], xs)),
              "constraint: feasible points")
    api.check(api.eq(p.evaluate(x), dot(lst(c) + [k], xs) + z), "constraint: objective unchanged")
    api.check(sef_flag(p), "standard form flag is accurate")
