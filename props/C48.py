"""C48: the recorded steps state what the operation did and found."""
from props.lpcommon import *

LABELS = ["feasibility is recorded with its reasons", "a basic solution is recorded with its reasons", "the canonical form's parts are recorded", "every simplex iteration is recorded",
          "the simplex result is recorded", "the conversion to standard form is recorded"]
NOTE = ("The numbers a step shows are compared with the values of the operation: symbolically the arrays put into the text, on the real code the printed numbers. The drawing of the program in step 5.01 is C39's.")
BOUNDS = {"quick": "symbolic 1x1 and 1x2 programs of every operator and four sign patterns for feasibility and conversion; constant 1x2 to 2x4 matrices with symbolic b, c, x for the rest, every basis in both orders; simplex on four seeded programs of 3x7 to 5x10 with one entry of b and c symbolic",
          "thorough": "also 3x5 and all 2x3 families"}
MATS = ["1x2", "2x3", "2x4slack", "1x3"]
SIMPLEX = ["1x2", "1x3", "2x3", "2x3u", "2x4slack"]
BIG = {f"{m}x{m + q}": large(s, m, q) for s, (m, q) in enumerate([(3, 4), (4, 5), (2, 10), (5, 5)])}


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for sef in (True, False):
        for ops in itertools.product(OPS, repeat=1):
            for signs in (["pos", "pos"], ["neg", "free"], ["pos"], ["free"]):
                if not sef or (ops[0] == "=" and "pos" in signs):
                    out.append({"name": f"feasibility {list(ops)} {signs} {'standard' if sef else 'minimized'}", "fn": "feasibility", "params": {"ops": list(ops), "signs": signs, "o": "max" if sef else "min"}, "opts": {"samples": 3}})
                for o in ("max", "min"):
                    if sef:
                        out.append({"name": f"conversion {o} {list(ops)} {signs}", "fn": "conversion", "params": {"ops": list(ops), "signs": signs, "o": o}, "opts": {"samples": 3}})
    for k in MATS + (["3x5"] if t else []):
        for B in bases_of(FIXED[k]):
            for order in sorted({tuple(B), tuple(B[::-1])}):
                B1 = [j + 1 for j in order]
                out.append({"name": f"basic {k} {B1}", "fn": "basic", "params": {"k": k, "B": B1}, "opts": {"samples": 2}})
                out.append({"name": f"canonical {k} {B1}", "fn": "canonical", "params": {"k": k, "B": B1}, "opts": {"samples": 2}})
    for k in SIMPLEX + (["2x4", "2x5"] if t else []):
        for B in bases_of(FIXED[k]) if t else bases_of(FIXED[k])[:3]:
            out.append({"name": f"simplex {k} {[j + 1 for j in B]}", "fn": "simplex", "params": {"k": k, "B": [j + 1 for j in B]}, "opts": {"samples": 2, "wall": 2000}})
    for k, (A, b, c, B) in BIG.items():
        out.append({"name": f"simplex large {k}", "fn": "simplex", "params": {"k": k, "B": B}, "opts": {"samples": 2, "wall": 2000, "path_wall": 60, "max_decisions": 3000}})
    return out


def record(p, before):
    return [(s["key"], s["text"]) for s in p.steps[before:]]


def has(steps, key):
    return any(k == key for k, _ in steps)


def shown(api, steps, key, values):
    """Exactly one step of the kind, showing the values."""
    ts = [t for k, t in steps if k == key]
    return api.shows(ts[0], values) if len(ts) == 1 else False


def feasibility(api, ops, signs, o):
    n = len(signs)
    A, b, x = api.mat("A", 1, n), api.vec("b", 1), api.vec("x", n)
    p = make(api, A, b, api.vec("c", n), 0, o, ops, signs)
    p.is_feasible(x, False)
    r = bool(p.is_feasible(x, True))
    st = record(p, 0)
    label = LABELS[0]
    api.observe("keys", [k for k, _ in st])
    api.check(bool(st) and st[0][0] == "2.01", label)
    api.check(shown(api, st, "2.01", [x]), label)
    api.check(has(st, "2.02") == r, label)
    if r:
        api.check(shown(api, st, "2.02", [x]), label)
        api.check(not has(st, "2.06") and all("Not" not in t for _, t in st), label)
    if not p.is_sef:
        return
    api.check(has(st, "2.06") == (not r) and has(st, "2.03"), label)
    neg = api.Or([api.lt(v, 0) for v in x])
    off = api.ne(dot(A[0], x), b[0])
    if r:
        api.check(shown(api, st, "2.04", [x]), label)
        api.check(has(st, "2.05") and not has(st, "2.07") and not has(st, "2.08"), label)
    else:
        api.check(shown(api, st, "2.06", [x]), label)
        api.check(neg if has(st, "2.07") else api.Not(neg), label)
        api.check(off if has(st, "2.08") else api.Not(off), label)
        api.check(not has(st, "2.02") and not has(st, "2.04") and not has(st, "2.05"), label)


def conversion(api, ops, signs, o):
    n = len(signs)
    c = api.vec("c", n)
    keep = lst(c)
    p = make(api, api.mat("A", 1, n), api.vec("b", 1), c, api.real("z"), o, ops, signs)
    q = p.to_sef(True, True) if api.bool("inplace") else p.to_sef(True)
    st = record(q, 0)
    label = LABELS[5]
    api.observe("keys", [k for k, _ in st])
    already = o == "max" and ops == ["="] and all(s == "pos" for s in signs)
    api.check(has(st, "3.01") == (not already), label)
    api.check(has(st, "3.02") == (o == "min") and has(st, "3.03") == (o == "min"), label)
    if o == "min":
        api.check(shown(api, st, "3.03", [keep, [-v for v in keep]]), label)
    api.check([k for k, _ in st] == sorted(k for k, _ in st), label)


def program(api, k):
    if k in BIG:
        A, b, c, _ = BIG[k]
        return A, make(api, api.array(flt(A)), loosen(api, "b", b, [0]), loosen(api, "c", c, [1]), api.real("z"))
    A = FIXED[k]
    return A, make(api, api.array(flt(A)), api.vec("b", len(A)), api.vec("c", len(A[0])), api.real("z"))


def basic(api, k, B):
    A, p = program(api, k)
    m, n = len(A), len(A[0])
    x = api.vec("x", n)
    b = lst(p.b)
    r = bool(p.is_basic_solution(x, list(B), True))
    st = record(p, 0)
    label = LABELS[1]
    api.observe("keys", [k for k, _ in st])
    api.check(bool(st) and st[0][0] == "4.01", label)
    api.check(shown(api, st, "4.01", [x]), label)
    off = api.Or([api.ne(dot(A[i], x), b[i]) for i in range(m)])
    api.check(off if has(st, "4.03") else api.Not(off), label)
    marked = [t for q, t in st if q == "4.02"]
    api.check(len(marked) == len(set(marked)), label)
    for j in range(n):
        if j + 1 in B:
            continue
        there = any(str(j + 1) in t.split() for t in marked)
        api.check(api.ne(x[j], 0) if there else api.eq(x[j], 0), label)
    api.check(all(any(str(j + 1) in t.split() for j in range(n) if j + 1 not in B) for t in marked), label)
    api.check(has(st, "4.04") == r and has(st, "4.05") == (not r) and has(st, "4.06") == r and has(st, "4.07") == r, label)
    api.check(shown(api, st, "4.04" if r else "4.05", [x, B]), label)


def canonical(api, k, B):
    A, p = program(api, k)
    m = len(A)
    cols = [j - 1 for j in B]
    c = lst(p.c)
    p.to_canonical_form(list(B), True, True)
    st = record(p, 0)
    label = LABELS[2]
    api.observe("keys", [k for k, _ in st])
    AB = [[A[i][j] for j in cols] for i in range(m)]
    api.check(shown(api, st, "1.01", [B]), label)
    api.check(shown(api, st, "1.02", [AB]), label)
    api.check(shown(api, st, "1.03", [[c[j] for j in cols]]), label)
    api.check(shown(api, st, "1.04", [cinv(AB)]), label)
    api.check(shown(api, st, "1.05", [dual_solution(A, cols, c)]), label)


def simplex(api, k, B):
    A, p = program(api, k)
    b, c = lst(p.b), lst(p.c)
    api.assume(api.And([api.ge(v, 0) for v in const_times(cinv([[r[j - 1] for j in B] for r in A]), b)]))
    x, basis, cert = p.simplex(list(B), True)
    st = record(p, 0)
    api.observe("keys", [k for k, _ in st])
    # the iterations it takes
    n, now, y = 0, list(B), None
    while y is None and now is not None:
        y, now, _ = p.simplex_iteration(now, False)
        n += 1
    its = [t for q, t in st if q == "5.02"]
    api.check(len(its) == n + 1 and sum(1 for q, _ in st if q == "5.01") == n + 1, LABELS[3])
    api.check(api.And([api.shows(t, [i]) for i, t in enumerate(its)]), LABELS[3])
    label = LABELS[4]
    api.check(has(st, "5.05") == (x is None), label)
    for key, v in (("5.03", x), ("5.04", basis), ("5.06", cert)):
        if x is None:
            api.check(not has(st, key), label)
        else:
            api.check(shown(api, st, key, [v]), label)
