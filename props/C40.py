"""C40: recording of steps is complete on request and has no effect on results."""
from props.lpcommon import *

LABELS = ["same result with and without recording", "recording off adds no step", "recording on only appends",
          "clearing removes every step", "clearing a copy leaves the original's steps", "the text shows the steps"]
NOTE = "what the steps say is C48; here their keys, number and order are judged"
BOUNDS = {"quick": "every operation with the recording flag on symbolic 1x2 programs of four forms, on 1x1 integer programs, and the simplex family on "
                   "constant 2x3, 1x3 and 2x2 programs with symbolic b, c, z and every basis order; the same family on three seeded programs of 3x7, 4x9 and 2x12 with one entry of b and c symbolic",
          "thorough": "the same on six forms and more matrices"}
OPS_ = {
    "is_basic_solution": lambda p, a, s: p.is_basic_solution(a["x"], a["B"], s),
    "to_canonical_form": lambda p, a, s: p.to_canonical_form(a["B"], s),
    "to_canonical_form in place": lambda p, a, s: p.to_canonical_form(a["B"], s, True),
    "dual": lambda p, a, s: p.dual(s), "auxiliary": lambda p, a, s: p.auxiliary(s), "solve": lambda p, a, s: p.solve(s),
    "two_phase_simplex": lambda p, a, s: p.two_phase_simplex(s), "simplex": lambda p, a, s: p.simplex(a["B"], s),
    "simplex_iteration": lambda p, a, s: p.simplex_iteration(a["B"], s),
    "simplex_iteration in place": lambda p, a, s: p.simplex_iteration(a["B"], s, True),
    "verify_infeasibility": lambda p, a, s: p.verify_infeasibility(a["y"], s),
    "verify_unboundedness": lambda p, a, s: p.verify_unboundedness(a["x"], a["d"], s),
    "verify_optimality": lambda p, a, s: p.verify_optimality(a["y"], s),
    "is_feasible": lambda p, a, s: p.is_feasible(a["x"], s),
    "to_sef": lambda p, a, s: p.to_sef(s), "to_sef in place": lambda p, a, s: p.to_sef(s, True),
}
FORMS = {"standard": (["="], ["pos", "pos"], "max"), "mixed": ([">="], ["neg", "free"], "min"), "negative": (["<="], ["free", "neg"], "max"),
         "min": (["="], ["pos", "pos"], "min"), "all free": (["<="], ["free", "free"], "min"), "plain": (["<="], ["pos", "pos"], "max")}
MATS = {"2x3": ([[1, 2, 1], [2, -1, 1]], [1, 3]), "1x3": ([[1, -2, 3]], [1]), "2x2": ([[1, 2], [3, 1]], [2, 1]),
        "2x3b": ([[1, -1, 1], [-1, -2, 1]], [2, 1]), "2x4": ([[1, 1, 1, 0], [1, -1, 0, 1]], [3, 4])}
BIG = {f"{m}x{m + q}": large(s, m, q) for s, (m, q) in enumerate([(3, 4), (4, 5), (2, 10)])}
FAMILY = ("solve", "two_phase_simplex", "simplex", "simplex_iteration", "simplex_iteration in place", "to_canonical_form", "to_canonical_form in place",
          "auxiliary", "verify_unboundedness", "verify_infeasibility", "verify_optimality", "is_basic_solution", "is_feasible", "dual", "to_sef")


def cases(tier, seed):
    out = []
    for o in OPS_:
        for f in (list(FORMS) if tier == "thorough" else list(FORMS)[:4]):
            out.append({"name": f"{o} on {f}", "fn": "flag", "params": {"o": o, "form": f, "k": None, "B": [1]}, "opts": {"samples": 2}})
    for o in FAMILY:
        for k in (list(MATS) if tier == "thorough" else list(MATS)[:3]):
            for B in {tuple(MATS[k][1]), tuple(MATS[k][1][::-1])} if tier == "thorough" else {tuple(MATS[k][1])}:
                out.append({"name": f"{o} {k} {list(B)}", "fn": "flag", "params": {"o": o, "form": "standard", "k": k, "B": list(B)}, "opts": {"samples": 2}})
    for k, (A, b, c, B) in BIG.items():
        for o in FAMILY:
            out.append({"name": f"{o} large {k}", "fn": "flag", "params": {"o": o, "form": "standard", "k": k, "B": B}, "opts": {"samples": 2, "path_wall": 30, "max_decisions": 3000}})
    for o in ("is_feasible", "to_sef", "to_sef in place", "dual", "solve"):
        out.append({"name": f"integer program {o}", "fn": "flag", "params": {"o": o, "form": "integer", "k": None, "B": [1]}, "opts": {"samples": 2}})
    for f in FORMS:
        out.append({"name": f"clear on {f}", "fn": "clear", "params": {"form": f}, "opts": {"samples": 2}})
    return out


def build(api, form, k):
    if form == "integer":
        return api.mod("pytimize.programs").IntegerProgram(api.mat("A", 1, 1), api.vec("b", 1), api.vec("c", 1), api.real("z"), "min", [">="], None, [1])
    if k in BIG:
        A, b, c, _ = BIG[k]
        return make(api, api.array(flt(A)), loosen(api, "b", b, [1]), loosen(api, "c", c, [0]), api.real("z"))
    if k:
        A = MATS[k][0]
        return make(api, api.array(flt(A)), api.vec("b", len(A)), api.vec("c", len(A[0])), api.real("z"))
    ops, signs, o = FORMS[form]
    return make(api, api.mat("A", 1, 2), api.vec("b", 1), api.vec("c", 2), api.real("z"), o, ops, signs)


def value(api, v):
    """Any result as nested lists of numbers, strings and None."""
    if hasattr(v, "steps") and hasattr(v, "inequalities"):
        s = snapshot(v)
        return ["program"] + [value(api, s[k]) for k in sorted(s)]
    if isinstance(v, (tuple, list)):
        return [value(api, x) for x in v]
    if getattr(v, "shape", ()):
        return [value(api, x) for x in v]
    return v


def equal(api, u, v):
    if isinstance(u, list) or isinstance(v, list):
        if not (isinstance(u, list) and isinstance(v, list) and len(u) == len(v)):
            return False
        return api.And([equal(api, a, b) for a, b in zip(u, v)])
    if u is None or v is None or isinstance(u, (str, bool)) or isinstance(v, (str, bool)):
        if isinstance(u, str) or isinstance(v, str) or u is None or v is None:
            return u is v or (isinstance(u, str) and isinstance(v, str) and u == v)
        return bool(u) == bool(v)
    if type(u).__name__ == "SymBool" or type(u).__name__ == "bool_" or type(v).__name__ in ("SymBool", "bool_"):
        return api.Iff(api.truth(u), api.truth(v))
    return api.eq(u, v)


def keys(p):
    return [s["key"] for s in p.steps]


def flag(api, o, form, k, B):
    m, n = (len(BIG[k][0]), len(BIG[k][0][0])) if k in BIG else (len(MATS[k][0]), len(MATS[k][0][0])) if k else (1, 1 if form == "integer" else 2)
    few = lambda name, v: loosen(api, name, v, [0, len(v) - 1]) if k in BIG else api.vec(name, len(v))
    a = {"x": few("x", [0] * n), "d": few("d", [0] * n), "y": few("y", [1] * m), "B": B}
    got = []
    for s in (True, False):
        p = build(api, form, k)
        api.call(p.to_sef, True, raises=(Exception,))
        api.call(p.is_feasible, a["x"], True, raises=(Exception,))
        before = list(p.steps)
        f = OPS_[o]
        tag, r = api.call(f, p, {q: (list(v) if q == "B" else v) for q, v in a.items()}, s, raises=(ArithmeticError, ValueError, IndexError))
        after = list(p.steps)
        derived = [q for q in (r if isinstance(r, tuple) else (r,)) if hasattr(q, "steps") and hasattr(q, "inequalities")] if tag == "ok" else []
        if s:
            api.check(after[:len(before)] == before, "recording on only appends")
            api.check(all(list(q.steps)[:len(before)] == before or o in ("dual", "auxiliary") for q in derived), "recording on only appends")
        else:
            api.check(after == before, "recording off adds no step")
            api.check(all(list(q.steps) in (before, []) for q in derived), "recording off adds no step")
        got.append((tag, type(r).__name__ if tag != "ok" else "", value(api, r) if tag == "ok" else None, value(api, p)))
    api.observe("kind", [got[0][0], got[0][1]])
    api.check(got[0][0] == got[1][0] and got[0][1] == got[1][1], "same result with and without recording")
    api.check(equal(api, got[0][2], got[1][2]), "same result with and without recording")
    api.check(equal(api, got[0][3], got[1][3]), "same result with and without recording")


def clear(api, form):
    p = build(api, form, None)
    x = api.vec("x", 2)
    p.is_feasible(x, True)
    p.to_sef(True, api.bool("inplace"))
    p.is_feasible(api.vec("w", len(p.c)), True)
    n = len(p.steps)
    api.check(n > 0, "the text shows the steps")
    text = p.steps_string
    api.check(isinstance(text, str) and all(s["text"] in text for s in p.steps), "the text shows the steps")
    before = value(api, p)
    keep = list(p.steps)
    q = p.clear_steps()
    api.check(list(q.steps) == [] and q is not p, "clearing removes every step")
    api.check(list(p.steps) == keep, "clearing a copy leaves the original's steps")
    api.check(equal(api, value(api, q), before), "same result with and without recording")
    q.is_feasible(api.vec("w", len(q.c)), True)
    api.check(list(p.steps) == keep, "clearing a copy leaves the original's steps")
    c = p.copy()
    r = p.clear_steps(True)
    api.check(r is p and list(p.steps) == [] and p.steps_string == "", "clearing removes every step")
    api.check(list(c.steps) == keep, "clearing a copy leaves the original's steps")
    api.check(equal(api, value(api, p), before), "same result with and without recording")
