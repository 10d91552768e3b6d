"""C14: operations that are not in place never alter a program; copies are independent."""
from props.lpcommon import *

LABELS = ["operation leaves the program alone", "operation leaves its arguments alone", "a copy equals its original",
          "editing a derived program does not show in the original", "editing the original does not show in a derived program", "recorded steps are not shared"]
NOTE = "Whether an operation returns or raises is not judged here, only that the program's data is the same afterwards."
BOUNDS = {"quick": "every public operation on symbolic programs 1x2 (general form and standard form), on constant-A 2x3 standard-form programs with "
                   "symbolic b and c for the simplex family, and on 2-variable inequality programs for drawing; every derived program with every in-place edit",
          "thorough": "the same with more operator/sign/objective patterns and further matrices"}
QUERIES = {
    "evaluate": lambda p, a: p.evaluate(a["x"]), "value_of": lambda p, a: p.value_of(a["x"]),
    "is_feasible": lambda p, a: p.is_feasible(a["x"]), "solve": lambda p, a: p.solve(), "optimal_value": lambda p, a: p.optimal_value(),
    "is_solution_optimal": lambda p, a: p.is_solution_optimal(a["x"]),
    "dual": lambda p, a: p.dual(), "auxiliary": lambda p, a: p.auxiliary(), "to_sef": lambda p, a: p.to_sef(),
    "two_phase_simplex": lambda p, a: p.two_phase_simplex(), "simplex": lambda p, a: p.simplex(a["B"]),
    "simplex_iteration": lambda p, a: p.simplex_iteration(a["B"]), "to_canonical_form": lambda p, a: p.to_canonical_form(a["B"]),
    "is_basis": lambda p, a: p.is_basis(a["B"]), "is_basic_solution": lambda p, a: p.is_basic_solution(a["x"], a["B"]),
    "is_feasible_basic_solution": lambda p, a: p.is_feasible_basic_solution(a["x"], a["B"]),
    "is_basis_feasible": lambda p, a: p.is_basis_feasible(a["B"]), "compute_basic_solution": lambda p, a: p.compute_basic_solution(a["B"]),
    "is_canonical_form_for": lambda p, a: p.is_canonical_form_for(a["B"]),
    "verify_infeasibility": lambda p, a: p.verify_infeasibility(a["y"]), "verify_optimality": lambda p, a: p.verify_optimality(a["y"]),
    "verify_unboundedness": lambda p, a: p.verify_unboundedness(a["x"], a["x2"]),
    "cs_conditions": lambda p, a: p.cs_conditions(), "repr": lambda p, a: repr(p),
    "copy": lambda p, a: p.copy(), "add_constraint": lambda p, a: p.add_constraint(a["x"], "<=", 1.0),
    "add_variable": lambda p, a: p.add_variable(1.0, a["y"], True), "add_negative_variable": lambda p, a: p.add_variable(1.0, a["y"], False, True),
    "clear_steps": lambda p, a: p.clear_steps(), "to_rref": lambda p, a: p.to_rref(p.A), "is_in_rref": lambda p, a: p.is_in_rref,
    "accessors": lambda p, a: (p.A, p.b, p.c, p.z, p.inequalities, p.objective, p.steps, p.free_variables, p.negative_variables, p.positive_variables),
    "equality": lambda p, a: p == p.copy(),
}
EDITS = {
    "add_constraint": lambda q: q.add_constraint([1.0] * len(q.c), "<=", 2.0, True),
    "add_variable": lambda q: q.add_variable(3.0, None, True, False, True),
    "add_negative_variable": lambda q: q.add_variable(3.0, None, False, True, True),
    "to_sef": lambda q: q.to_sef(True, True),
    "to_canonical_form": lambda q: q.to_canonical_form([1], True, True),
    "simplex_iteration": lambda q: q.simplex_iteration([1], True, True),
    "write A": lambda q: q.A.__setitem__((0, 0), 77.0), "write b": lambda q: q.b.__setitem__(0, 77.0), "write c": lambda q: q.c.__setitem__(0, 77.0),
}
DERIVED = {
    "copy": lambda p: p.copy(), "dual": lambda p: p.dual(), "to_sef": lambda p: p.to_sef(),
    "add_constraint": lambda p: p.add_constraint([1.0] * len(p.c), ">=", 1.0), "add_variable": lambda p: p.add_variable(1.0),
    "clear_steps": lambda p: p.clear_steps(), "auxiliary": lambda p: p.auxiliary(), "to_canonical_form": lambda p: p.to_canonical_form([1]),
    "simplex_iteration": lambda p: p.simplex_iteration([1])[2],
}
FORMS = {"standard": (["="], ["pos", "pos"], "max"), "mixed": ([">="], ["neg", "free"], "min"), "negative": (["<="], ["free", "neg"], "max"),
         "min": (["="], ["pos", "pos"], "min"), "integer": (["<="], ["pos", "free"], "max")}
INTEGRAL = {"integer": [1]}
MATS = {"2x3": ([[1, 2, 1], [2, -1, 1]], [1, 3]), "2x3b": ([[1, -1, 1], [-1, -2, 1]], [2, 1]), "1x3": ([[1, -2, 3]], [1]), "2x2": ([[1, 2], [3, 1]], [2, 1])}


def cases(tier, seed):
    out = []
    for q in QUERIES:
        for form in FORMS if tier == "thorough" or q not in ("solve", "optimal_value") else ["standard", "mixed", "integer"]:
            out.append({"name": f"{q} on {form}", "fn": "query", "params": {"q": q, "form": form}, "opts": {"samples": 2}})
    for q in ("simplex", "simplex_iteration", "two_phase_simplex", "solve", "to_canonical_form", "auxiliary", "optimal_value", "compute_basic_solution"):
        for k in MATS:
            for B in ([MATS[k][1], MATS[k][1][::-1]] if len(MATS[k][1]) > 1 else [MATS[k][1]]):
                out.append({"name": f"{q} {k} {B}", "fn": "solver", "params": {"q": q, "k": k, "B": B}, "opts": {"samples": 2}})
    for d in DERIVED:
        for form in FORMS:
            if form != "standard" and d in ("auxiliary", "to_canonical_form", "simplex_iteration"):
                continue
            for e in EDITS:
                if form != "standard" and e in ("to_canonical_form", "simplex_iteration"):
                    continue
                out.append({"name": f"{d} of {form}, {e}", "fn": "derived", "params": {"d": d, "form": form, "e": e}, "opts": {"samples": 1}})
    for e in list(EDITS) + ["none"]:
        out.append({"name": f"relaxation, {e}", "fn": "relaxation", "params": {"e": e}, "opts": {"samples": 1}})
    for d in ("copy", "dual", "to_sef", "add_constraint", "add_variable", "clear_steps"):
        for form in FORMS:
            out.append({"name": f"log of {form}, {d}", "fn": "log", "params": {"form": form, "d": d}, "opts": {"samples": 2}})
    for k in ("box", "empty", "mixed"):
        out.append({"name": f"drawing {k}", "fn": "drawing", "params": {"k": k}, "opts": {"samples": 2, "plot": True}})
    return out


def build(api, form):
    ops, signs, o = FORMS[form]
    A, b, c, z = api.mat("A", 1, 2), api.vec("b", 1), api.vec("c", 2), api.real("z")
    if form in INTEGRAL:
        return api.mod("pytimize.programs").IntegerProgram(A, b, c, z, o, list(ops), free_of(signs), neg_of(signs), list(INTEGRAL[form]))
    return make(api, A, b, c, z, o, ops, signs)


def attempt(api, f, *args):
    tag, r = api.call(f, *args, raises=(Exception, SystemExit))
    api.observe("outcome", tag if tag == "ok" else type(r).__name__)
    return r if tag == "ok" else None


def query(api, q, form):
    p = build(api, form)
    before = snapshot(p)
    a = {"x": api.vec("x", 2), "x2": api.vec("d", 2), "y": api.vec("y", 1), "B": [api.choice("B", [1, 2])]}
    keep = {k: list(v) for k, v in a.items()}
    attempt(api, QUERIES[q], p, a)
    api.check(same_program(api, before, snapshot(p)), "operation leaves the program alone")
    api.check(api.And([vec_eq(api, keep[k], list(a[k])) for k in a]), "operation leaves its arguments alone")
    if q == "copy":
        api.check(api.truth(p == p.copy()), "a copy equals its original")
        api.check(same_program(api, before, snapshot(p.copy())), "a copy equals its original")


def solver(api, q, k, B):
    A = MATS[k][0]
    m, n = len(A), len(A[0])
    b, c = api.vec("b", m), api.vec("c", n)
    p = make(api, api.array(flt(A)), b, c, api.real("z"))
    before = snapshot(p)
    a = {"B": list(B)}
    attempt(api, QUERIES[q], p, a)
    api.check(same_program(api, before, snapshot(p)), "operation leaves the program alone")
    api.check(a["B"] == list(B), "operation leaves its arguments alone")


def derived(api, d, form, e):
    p = build(api, form)
    before = snapshot(p)
    q = attempt(api, DERIVED[d], p)
    if q is None:
        return
    qb = snapshot(q)
    attempt(api, EDITS[e], q)
    api.check(same_program(api, before, snapshot(p)), "editing a derived program does not show in the original")
    q = attempt(api, DERIVED[d], p)
    if q is None:
        return
    attempt(api, EDITS[e], p)
    api.check(same_program(api, qb, snapshot(q)), "editing the original does not show in a derived program")


def relaxation(api, e):
    IP = api.mod("pytimize.programs").IntegerProgram
    A, b, c = api.mat("A", 1, 2), api.vec("b", 1), api.vec("c", 2)
    args = (A, b, c) if e in ("to_canonical_form", "simplex_iteration") else (A, b, c, 1.0, "min", [">="], [1], [2])
    for f in (lambda p: p.relax(), lambda p: p.copy()):
        p = IP(*args)
        before = snapshot(p)
        q = f(p)
        qb = snapshot(q)
        api.check(same_program(api, before, qb), "a copy equals its original")
        if e == "none":
            api.check(api.truth(q == (p.copy() if type(q) is IP else p.relax())), "a copy equals its original")
            attempt(api, lambda: p.is_feasible(api.vec("x", 2)))
        else:
            attempt(api, EDITS[e], q)
        api.check(same_program(api, before, snapshot(p)), "editing a derived program does not show in the original")
        q = f(p)
        if e != "none":
            attempt(api, EDITS[e], p)
        api.check(same_program(api, qb, snapshot(q)), "editing the original does not show in a derived program")


def log(api, form, d):
    p = build(api, form)
    x = api.vec("x", 2)
    p.is_feasible(x)
    q = DERIVED[d](p)
    mine, theirs = [s["key"] for s in p.steps], [s["key"] for s in q.steps]
    p.is_feasible([1.0] * 2)
    api.check([s["key"] for s in q.steps] == theirs, "recorded steps are not shared")
    now = [s["key"] for s in p.steps]
    api.check(now[:len(mine)] == mine and len(now) > len(mine), "recorded steps are not shared")
    q.is_feasible([1.0] * len(q.c))
    q.clear_steps(True)
    api.check([s["key"] for s in p.steps] == now and q.steps == [], "recorded steps are not shared")


def drawing(api, k):
    LP = lp(api)
    b = api.vec("b", 2)
    if k == "empty":
        api.assume(api.lt(b[0] + b[1], -1))
    if k == "mixed":
        p = LP(api.array([[1.0, 1.0], [-1.0, -1.0]]), b, api.vec("c", 2), 0, "max", ["<=", "="])
    else:
        p = LP(api.array([[1.0, 1.0], [-1.0, -1.0]]), b, api.vec("c", 2), 0, "max", ["<=", "<="])
    before = snapshot(p)
    attempt(api, p.graph_polyhedron, 10)
    api.check(same_program(api, before, snapshot(p)), "operation leaves the program alone")
