"""C47: both flow algorithms find flows of the same value that cannot be augmented."""
from props import graphcommon as G
from props import flowcommon as F
from props.C28 import arc_bits

LABELS = ["both algorithms find the same value", "no augmenting path is left in the residual graph", "the value is no more than any cut", "the digraph is unchanged", "later changes of the digraph are seen"]
NOTE = "capacities are unbounded nonnegative symbolic reals; the residual graph is the one create_residual builds from each returned flow, and reachability in it is decided along each path of the program"
BOUNDS = {"quick": "every digraph on 2 and 3 nodes, 11 digraphs on 4 and 5 nodes, 9 seeded networks of 8 to 11 nodes with two symbolic capacities; histories that raise a capacity, add or remove an arc between two computations on 3 nodes",
          "thorough": "also every digraph on 4 nodes with at most 5 arcs"}


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for pool in ("letters", "words", "odd"):
        out.append({"name": f"2 nodes, {pool}", "fn": "both", "params": {"pool": pool, "n": 2, "arcs": None, "fixed": [], "ends": [0, 1]}, "opts": {"samples": 3}})
    for f in range(8):
        out.append({"name": f"3 nodes {f}", "fn": "both", "params": {"pool": "dashes", "n": 3, "arcs": None, "fixed": [f >> k & 1 for k in range(3)], "ends": [0, 2]}, "opts": {"samples": 3, "wall": 3000}})
    for name, (n, arcs) in F.SHAPES.items():
        if n <= 5:
            out.append({"name": name, "fn": "both", "params": {"pool": "words", "n": n, "arcs": arcs, "fixed": [], "ends": [0, n - 1]}, "opts": {"samples": 3, "wall": 3000}})
    for k, pr in enumerate(F.large_params(tier)):
        out.append({"name": f"large {k}, {pr['n']} nodes, {len(pr['arcs'])} arcs", "fn": "both", "params": pr, "opts": {"samples": 3, "wall": 3000, "path_wall": 60, "max_decisions": 3000}})
    for edit in ("raise", "add", "remove", "node"):
        for method in ("ford_fulkerson", "preflow_push"):
            out.append({"name": f"{edit} between two runs of {method}", "fn": "history", "params": {"edit": edit, "method": method}, "opts": {"samples": 3}})
    if t:
        for f in range(32):
            out.append({"name": f"4 nodes with few arcs {f}", "fn": "both", "params": {"pool": "words", "n": 4, "arcs": None, "fixed": [f >> k & 1 for k in range(5)], "ends": [0, 3], "most": 5}, "opts": {"samples": 3, "wall": 4000}})
    return sorted(out, key=lambda c: -(c["params"].get("most") or 0) - 10 * (len(c["params"].get("arcs") or [])))


def cuts(n, s, t):
    rest = [v for v in range(n) if v not in (s, t)]
    for bits in range(2 ** len(rest)):
        yield {s} | {rest[j] for j in range(len(rest)) if bits >> j & 1}


def cut_value(arcs, cap, side):
    return G.total(cap[k] for k, (i, j) in enumerate(arcs) if i in side and j not in side)


def both(api, pool, n, arcs, fixed, ends, most=None, caps=None, free=()):
    names = G.DIPOOLS[pool][:n]
    arcs = [tuple(a) for a in arcs] if arcs is not None else arc_bits(api, n, fixed)
    api.assume(most is None or len(arcs) <= most)
    cap = F.capacities(api, arcs, caps, free)
    g = G.directed(api, names, arcs, cap)
    s, t = ends
    values = []
    for method in ("ford_fulkerson", "preflow_push"):
        value, flow = getattr(g, method)(names[s], names[t])
        values.append(value)
        r = g.create_residual(flow)
        seen, todo = {names[s]}, [names[s]]
        while todo:
            u = todo.pop()
            for a, b in r.arcs:
                if a == u and b not in seen:
                    seen.add(b)
                    todo.append(b)
        api.check(names[t] not in seen, "no augmenting path is left in the residual graph")
    api.check(api.eq(values[0], values[1]), "both algorithms find the same value")
    api.observe("values", values)
    api.check(api.And([api.le(values[0], cut_value(arcs, cap, side)) for side in cuts(n, s, t)]), "the value is no more than any cut")
    api.check(set(g.arcs) == {(names[i], names[j]) for i, j in arcs} and set(g.nodes) == set(names), "the digraph is unchanged")
    rec = G.recorded(g, "_arcs")
    if rec is not None:
        api.check(api.And([api.eq(rec[names[i], names[j]], cap[k]) for k, (i, j) in enumerate(arcs)]), "the digraph is unchanged")


def history(api, edit, method):
    names = G.DIPOOLS["words"][:3]
    arcs = [(0, 1), (1, 2), (0, 2)]
    cap = [api.real(f"c{k}", 0) for k in range(3)]
    g = G.directed(api, names, arcs, cap)
    run = lambda: getattr(g, method)(names[0], names[2])
    v0, f0 = run()
    was = dict(f0)
    label = "later changes of the digraph are seen"
    new = api.real("new", 0)
    n = 3
    if edit == "raise":
        k = api.choice("arc", [0, 1, 2])
        g.set_arc_weight((names[arcs[k][0]], names[arcs[k][1]]), new)
        cap = cap[:k] + [new] + cap[k + 1:]
    elif edit == "add":
        a = api.choice("arc", [(1, 0), (2, 1), (2, 0)])
        g.add_arc((names[a[0]], names[a[1]]), new)
        arcs, cap = arcs + [a], cap + [new]
    elif edit == "remove":
        k = api.choice("arc", [0, 1, 2])
        g.remove_arc((names[arcs[k][0]], names[arcs[k][1]]))
        arcs, cap = arcs[:k] + arcs[k + 1:], cap[:k] + cap[k + 1:]
    else:
        names = names + ["q"]
        n = 4
        more = api.real("more", 0)
        g.add_arc((names[0], "q"), new)
        g.add_arc(("q", names[2]), more)
        arcs, cap = arcs + [(0, 3), (3, 2)], cap + [new, more]
    v1, f1 = run()
    api.check(set(f0) == set(was) and f0 is not f1, label)
    api.check(api.And([api.eq(f0[k], was[k]) for k in was]), label)
    api.check(set(f1) == {(names[i], names[j]) for i, j in arcs}, label)
    vals = [cut_value(arcs, cap, side) for side in cuts(n, 0, 2)]
    api.check(api.And([api.le(v1, c) for c in vals] + [api.Or([api.eq(v1, c) for c in vals])]), label)
    api.observe("value", v1)
