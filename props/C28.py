"""C28: directed cuts and degrees count exactly the crossing arcs."""
from props import graphcommon as G

LABELS = ["the cut is the set of arcs leaving", "the reverse cut is the set of arcs entering", "degrees are the sizes of the cuts and connections their sum", "the digraph is unchanged"]
BOUNDS = {"quick": "every digraph on up to 4 nodes (4096), every set of nodes and single name, 2 kinds of names; up to 3 nodes for 5 kinds; 6 larger digraphs of 8 to 11 nodes with three optional arcs", "thorough": "every digraph on 4 nodes under 5 kinds of names"}


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for pool in G.DIPOOLS:
        for n in (1, 2, 3):
            out.append({"name": f"{pool} {n}", "fn": "cuts", "params": {"pool": pool, "n": n, "fixed": []}, "opts": {"samples": 2}})
        if t or pool in ("words", "dashes"):
            for f in range(8):
                out.append({"name": f"{pool} 4 {f}", "fn": "cuts", "params": {"pool": pool, "n": 4, "fixed": [f >> k & 1 for k in range(3)]}, "opts": {"samples": 2}})
    for k, (n, count) in enumerate([(8, 16), (9, 20), (11, 26)]):
        for s in range(2):
            out.append({"name": f"large {n} nodes {s}", "fn": "larger", "params": {"pool": list(G.DIPOOLS)[(k + s) % len(G.DIPOOLS)], "n": n, "count": count, "s": s}, "opts": {"samples": 2}})
    return out


def larger(api, pool, n, count, s):
    """A larger digraph with three optional arcs, and the sets that four nodes may or may not be in."""
    from props.flowcommon import large
    names = G.DIPOOLS[pool][:n]
    arcs, _ = large(n, count, s)
    arcs = [tuple(a) for k, a in enumerate(arcs) if k >= 3 or api.bool(f"a{k}")]
    g = G.directed(api, names, arcs)
    inside = {i for i in range(n) if (api.bool(f"in{i}") if i % 3 == s else i % 2 == 0)}
    judge(api, g, names, arcs, inside, [{names[i] for i in inside}, [names[i] for i in sorted(inside)]])
    api.check(set(g.arcs) == {(names[i], names[j]) for i, j in arcs} and set(g.nodes) == set(names), "the digraph is unchanged")
    api.observe("cut", sorted(map(list, g.cut(names[0]))))


def judge(api, g, names, arcs, inside, forms):
    leave = {(names[i], names[j]) for i, j in arcs if i in inside and j not in inside}
    enter = {(names[i], names[j]) for i, j in arcs if j in inside and i not in inside}
    for f in forms:
        c, r = g.cut(f), g.ncut(f)
        api.check(len(c) == len(leave) and set(c) == leave, "the cut is the set of arcs leaving")
        api.check(len(r) == len(enter) and set(r) == enter, "the reverse cut is the set of arcs entering")
        api.check(g.outdegree(f) == len(leave) and g.indegree(f) == len(enter) and g.connections(f) == len(leave) + len(enter), "degrees are the sizes of the cuts and connections their sum")


def arc_bits(api, n, fixed):
    ps = G.arcs_of(n)
    return [p for p, f in zip(ps, fixed) if f] + G.topology(api, ps[len(fixed):])


def cuts(api, pool, n, fixed):
    names = G.DIPOOLS[pool][:n]
    arcs = arc_bits(api, n, fixed)
    g = G.directed(api, names, arcs)
    for bits in range(2 ** n):
        inside = {i for i in range(n) if bits >> i & 1}
        s = {names[i] for i in inside}
        forms = [set(s), sorted(s), tuple(s)] if bits % 3 == 0 else [set(s)]
        if bits % 4 == 1:
            forms.append(s | {"q"})
        if len(s) == 1:
            forms.append(next(iter(s)))
        judge(api, g, names, arcs, inside, forms)
    for q in ("q", "".join(names)):
        if q not in names:
            api.check(len(g.cut(q)) == 0 and len(g.ncut(q)) == 0 and g.connections(q) == 0, "the cut is the set of arcs leaving")
    api.check(set(g.arcs) == {(names[i], names[j]) for i, j in arcs} and set(g.nodes) == set(names), "the digraph is unchanged")
    api.observe("cut", sorted(map(list, g.cut(names[0]))))
