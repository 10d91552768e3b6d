"""C22: undirected cuts and degrees count exactly the boundary edges."""
from props import graphcommon as G

LABELS = ["the cut is the set of edges with exactly one endpoint inside", "the degree is the size of the cut", "the graph is unchanged"]
NOTE = "the set may contain names that are not in the graph; a set is given as a set, or a single name as a string"
BOUNDS = {"quick": "every graph on up to 5 vertices under 5 kinds of names, every set of vertices, every single name; 4 larger graphs of 8 and 9 vertices", "thorough": "also every graph on 6 vertices under one kind of names"}


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for pool in G.POOLS:
        for n in (1, 2, 3, 4, 5):
            out.append({"name": f"{pool} {n}", "fn": "cuts", "params": {"pool": pool, "n": n, "fixed": None}, "opts": {"samples": 2, "wall": 2000}})
    for k, (s, (n, _, _)) in enumerate(G.MANY.items()):
        if n < 10 or t:
            pool = list(G.POOLS)[k % 5]
            out.append({"name": f"{pool} {s}", "fn": "cuts", "params": {"pool": pool, "n": n, "fixed": s}, "opts": {"samples": 2, "wall": 2000}})
    if t:
        for f in range(32):
            out.append({"name": f"words 6 {f}", "fn": "cuts", "params": {"pool": "words", "n": 6, "fixed": [f >> k & 1 for k in range(5)]}, "opts": {"samples": 2, "wall": 4000}})
    return out


def edge_bits(api, n, fixed):
    if isinstance(fixed, str):
        return list(G.MANY[fixed][1]) + G.topology(api, G.MANY[fixed][2])
    ps = G.pairs(n)
    k = len(fixed or [])
    return [p for p, f in zip(ps, fixed or []) if f] + G.topology(api, ps[k:])


def cuts(api, pool, n, fixed):
    names = G.POOLS[pool][:n]
    edges = edge_bits(api, n, fixed)
    g = G.undirected(api, names, edges, [api.real(f"w{k}", 0) for k in range(min(1, len(edges)))] + [0] * (len(edges) - 1), flip=True)
    before = (dict(g.edges), {k: set(v) for k, v in g.graph.items()}, set(g.vertices))
    # the set is a symbolic subset: membership bits are decided when the two sides differ
    for bits in range(2 ** n):
        inside = {names[i] for i in range(n) if bits >> i & 1}
        want = {frozenset((names[i], names[j])) for i, j in edges if (bits >> i & 1) != (bits >> j & 1)}
        arg = inside | ({"q"} if bits % 3 == 0 else set())
        forms = [arg]
        if len(inside) == 1:
            forms.append(next(iter(inside)))
        for form in forms:
            r = g.cut(set(form) if isinstance(form, set) else form)
            api.check(isinstance(r, set) and len(r) == len(want) and all(len(e) == 2 for e in r) and {frozenset(e) for e in r} == want,
                      "the cut is the set of edges with exactly one endpoint inside")
            api.check(g.degree(form) == len(want), "the degree is the size of the cut")
    for other in ("q", "".join(names)):
        if other not in names:
            api.check(g.cut(other) == set() and g.degree(other) == 0, "the cut is the set of edges with exactly one endpoint inside")
    after = (dict(g.edges), {k: set(v) for k, v in g.graph.items()}, set(g.vertices))
    api.check(after[1:] == before[1:] and set(after[0]) == set(before[0]) and api.And([api.eq(after[0][k], before[0][k]) for k in after[0]]), "the graph is unchanged")
    api.observe("cut", sorted(map(list, g.cut(names[0]))))
