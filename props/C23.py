"""C23: connectivity, tree, cycle and partition answers are right for every graph."""
from props import graphcommon as G
from props.C22 import edge_bits

LABELS = ["connected exactly when every two vertices are joined by a path", "cyclic exactly when it contains a cycle", "a tree exactly when connected and acyclic",
          "partition returns the connected components", "the empty graph is neither connected nor a tree nor cyclic", "no spanning tree of a disconnected graph", "the graph is unchanged"]
BOUNDS = {"quick": "every graph on up to 5 vertices under 5 kinds of names, every graph on 6 vertices under one, 6 larger graphs of 8 to 11 vertices with optional edges; symbolic edge and vertex weights", "thorough": "every graph on 6 vertices under 5 kinds of names"}


def cases(tier, seed):
    t = tier == "thorough"
    out = [{"name": "empty", "fn": "empty", "params": {}, "opts": {}}]
    for pool in G.POOLS:
        for n in (1, 2, 3, 4, 5):
            for f in range(4 if n == 5 else 1):
                out.append({"name": f"{pool} {n} {f}", "fn": "graph", "params": {"pool": pool, "n": n, "fixed": [f & 1, f >> 1] if n == 5 else None}, "opts": {"samples": 2, "wall": 2000}})
    for k, (s, (n, _, _)) in enumerate(G.MANY.items()):
        for pool in (list(G.POOLS)[k % 5], list(G.POOLS)[(k + 2) % 5]):
            out.append({"name": f"{pool} {s}", "fn": "graph", "params": {"pool": pool, "n": n, "fixed": s}, "opts": {"samples": 2, "wall": 2000}})
    for pool in G.POOLS if t else ("letters",):
        for f in range(32):
            out.append({"name": f"{pool} 6 {f}", "fn": "graph", "params": {"pool": pool, "n": 6, "fixed": [f >> k & 1 for k in range(5)]}, "opts": {"samples": 2, "wall": 3000}})
    return out


def empty(api):
    g = api.mod("pytimize.graphs").UndirectedGraph()
    for r in (g.is_connected(), g.is_tree(), g.is_cyclic(), g.has_spanning_tree()):
        api.check(r is False, "the empty graph is neither connected nor a tree nor cyclic")
    api.check(list(g.partition()) == [], "partition returns the connected components")
    api.observe("p", len(g.partition()))


def graph(api, pool, n, fixed):
    names = G.POOLS[pool][:n]
    edges = edge_bits(api, n, fixed)
    w = [api.real(f"w{k}") for k in range(len(edges))]
    v = [api.real(f"v{i}") for i in range(n)]
    g = G.undirected(api, names, edges, w, v, flip=True)
    comp = G.components(n, edges)
    k = len(set(comp))
    cyc = len(edges) > n - k
    api.check(bool(g.is_connected()) == (k == 1) and bool(g.has_spanning_tree()) == (k == 1), "connected exactly when every two vertices are joined by a path")
    api.check(bool(g.is_cyclic()) == cyc, "cyclic exactly when it contains a cycle")
    api.check(bool(g.is_tree()) == (k == 1 and not cyc), "a tree exactly when connected and acyclic")
    if k != 1:
        tag, _ = api.call(g.minimum_spanning_tree, raises=(Exception,))
        api.check(tag == "raise", "no spanning tree of a disconnected graph")
    parts = g.partition()
    want = {}
    for i, c in enumerate(comp):
        want.setdefault(c, []).append(i)
    want = {frozenset(names[i] for i in c): c for c in want.values()}
    got = {frozenset(p.vertices): p for p in parts}
    label = "partition returns the connected components"
    api.check(len(parts) == k and set(got) == set(want), label)
    for key, p in got.items():
        ids = want[key]
        m = G.Abstract({frozenset((names[i], names[j])): w[e] for e, (i, j) in enumerate(edges) if i in ids}, {names[i]: v[i] for i in ids})
        m.agrees(api, p, names, label)
    G.Abstract({frozenset((names[i], names[j])): w[e] for e, (i, j) in enumerate(edges)}, {names[i]: v[i] for i in range(n)}).agrees(api, g, names, "the graph is unchanged")
    api.observe("p", [sorted(p.vertices) for p in sorted(parts, key=lambda p: sorted(p.vertices))])
