"""C25: the shortest path returned is a path of minimum total weight."""
from props import graphcommon as G
from props.C22 import edge_bits

LABELS = ["a list of consecutive edges of the graph from start to end", "no other path has a smaller total weight", "equal start and end give the empty path",
          "unknown vertices raise ValueError", "an unreachable end raises ValueError", "the graph is unchanged"]
BOUNDS = {"quick": "every graph on 3 and 4 vertices under 3 kinds of names, unbounded nonnegative real weights, every start and end; every graph on 5 vertices between two of them; 5 larger graphs of 8 to 10 vertices with optional edges, up to three pairs of ends",
          "thorough": "5 vertices under 3 kinds of names; subgraphs of three 9-edge graphs on 6 vertices"}

SHAPES5 = [[(0, 1), (1, 2), (2, 3), (3, 4), (0, 2), (1, 3), (2, 4)], [(0, 1), (0, 2), (0, 3), (1, 4), (2, 4), (3, 4), (1, 2)], [(0, 1), (1, 2), (2, 3), (3, 4), (0, 4), (1, 4), (0, 3)],
           [(0, 1), (1, 2), (2, 0), (2, 3), (3, 4), (4, 2), (1, 3)]]

SHAPES6 = [[(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (0, 2), (1, 3), (2, 4), (3, 5)], [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (4, 5), (3, 5), (1, 2), (1, 4)],
           [(0, 1), (0, 2), (1, 4), (2, 3), (3, 5), (4, 5), (1, 2), (3, 4), (1, 3)]]


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for pool in ("letters", "dashes", "words", "odd"):
        out.append({"name": f"{pool} 3", "fn": "paths", "params": {"pool": pool, "n": 3, "fixed": None, "ends": None}, "opts": {"samples": 3}})
        for f in range(4):
            out.append({"name": f"{pool} 4 {f}", "fn": "paths", "params": {"pool": pool, "n": 4, "fixed": [f & 1, f >> 1], "ends": None}, "opts": {"samples": 3}})
    for k, sh in enumerate(SHAPES5):
        for pool in ("letters", "dashes"):
            out.append({"name": f"{pool} 5 shape {k}", "fn": "shape", "params": {"pool": pool, "n": 5, "edges": sh, "free": 7}, "opts": {"samples": 3, "wall": 3000}})
    for pool in ("letters", "numbers") if t else ("letters",):
        for f in range(32):
            out.append({"name": f"{pool} 5 {f}", "fn": "paths", "params": {"pool": pool, "n": 5, "fixed": [f >> k & 1 for k in range(5)], "ends": [[0, 4]]}, "opts": {"samples": 3, "wall": 3000}})
    for k, (s, (n, _, _)) in enumerate(G.MANY.items()):
        pool = list(G.POOLS)[(k + 1) % 5]
        for e in [] if s == "star of 11" else [[2, 5]] if s == "tree of 10" else [[0, n - 1], [n - 1, 0]] if s == "cycle of 8" and not t else [[0, n - 1], [n - 1, 0], [2, 5]]:
            out.append({"name": f"{pool} {s} {e}", "fn": "paths", "params": {"pool": pool, "n": n, "fixed": s, "ends": [e]}, "opts": {"samples": 3, "wall": 3000}})
    if t:
        for k, sh in enumerate(SHAPES6):
            out.append({"name": f"words 6 shape {k}", "fn": "shape", "params": {"pool": "words", "n": 6, "edges": sh, "free": 4}, "opts": {"samples": 3, "wall": 4000}})
    return out


def simple_paths(n, edges, s, t):
    nb = G.neighbours(n, edges)
    out, stack = [], [[s]]
    while stack:
        p = stack.pop()
        if p[-1] == t:
            out.append(p)
            continue
        stack += [p + [x] for x in sorted(nb[p[-1]]) if x not in p]
    return out


def judge(api, names, n, edges, ends):
    w = [api.real(f"w{k}", 0) for k in range(len(edges))]
    of = {frozenset(e): w[k] for k, e in enumerate(edges)}
    g = G.undirected(api, names, edges, w, flip=True)
    ix = {m: i for i, m in enumerate(names)}
    for s, t in ends:
        routes = simple_paths(n, edges, s, t)
        r = api.call(g.shortest_path, names[s], names[t], raises=(ValueError,))
        if not routes:
            api.check(r[0] == "raise", "an unreachable end raises ValueError")
            continue
        api.check(r[0] == "ok", "a list of consecutive edges of the graph from start to end")
        p = r[1]
        if s == t:
            api.check(list(p) == [], "equal start and end give the empty path")
            continue
        ok = isinstance(p, list) and len(p) > 0 and all(len(e) == 2 and e[0] in ix and e[1] in ix for e in p)
        ok = ok and p[0][0] == names[s] and p[-1][1] == names[t] and all(a[1] == b[0] for a, b in zip(p, p[1:]))
        ok = ok and all(frozenset((ix[a], ix[b])) in of for a, b in p)
        api.check(ok, "a list of consecutive edges of the graph from start to end")
        length = G.total(of[frozenset((ix[a], ix[b]))] for a, b in p)
        api.check(api.And([api.le(length, G.total(of[frozenset(e)] for e in zip(q, q[1:]))) for q in routes]), "no other path has a smaller total weight")
        api.observe(f"length{s}{t}", length)
    G.Abstract({frozenset(names[i] for i in e): of[frozenset(e)] for e in edges}, {m: 0 for m in names}).agrees(api, g, names, "the graph is unchanged")


def paths(api, pool, n, fixed, ends):
    names = G.POOLS[pool][:n]
    edges = edge_bits(api, n, fixed)
    if ends is None:
        k = api.choice("ends", list(range(n * n)))
        ends = [[k // n, k % n]]
    else:
        ends = [api.choice("ends", ends)] if len(ends) > 1 else ends
    judge(api, names, n, edges, ends)
    if not edges:
        g = G.undirected(api, names, [])
        for a, b in (("q", names[0]), (names[0], "q"), ("q", "q"), ("", names[0])):
            api.check(api.call(g.shortest_path, a, b, raises=(ValueError,))[0] == "raise", "unknown vertices raise ValueError")


def shape(api, pool, n, edges, free):
    names = G.POOLS[pool][:n]
    k = len(edges) - free
    edges = edges[:k] + G.topology(api, [tuple(e) for e in edges[k:]])
    judge(api, names, n, edges, [(0, n - 1)])
