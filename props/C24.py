"""C24: traversals visit the right vertices in the right order."""
from props import graphcommon as G
from props.C22 import edge_bits

LABELS = ["starts with the start", "yields every reachable vertex exactly once and no other", "breadth-first yields vertices in nondecreasing distance",
          "breadth-first takes new neighbours in the requested order", "depth-first continues from the most recently visited vertex with unvisited neighbours",
          "random traversal yields each vertex exactly once", "an unknown start raises ValueError"]
NOTE = "the random order is symbolic: every shuffle is covered"
BOUNDS = {"quick": "every graph on up to 5 vertices, every start; orders: default, reversed and a table of symbolic keys (up to 4 vertices); random traversal of up to 4 vertices; 6 larger graphs of 8 to 11 vertices with optional edges",
          "thorough": "also every graph on 6 vertices from one start"}


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for pool in ("letters", "words", "reversed", "odd"):
        for n in (1, 2, 3, 4, 5):
            for order in ("default", "key"):
                if n == 5 and order == "key":
                    continue
                for f in range(4 if n == 5 else 1):
                    out.append({"name": f"{pool} {n} {order} {f}", "fn": "walk", "params": {"pool": pool, "n": n, "order": order, "fixed": [f & 1, f >> 1] if n == 5 else None},
                                "opts": {"samples": 2, "wall": 2000}})
    for k, (s, (n, _, _)) in enumerate(G.MANY.items()):
        for pool in (list(G.POOLS)[k % 5], list(G.POOLS)[(k + 2) % 5]):
            out.append({"name": f"{pool} {s}", "fn": "walk", "params": {"pool": pool, "n": n, "order": "default", "fixed": s}, "opts": {"samples": 2, "wall": 2000}})
    if t:
        for f in range(32):
            out.append({"name": f"words 6 {f}", "fn": "walk", "params": {"pool": "words", "n": 6, "fixed": [f >> k & 1 for k in range(5)], "order": "default"}, "opts": {"samples": 2, "wall": 4000}})
    for n in (1, 2, 3, 4):
        out.append({"name": f"random {n}", "fn": "rng", "params": {"n": n}, "opts": {"samples": 3, "random": True}})
    return out


def is_bfs(api, n, edges, s, seq, key):
    """seq is a breadth-first order from s that takes new neighbours by key."""
    nb = G.neighbours(n, edges)
    queue, seen, out = [s], {s}, []
    while queue:
        u = queue.pop(0)
        out.append(u)
        for x in sorted((x for x in nb[u] if x not in seen), key=key):
            seen.add(x)
            queue.append(x)
    return out == seq


def walk(api, pool, n, order, fixed):
    names = G.POOLS[pool][:n]
    ix = {m: i for i, m in enumerate(names)}
    edges = edge_bits(api, n, fixed)
    g = G.undirected(api, names, edges, flip=True)
    nb = G.neighbours(n, edges)
    starts = range(n) if n < 6 or isinstance(fixed, str) else range(1)
    rank = [api.int(f"key{i}") for i in range(n)] if order == "key" else None
    for s in starts:
        dist = G.distances(n, edges, s)
        if order == "default":
            runs = [("bfs", g.bfs(names[s])), ("dfs", g.dfs(names[s])), ("bfs", list(g.traverse(names[s]))), ("dfs", list(g.traverse(names[s], "dfs")))]
        else:
            key = lambda x: rank[ix[x]]
            runs = [("bfs", list(g.traverse(names[s], "bfs", key))), ("dfs", list(g.traverse(names[s], "dfs", key)))]
        for kind, r in runs:
            api.check(len(r) > 0 and r[0] == names[s], "starts with the start")
            api.check(len(r) == len(dist) and {ix.get(x, -1) for x in r} == set(dist), "yields every reachable vertex exactly once and no other")
            seq = [ix[x] for x in r]
            if kind == "bfs":
                api.check(all(dist[a] <= dist[b] for a, b in zip(seq, seq[1:])), "breadth-first yields vertices in nondecreasing distance")
                if order == "default":
                    api.check(is_bfs(api, n, edges, s, seq, lambda i: names[i]), "breadth-first takes new neighbours in the requested order")
                else:
                    # siblings first reached from the same vertex appear by key (ties in any order)
                    pos = {x: i for i, x in enumerate(seq)}
                    par = {x: min((pos[u] for u in nb[x])) for x in seq[1:]}
                    cs = [api.le(rank[a], rank[b]) for i, a in enumerate(seq[1:]) for b in seq[i + 2:] if par[a] == par[b]]
                    api.check(api.And([all(par[a] <= par[b] for a, b in zip(seq[1:], seq[2:]))] + cs), "breadth-first takes new neighbours in the requested order")
            else:
                ok = True
                for k in range(1, len(seq)):
                    seen = set(seq[:k])
                    last = next(u for u in reversed(seq[:k]) if nb[u] - seen)
                    ok = ok and seq[k] in nb[last]
                api.check(ok, "depth-first continues from the most recently visited vertex with unvisited neighbours")
        if order == "default":
            api.observe(f"walks{s}", [list(r) for _, r in runs])
    for bad in ("q", "", "".join(names) + "-"):
        for f in (g.bfs, g.dfs, lambda x: list(g.traverse(x)), lambda x: list(g.traverse(x, "dfs")), lambda x: list(g.traverse(x, "rng"))):
            api.check(api.call(f, bad, raises=(ValueError,))[0] == "raise", "an unknown start raises ValueError")


def rng(api, n):
    names = G.POOLS["words"][:n]
    edges = [(0, 1)] if n > 1 else []
    g = G.undirected(api, names, edges)
    r = list(g.traverse(names[0], "rng"))
    api.observe("walk", r)
    api.check(len(r) == n and set(r) == set(names), "random traversal yields each vertex exactly once")
    api.check(set(g.vertices) == set(names), "random traversal yields each vertex exactly once")
