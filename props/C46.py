"""C46: solving the programs a graph formulates answers the graph problem."""
from itertools import combinations

from props import graphcommon as G
from props.C22 import edge_bits
from props.C25 import simple_paths

LABELS = ["the program's optimum is the length of the shortest path", "the program has no solution exactly when the end is unreachable", "an unreachable end raises ValueError",
          "the stable set found is stable", "no stable set weighs more", "the graph is unchanged"]
NOTE = "edge weights (nonnegative) and vertex weights (any sign) are unbounded symbolic reals; shortest_path() and the solved program are both judged against all simple paths"
BOUNDS = {"quick": "shortest path programs: every graph on 2 and 3 vertices with an edge between every two vertices, 5 graphs on 4 vertices; stable set programs: every graph on 1 to 3 vertices, 5 graphs on 4 vertices; 10 graphs on 5 and 6 vertices with constant weights but one or two",
          "thorough": "every graph on 4 vertices with at most 4 edges for the shortest path, every graph on 4 vertices for stable sets"}
FOUR = [[(0, 1), (1, 3)], [(0, 1), (1, 2), (2, 3)], [(0, 1), (0, 2), (1, 3), (2, 3)], [(0, 1), (1, 2), (2, 3), (0, 3)], [(1, 2), (2, 3)]]
STABLE = [[(0, 1), (1, 2), (2, 3)], [(0, 1), (1, 2), (2, 3), (0, 3)], [(0, 1), (0, 2), (0, 3)], [(0, 1), (1, 2), (0, 2), (2, 3)], [(0, 1), (2, 3)], [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]]
# larger graphs: vertices, edges, weights, the symbolic ones (and start and end)
PATHS = [(5, [(0, 1), (1, 2), (2, 3), (3, 4), (0, 4)], [1, 2, 1, 3, 0], [4, 1], [0, 3]), (5, [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (1, 2)], [4, 1, 1, 5, 2, 2], [0, 3], [0, 4]),
         (5, [(0, 1), (1, 2), (0, 2), (3, 4)], [1, 1, 3, 1], [2, 0], [0, 4]), (5, [(4, 1), (1, 0), (0, 3), (3, 2), (4, 0), (1, 3)], [2, 3, 1, 1, 4, 6], [1, 4], [4, 2]),
         (6, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (0, 5)], [1, 2, 1, 3, 1, 0], [5, 1], [0, 4])]
SETS = [(5, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)], [1, 2, 2, 3, 1], [0, 2]), (5, [(0, 1), (0, 2), (1, 2), (3, 4)], [3, 2, 4, -1, 2], [1, 3]),
        (6, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)], [2, 3, 2, 2, 3, 2], [3]), (5, [(0, i) for i in range(1, 5)], [5, 1, 2, 1, 2], [0, 4]),
        (6, [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)], [1, 2, 3, 4, 5, 6], [0, 4])]


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    opts = {"samples": 3, "max_decisions": 6000, "path_wall": 200, "wall": 3000}
    for pool in ("letters", "dashes"):
        for n in (2, 3):
            out.append({"name": f"shortest path, {pool} {n}", "fn": "shortest", "params": {"pool": pool, "n": n, "edges": None, "fixed": None, "ends": None}, "opts": opts})
    for k, e in enumerate(FOUR):
        out.append({"name": f"shortest path, 4 vertices {k}", "fn": "shortest", "params": {"pool": ["words", "numbers", "reversed"][k % 3], "n": 4, "edges": e, "fixed": None, "ends": [[0, 3]]}, "opts": opts})
    if t:
        for f in range(16):
            out.append({"name": f"shortest path, all 4 vertices {f}", "fn": "shortest", "params": {"pool": "words", "n": 4, "edges": None, "fixed": [f >> k & 1 for k in range(4)], "ends": [[0, 3]], "most": 4}, "opts": opts})
    for pool in ("reversed", "dashes"):
        for n in (1, 2, 3):
            out.append({"name": f"stable set, {pool} {n}", "fn": "stable", "params": {"pool": pool, "n": n, "edges": None, "fixed": None}, "opts": opts})
    for k, e in enumerate(STABLE if t else STABLE[:5]):
        out.append({"name": f"stable set, 4 vertices {k}", "fn": "stable", "params": {"pool": ["words", "numbers", "letters"][k % 3], "n": 4, "edges": e, "fixed": None}, "opts": opts})
    if t:
        for f in range(64):
            out.append({"name": f"stable set, all 4 vertices {f}", "fn": "stable", "params": {"pool": "words", "n": 4, "edges": None, "fixed": [f >> k & 1 for k in range(6)]}, "opts": opts})
    for k, (n, e, w, free, ends) in enumerate(PATHS):
        out.append({"name": f"shortest path, {n} vertices {k}", "fn": "shortest", "params": {"pool": ["words", "numbers", "reversed"][k % 3], "n": n, "edges": e, "fixed": None, "ends": [ends], "consts": w, "free": free}, "opts": opts})
    for k, (n, e, w, free) in enumerate(SETS):
        out.append({"name": f"stable set, {n} vertices {k}", "fn": "stable", "params": {"pool": ["words", "numbers", "letters"][k % 3], "n": n, "edges": e, "fixed": None, "consts": w, "free": free}, "opts": opts})
    return sorted(out, key=lambda c: -c["params"]["n"])


def shortest(api, pool, n, edges, fixed, ends, most=None, consts=None, free=()):
    names = G.POOLS[pool][:n]
    edges = [tuple(e) for e in edges] if edges is not None else edge_bits(api, n, fixed)
    api.assume(len(edges) > 0 and (most is None or len(edges) <= most))
    s, t = api.choice("ends", ends or [[i, j] for i in range(n) for j in range(n) if i != j])
    w = [api.real(f"w{k}", 0) if consts is None or k in free else consts[k] for k in range(len(edges))]
    g = G.undirected(api, names, edges, w, flip=True)
    num = {frozenset(e): k for k, e in enumerate(edges)}
    routes = [[num[frozenset(e)] for e in zip(q, q[1:])] for q in simple_paths(n, edges, s, t)]
    p = g.formulate_shortest_path(names[s], names[t])
    v = p.optimal_value()
    label = "the program has no solution exactly when the end is unreachable"
    api.check((v is None) == (not routes), label)
    r = api.call(g.shortest_path, names[s], names[t], raises=(ValueError,))
    api.check((r[0] == "raise") == (not routes), "an unreachable end raises ValueError")
    api.observe("value", v)
    if routes:
        ix = {m: i for i, m in enumerate(names)}
        length = G.total(w[num[frozenset((ix[a], ix[b]))]] for a, b in r[1])
        label = "the program's optimum is the length of the shortest path"
        api.check(api.eq(v, length), label)
        api.check(api.And([api.le(v, G.total(w[k] for k in q)) for q in routes]), label)
    G.Abstract({frozenset(names[i] for i in e): w[k] for k, e in enumerate(edges)}, {x: 0 for x in names}).agrees(api, g, names, "the graph is unchanged")


def stable(api, pool, n, edges, fixed, consts=None, free=()):
    names = G.POOLS[pool][:n]
    edges = [tuple(e) for e in edges] if edges is not None else edge_bits(api, n, fixed)
    v = [api.real(f"v{i}") if consts is None or i in free else consts[i] for i in range(n)]
    g = G.undirected(api, names, edges, None, v, flip=True)
    p, mapping = g.formulate_max_stable_set()
    x = p.branch_and_bound()
    label = "the stable set found is stable"
    api.check(x is not None and len(x) == n, label)
    y = [x[mapping[m]] for m in names]
    api.check(api.And([api.Or(api.eq(t, 0), api.eq(t, 1)) for t in y] + [api.Or(api.eq(y[i], 0), api.eq(y[j], 0)) for i, j in edges]), label)
    got = G.total(v[i] * y[i] for i in range(n))
    api.observe("weight", got)
    sets = [S for k in range(n + 1) for S in combinations(range(n), k) if not any(i in S and j in S for i, j in edges)]
    api.check(api.And([api.ge(got, G.total(v[i] for i in S)) for S in sets]), "no stable set weighs more")
    G.Abstract({frozenset(names[i] for i in e): 0 for e in edges}, {m: v[i] for i, m in enumerate(names)}).agrees(api, g, names, "the graph is unchanged")
