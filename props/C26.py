"""C26: the shortest path program describes exactly the start-end cuts."""
from props import graphcommon as G
from props.C22 import edge_bits
from props.C25 import simple_paths

LABELS = ["minimizes total edge weight over one nonnegative variable per edge", "one covering constraint per set holding the start but not the end",
          "a vector satisfies the rows exactly when it covers every cut", "every path is feasible with its weight as value", "every 0/1 feasible vector contains a path",
          "unknown vertices raise ValueError", "the graph is unchanged"]
BOUNDS = {"quick": "every graph on 2, 3 and 4 vertices with at least one edge, symbolic weights, every start and end; every graph on 5 vertices between two of them; 2 graphs of 8 vertices; the solution vector is symbolic", "thorough": "5 vertices under 3 kinds of names"}


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for pool in ("letters", "dashes", "words", "odd"):
        for n in (2, 3):
            out.append({"name": f"{pool} {n}", "fn": "program", "params": {"pool": pool, "n": n, "fixed": None, "ends": None}, "opts": {"samples": 3}})
        for f in range(4):
            out.append({"name": f"{pool} 4 {f}", "fn": "program", "params": {"pool": pool, "n": 4, "fixed": [f & 1, f >> 1], "ends": None}, "opts": {"samples": 3}})
    for pool in ("letters", "dashes", "words") if t else ("letters",):
        for f in range(32):
            out.append({"name": f"{pool} 5 {f}", "fn": "program", "params": {"pool": pool, "n": 5, "fixed": [f >> k & 1 for k in range(5)], "ends": [[0, 4]]}, "opts": {"samples": 3, "wall": 3000}})
    for k, (s, (n, _, _)) in enumerate(G.MANY.items()):
        pool = list(G.POOLS)[(k + 3) % 5]
        if n < 9 or t:
            out.append({"name": f"{pool} {s}", "fn": "program", "params": {"pool": pool, "n": n, "fixed": s, "ends": [[0, n - 1]]}, "opts": {"samples": 2, "wall": 3000}})
    return out


def program(api, pool, n, fixed, ends):
    names = G.POOLS[pool][:n]
    edges = edge_bits(api, n, fixed)
    api.assume(len(edges) > 0)
    if ends is None:
        ends = [[i, j] for i in range(n) for j in range(n) if i != j]
    s, t = api.choice("ends", ends)
    w = [api.real(f"w{k}") for k in range(len(edges))]
    g = G.undirected(api, names, edges, w, flip=True)
    p = g.formulate_shortest_path(names[s], names[t])
    cols = [frozenset(e) for e in g.edges]
    of = {frozenset((names[i], names[j])): k for k, (i, j) in enumerate(edges)}
    at = {of[c]: k for k, c in enumerate(cols)}           # edge number -> column
    E = range(len(edges))
    label = LABELS[0]
    A, b, c = p.A, p.b, p.c
    m = A.shape[0]
    api.check(A.shape[1] == len(edges) and len(c) == len(edges) and p.objective == "min" and list(p.free_variables) == [] and p.negative_variables in ([], None), label)
    api.check(api.And([api.eq(p.z, 0)] + [api.eq(c[at[k]], w[k]) for k in E]), label)
    others = [i for i in range(n) if i not in (s, t)]
    cuts = []
    for bits in range(2 ** len(others)):
        side = {s} | {others[j] for j in range(len(others)) if bits >> j & 1}
        cuts.append([k for k in E if (edges[k][0] in side) != (edges[k][1] in side)])
    ineq = p.inequalities
    ops = [i for i in ineq] if ineq is not None else ["="] * m
    # row by row: the same constraints, in any order
    rows = sorted(tuple(sorted(k for k in E if api.holds(api.ne(A[r, at[k]], 0)))) for r in range(m))
    good = all(o == ">=" for o in ops) and m == len(cuts) and rows == sorted(tuple(sorted(x)) for x in cuts)
    api.check(good, "one covering constraint per set holding the start but not the end")
    y = [api.real(f"y{k}", 0) for k in E]
    sat = api.And([api.ge(G.total(A[r, at[k]] * y[k] for k in E), b[r]) for r in range(m)])
    cover = api.And([api.ge(G.total(y[k] for k in x), 1) if x else False for x in cuts])
    api.check(api.Iff(sat, cover), "a vector satisfies the rows exactly when it covers every cut")
    num = {frozenset(e): k for k, e in enumerate(edges)}
    routes = [[num[frozenset(e)] for e in zip(q, q[1:])] for q in simple_paths(n, edges, s, t)]
    for q in routes:
        x = [1 if k in q else 0 for k in E]
        ok = [api.ge(G.total(A[r, at[k]] * x[k] for k in E), b[r]) for r in range(m)]
        val = [api.eq(G.total(c[at[k]] * x[k] for k in E), G.total(w[k] for k in q))]
        api.check(api.And(ok + val), "every path is feasible with its weight as value")
    bits = [api.Or(api.eq(v, 0), api.eq(v, 1)) for v in y]
    api.check(api.Implies(api.And([sat] + bits), api.Or([api.And([api.eq(y[k], 1) for k in q]) for q in routes])), "every 0/1 feasible vector contains a path")
    api.observe("A", [[A[r, k] for k in E] for r in range(m)])
    for a, z in (("q", names[t]), (names[s], "q")):
        api.check(api.call(g.formulate_shortest_path, a, z, raises=(ValueError,))[0] == "raise", "unknown vertices raise ValueError")
    G.Abstract({frozenset(names[i] for i in e): w[k] for k, e in enumerate(edges)}, {x: 0 for x in names}).agrees(api, g, names, "the graph is unchanged")
