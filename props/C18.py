"""C18: the stable set program's feasible points are exactly the stable sets."""
from props import graphcommon as G
from props.C22 import edge_bits

LABELS = ["one variable per vertex given by the mapping", "nonnegative integral vectors are feasible exactly when they indicate a stable set",
          "the objective is the total weight of the set, maximized", "the graph is unchanged"]
NOTE = "the vector is symbolic: any nonnegative integers, unbounded"
BOUNDS = {"quick": "every graph on 1 to 5 vertices with symbolic weights under 5 kinds of names; 6 larger graphs of 8 to 11 vertices with optional edges", "thorough": "also every graph on 6 vertices under one kind of names"}


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for pool in G.POOLS:
        for n in (1, 2, 3, 4, 5):
            for f in range(4 if n == 5 else 1):
                out.append({"name": f"{pool} {n} {f}", "fn": "program", "params": {"pool": pool, "n": n, "fixed": [f & 1, f >> 1] if n == 5 else None}, "opts": {"samples": 3, "wall": 2000}})
    for k, (s, (n, _, _)) in enumerate(G.MANY.items()):
        pool = list(G.POOLS)[k % 5]
        out.append({"name": f"{pool} {s}", "fn": "program", "params": {"pool": pool, "n": n, "fixed": s}, "opts": {"samples": 2, "wall": 2000}})
    if t:
        for f in range(32):
            out.append({"name": f"words 6 {f}", "fn": "program", "params": {"pool": "words", "n": 6, "fixed": [f >> k & 1 for k in range(5)]}, "opts": {"samples": 2, "wall": 4000}})
    return out


def program(api, pool, n, fixed):
    names = G.POOLS[pool][:n]
    edges = edge_bits(api, n, fixed)
    v = [api.real(f"v{i}") for i in range(n)]
    w = [api.real(f"w{k}") for k in range(len(edges))]
    g = G.undirected(api, names, edges, w, v, flip=True)
    p, mapping = g.formulate_max_stable_set()
    A, b, c = p.A, p.b, p.c
    label = LABELS[0]
    api.check(set(mapping) == set(names) and sorted(mapping.values()) == list(range(n)) and A.shape[1] == n and len(c) == n and list(p.free_variables) == [] and p.negative_variables in ([], None), label)
    at = [mapping[x] for x in names]
    api.check(p.objective == "max", LABELS[2])
    api.check(api.And([api.eq(c[at[i]], v[i]) for i in range(n)] + [api.eq(p.z, 0)]), LABELS[2])
    m = A.shape[0]
    ineq = p.inequalities
    ops = list(ineq) if ineq is not None else ["="] * m
    x = [api.int(f"x{i}", 0) for i in range(n)]
    rows = []
    for r in range(m):
        lhs = G.total(A[r, at[i]] * x[i] for i in range(n))
        rows.append({"<=": api.le, ">=": api.ge, "=": api.eq}[ops[r]](lhs, b[r]))
    stable = api.And([api.Or(api.eq(t, 0), api.eq(t, 1)) for t in x] + [api.Not(api.And(api.eq(x[i], 1), api.eq(x[j], 1))) for i, j in edges])
    api.check(api.Iff(api.And(rows), stable), LABELS[1])
    # the program itself agrees on feasibility of an indicator and of a doubled vertex
    api.observe("rows", m)
    G.Abstract({frozenset(names[i] for i in e): w[k] for k, e in enumerate(edges)}, {t: v[i] for i, t in enumerate(names)}).agrees(api, g, names, "the graph is unchanged")
