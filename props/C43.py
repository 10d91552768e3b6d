"""C43: the text of an undirected graph lists every vertex with its neighbours."""
from props.C22 import edge_bits
from props.graphcommon import *

TEXTS = True
LABELS = ["one line per vertex", "neighbours of the vertex", "lines in order", "equal graphs have equal texts"]
BOUNDS = {"quick": "every graph on up to 4 vertices, names of one or more letters; built by edges in any orientation, by adjacency sets or step by step; larger graphs of 8 to 11 vertices with some optional edges",
          "thorough": "every graph on up to 5 vertices"}
NOTE = "Names without dashes and colons."


def cases(tier, seed):
    out = []
    for n in range(0, 5 if tier == "quick" else 6):
        for pool in ("letters", "words", "numbers"):
            for first in ((None,) if n < 3 else (0, 1)):
                out.append({"name": f"{n} vertices {pool} {first}", "fn": "text", "params": {"n": n, "pool": pool, "first": first}, "opts": {"samples": 4, "max_decisions": 300}})
    for k, (name, (n, _, _)) in enumerate(MANY.items()):
        out.append({"name": f"{name}", "fn": "text", "params": {"n": n, "pool": ("letters", "words", "numbers")[k % 3], "first": name}, "opts": {"samples": 2}})
    return out


def text(api, n, pool, first):
    names = POOLS[pool][:n]
    ps = pairs(n)
    edges = [tuple(sorted(e)) for e in edge_bits(api, n, first)] if first in MANY else [p for k, p in enumerate(ps) if (first == 1 if k == 0 and first is not None else api.bool(f"e{p[0]}{p[1]}"))]
    how = api.choice("how", ["edges", "flipped", "adjacency", "steps"])
    G = api.mod("pytimize.graphs").UndirectedGraph
    if how in ("edges", "flipped"):
        g = undirected(api, names, edges, flip=how == "flipped")
    elif how == "adjacency":
        nb = neighbours(n, edges)
        g = G(graph={names[i]: {names[j] for j in nb[i]} for i in range(n)})
    else:
        g = G()
        for i in reversed(range(n)):
            g.add_vertex(names[i])
        for i, j in ps:
            g.add_edge((names[j], names[i]), api.real(f"w{i}{j}", 0))
        for i, j in ps:
            if (i, j) not in edges:
                g.remove_edge((names[i], names[j]))
    s = repr(g)
    lines = s.split("\n") if s else []
    api.check(len(lines) == n, "one line per vertex")
    heads = [l.split(":")[0] for l in lines]
    api.check(sorted(heads) == sorted(names), "one line per vertex")
    api.check(lines == sorted(lines), "lines in order")
    nb = neighbours(n, edges)
    for h, l in zip(heads, lines):
        rest = l.split(":", 1)[1].strip()
        got = rest.split("-") if rest else []
        want = sorted(names[j] for j in nb[names.index(h)])
        api.check(got == want, "neighbours of the vertex")
    api.check(s == repr(undirected(api, names, edges)), "equal graphs have equal texts")
