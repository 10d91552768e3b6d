"""Shared by the graph harnesses: symbolic topologies, weights and names."""
from itertools import combinations, permutations

# names whose characters are themselves names, names with dashes, and orders that differ from the roles'
POOLS = {
    "letters": ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k"],
    "reversed": ["f", "e", "d", "c", "b", "a", "0", "z", "y", "x", "w"],
    "words": ["b", "ab", "a", "ba", "abc", "c", "cab", "bc", "abcd", "d", "cc"],
    "dashes": ["a-b", "a", "b-c", "b", "c", "a-b-c", "d", "a-", "-a", "-", "c-d"],
    "numbers": ["10", "9", "1", "0", "910", "2", "20", "100", "11", "99", "3"],
    "odd": ["x", " ", "x y", "None", ",", "X", "é", "'", "\n", "->", "False"],
}
DIPOOLS = dict(POOLS, odd=["x", "", "x y", " ", "None", ",", "X", "é", "'", "\n", "->"])     # only digraphs take an empty name


# larger graphs: number of vertices, edges that are there, edges that may be there
MANY = {
    "path of 9": (9, [(i, i + 1) for i in range(8)], [(0, 8), (3, 7)]),
    "cycle of 8": (8, [(i, (i + 1) % 8) for i in range(7)], [(0, 7), (0, 4), (2, 6)]),
    "tree of 10": (10, [((i - 1) // 2, i) for i in range(1, 10)], [(8, 9), (3, 4)]),
    "two parts of 9": (9, [(0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (6, 7), (7, 8)], [(0, 3), (3, 4), (8, 4)]),
    "ladder of 8": (8, [(0, 1), (1, 2), (2, 3), (4, 5), (5, 6), (6, 7), (0, 4), (3, 7)], [(1, 5), (2, 6)]),
    "star of 11": (11, [(5, i) if i > 5 else (i, 5) for i in range(11) if i != 5], [(0, 1), (9, 10)]),
}


def pairs(n):
    return list(combinations(range(n), 2))


def arcs_of(n):
    return list(permutations(range(n), 2))


def topology(api, possible, prefix="e"):
    """The subset of `possible` pairs whose symbolic presence bit is set."""
    return [p for p in possible if api.bool(f"{prefix}{p[0]}{p[1]}")]


def undirected(api, names, edges, weights=None, vertices=None, flip=False):
    """A graph with all the names as vertices; `weights` aligned with `edges`."""
    G = api.mod("pytimize.graphs").UndirectedGraph
    w = weights if weights is not None else [0] * len(edges)
    e = {}
    for k, (i, j) in enumerate(edges):
        e[(names[j], names[i]) if flip and k % 2 else (names[i], names[j])] = w[k]
    v = {n: (vertices[i] if vertices is not None else 0) for i, n in enumerate(names)}
    return G(edges=e, vertices=v)


def directed(api, names, arcs, weights=None, nodes=None):
    D = api.mod("pytimize.graphs").DirectedGraph
    w = weights if weights is not None else [0] * len(arcs)
    a = {(names[i], names[j]): w[k] for k, (i, j) in enumerate(arcs)}
    v = {n: (nodes[i] if nodes is not None else 0) for i, n in enumerate(names)}
    return D(arcs=a, nodes=v)


def components(n, edges):
    comp = list(range(n))
    for i, j in edges:
        a, b = comp[i], comp[j]
        comp = [a if c == b else c for c in comp]
    return comp


def neighbours(n, edges):
    nb = [set() for _ in range(n)]
    for i, j in edges:
        nb[i].add(j)
        nb[j].add(i)
    return nb


def distances(n, edges, s):
    nb = neighbours(n, edges)
    d = {s: 0}
    layer = [s]
    while layer:
        nxt = []
        for u in layer:
            for v in sorted(nb[u]):
                if v not in d:
                    d[v] = d[u] + 1
                    nxt.append(v)
        layer = nxt
    return d


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


class Abstract:
    """The abstract undirected graph a UndirectedGraph must agree with."""

    def __init__(self, edges=None, vertices=None):
        self.e = dict(edges or {})         # frozenset -> weight
        self.v = dict(vertices or {})      # name -> weight

    def copy(self):
        return Abstract(self.e, self.v)

    def put(self, a, b, w):
        self.e[frozenset((a, b))] = w
        self.v.setdefault(a, 0)
        self.v.setdefault(b, 0)

    def same(self, api, o):
        if set(self.e) != set(o.e) or set(self.v) != set(o.v):
            return False
        return api.And([api.eq(self.e[k], o.e[k]) for k in self.e] + [api.eq(self.v[k], o.v[k]) for k in self.v])

    def agrees(self, api, g, names, label):
        e, v, adj = g.edges, g.vertices, g.graph
        ok = (all(isinstance(k, tuple) and len(k) == 2 for k in e) and len(e) == len(self.e)
              and {frozenset(k) for k in e} == set(self.e) and set(v) == set(self.v) and set(adj) == set(self.v))
        api.check(ok, label)
        for n in self.v:
            api.check(set(adj[n]) == {m for m in self.v if m != n and frozenset((n, m)) in self.e} and len(adj[n]) == len(set(adj[n])), label)
        cs = [api.eq(e[k], self.e[frozenset(k)]) for k in e] + [api.eq(v[n], self.v[n]) for n in v]
        for a in names:
            ok = g.has_vertex(a) is (a in self.v)
            if a in self.v:
                cs.append(api.eq(g.get_vertex_weight(a), self.v[a]))
            else:
                ok = ok and api.call(g.get_vertex_weight, a, raises=(ValueError,))[0] == "raise"
            for b in names:
                if a == b:
                    continue
                k = frozenset((a, b))
                ok = ok and g.has_edge((a, b)) is (k in self.e)
                if k in self.e:
                    cs.append(api.eq(g.get_edge_weight((a, b)), self.e[k]))
                else:
                    ok = ok and api.call(g.get_edge_weight, (a, b), raises=(ValueError,))[0] == "raise"
            api.check(ok, label)
        api.check(g.is_empty() is (len(self.v) == 0), label)
        api.check(api.And(cs), label)


def recorded(g, attr):
    """The recorded weights, which the digraph has no getter for (None if it keeps them otherwise)."""
    d = getattr(g, attr, None)
    return d if isinstance(d, dict) else None
