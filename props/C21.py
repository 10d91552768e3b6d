"""C21: an undirected graph agrees with one abstract graph after every history of edits."""
from itertools import combinations
from props.graphcommon import Abstract

VIEW = "adjacency, edges, vertices and weights agree with one graph"
LABELS = [VIEW, "invalid operations raise ValueError", "an operation that raises changes nothing", "copies are equal and share no state",
          "reported dictionaries share no state", "graphs are equal exactly when vertices, edges and weights are"]
NOTE = "the graph before the history is arbitrary: any edges, isolated vertices and symbolic weights, so each step is also an inductive step from any reachable graph"
BOUNDS = {"quick": "3 names (two of them characters of the third); any starting graph over them, then any 2 operations (any 1 after construction from adjacency sets, vertices without neighbours listed or not); weights unbounded reals",
          "thorough": "any 3 operations from any starting graph over 3 names; any 1 operation over 4 names"}

OPS = ["add_edge", "remove_edge", "set_edge_weight", "add_vertex", "set_vertex_weight"]
NAMES = ["b", "ab", "a", "ba"]


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for op in OPS:
        for k in range(4):
            out.append({"name": f"history of {3 if t else 2} operations starting with {op} on {['empty', 'isolated', 'some', 'more'][k]} graphs", "fn": "history",
                        "params": {"n": 3, "K": 3 if t else 2, "first": op, "edges": k}, "opts": {"samples": 2}})
        for how in ("graph", "mixed"):
            out.append({"name": f"{op} after construction from {how}", "fn": "history", "params": {"n": 3, "K": 1, "first": op, "edges": None, "how": how}, "opts": {"samples": 2}})
        if t:
            out.append({"name": f"{op} on 4 names", "fn": "history", "params": {"n": 4, "K": 1, "first": op, "edges": None}, "opts": {"samples": 2}})
    for k in range(3):
        out.append({"name": f"copies {k}", "fn": "copies", "params": {"n": 3, "which": k}, "opts": {"samples": 2}})
        out.append({"name": f"equality {k}", "fn": "equality", "params": {"n": 3, "which": k}, "opts": {"samples": 2}})
    return out


def start(api, n, edges, how="edges", pre="s"):
    """Any graph over a subset of the names; edges = how many, or None for any number."""
    G = api.mod("pytimize.graphs").UndirectedGraph
    names = NAMES[:n]
    m = Abstract()
    ps = list(combinations(names, 2))
    if edges is None:
        chosen = [p for i, p in enumerate(ps) if api.bool(f"{pre}e{i}")]
    elif edges == 0:
        return G(), m
    else:
        chosen = {1: [[]], 2: [[p] for p in ps], 3: [list(c) for r in (2, 3) for c in combinations(ps, r)]}[edges]
        chosen = chosen[api.choice(f"{pre}e", list(range(len(chosen))))]
    ed, gr, ve = {}, {}, {}
    for i, (a, b) in enumerate(chosen):
        flip = api.bool(f"{pre}flip{i}") if how != "edges" or i == 0 else i % 2
        if flip:
            a, b = b, a
        if how == "graph" or (how == "mixed" and i % 2):
            gr.setdefault(a, set()).add(b)
            if api.bool(f"{pre}both{i}"):
                gr.setdefault(b, set()).add(a)
            m.put(a, b, 0)
        else:
            w = api.real(f"{pre}w{i}", 0)
            ed[(a, b)] = w
            if how == "mixed":
                gr.setdefault(b, set()).add(a)        # listed twice: the weight given counts
            m.put(a, b, w)
    for i, a in enumerate(names):
        if a in m.v:
            if how != "graph" and i == 0:
                w = api.real(f"{pre}v{i}")
                ve[a] = w
                m.v[a] = w
        elif api.bool(f"{pre}iso{i}"):
            if how == "graph":
                gr[a] = set()
                m.v[a] = 0
            else:
                w = api.real(f"{pre}v{i}", 0)
                ve[a] = w
                m.v[a] = w
    if how == "graph":                                # vertices known from others' sets, listed with none of their own
        bare = {a: set() for a in names if a in m.v and a not in gr}
        if bare and api.bool(f"{pre}listed"):
            gr = {**bare, **gr} if api.bool(f"{pre}listed first") else {**gr, **bare}
    kw = {}
    for key, d in (("graph", gr), ("edges", ed), ("vertices", ve)):
        if d:
            kw[key] = d
    return G(**kw), m


def step(api, g, m, names, k, op):
    """One operation with any arguments; the model follows."""
    ab = None
    if op in ("add_edge", "remove_edge", "set_edge_weight"):
        bad = [("", names[0]), (names[0], "")] if op == "add_edge" else [("zz", names[0])]
        args = [(a, b) for a in names for b in names] + bad
        ab = tuple("".join(list(x)) for x in api.choice(f"edge{k}", args))        # equal names need not be one object
        key = frozenset(ab)
    else:
        v = api.choice(f"vertex{k}", names + (["zz"] if op == "set_vertex_weight" else [""]))
    invalid = False
    if op == "add_edge":
        default = api.bool(f"default{k}")
        w = 0 if default else api.real(f"w{k}")
        invalid = ab[0] == ab[1] or not ab[0] or not ab[1] or key in m.e or api.holds(api.lt(w, 0))
        r = api.call(g.add_edge, ab, *(() if default else (w,)), raises=(ValueError,))
        if not invalid:
            m.put(ab[0], ab[1], w)
    elif op == "remove_edge":
        invalid = key not in m.e
        r = api.call(g.remove_edge, ab, raises=(ValueError,))
        if not invalid:
            del m.e[key]
    elif op == "set_edge_weight":
        invalid = key not in m.e
        w = api.real(f"w{k}")
        r = api.call(g.set_edge_weight, ab, w, raises=(ValueError,))
        if not invalid:
            m.e[key] = w
    elif op == "add_vertex":
        default = api.bool(f"default{k}")
        w = 0 if default else api.real(f"w{k}")
        invalid = not v or v in m.v or api.holds(api.lt(w, 0))
        r = api.call(g.add_vertex, v, *(() if default else (w,)), raises=(ValueError,))
        if not invalid:
            m.v[v] = w
    else:
        invalid = v not in m.v
        w = api.real(f"w{k}")
        r = api.call(g.set_vertex_weight, v, w, raises=(ValueError,))
        if not invalid:
            m.v[v] = w
    api.check((r[0] == "raise") == bool(invalid), "invalid operations raise ValueError")
    return "an operation that raises changes nothing" if invalid else VIEW


def history(api, n, K, first, edges, how="edges"):
    names = NAMES[:n]
    g, m = start(api, n, edges, how)
    m.agrees(api, g, names, VIEW)
    for k in range(K):
        op = first if k == 0 else api.choice(f"op{k}", OPS)
        label = step(api, g, m, names, k, op)
        m.agrees(api, g, names, label)
    api.observe("edges", sorted(map(list, g.edges)))
    api.observe("graph", repr(g))


def copies(api, n, which):
    names = NAMES[:n]
    g, m = start(api, n, None)
    if which < 2:
        c = g.copy()
        m.agrees(api, c, names, "copies are equal and share no state")
        api.check(c == g and g == c, "copies are equal and share no state")
        a, b = (g, c) if which == 0 else (c, g)
        m2 = m.copy()
        op = api.choice("op", OPS)
        step(api, a, m2, names, 0, op)
        m.agrees(api, b, names, "copies are equal and share no state")
        m2.agrees(api, a, names, "copies are equal and share no state")
        return
    e, v, adj = g.edges, g.vertices, g.graph
    for k in list(e):
        e[k] = e[k] + 1
    e[("x", "y")] = 1
    for k in list(v):
        v[k] = v[k] + 1
    v["x"] = 1
    for k in list(adj):
        adj[k].add("x")
    adj["x"] = {"y"}
    m.agrees(api, g, names + ["x", "y"], "reported dictionaries share no state")
    for d in (g.edges, g.vertices, g.graph):
        d.clear()
    m.agrees(api, g, names, "reported dictionaries share no state")


def equality(api, n, which):
    names = NAMES[:n] if which else NAMES[:2]
    label = "graphs are equal exactly when vertices, edges and weights are"
    if which < 2:
        g, m = start(api, len(names), None, pre="s")
        h, q = start(api, len(names), None if which == 0 else 2, pre="t")
    else:
        # the same graph built in another order, then one more operation
        g, m = start(api, n, None)
        h = api.mod("pytimize.graphs").UndirectedGraph()
        for a in reversed(list(m.v)):
            h.add_vertex(a)
            h.set_vertex_weight(a, m.v[a])
        for k in reversed(list(m.e)):
            a, b = sorted(k, reverse=True)
            h.add_edge((a, b), m.e[k])
        q = m.copy()
        api.check(g == h, label)
        step(api, h, q, names, 0, api.choice("op", OPS))
    api.check(api.Iff(g == h, m.same(api, q)), label)
    api.check(api.Iff(h == g, m.same(api, q)), label)
    for other in (None, 0, "g", {}, g.edges, set(names)):
        api.check(not (g == other) and g != other and not (other == g), label)
