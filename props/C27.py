"""C27: a directed graph agrees with one abstract digraph after every history of edits."""
from itertools import permutations
from props.graphcommon import recorded

VIEW = "arcs, nodes, adjacency and degrees agree with one digraph"
LABELS = [VIEW, "invalid operations raise ValueError", "an operation that raises changes nothing", "new nodes get the given demands", "one demand for two new nodes raises TypeError"]
NOTE = "arc weights and demands are observed through the residual graph, flows and the recorded values; the digraph before the history is arbitrary"
BOUNDS = {"quick": "3 names; any starting digraph over them, then any 1 operation, or any 3 operations from the empty digraph, or any 1 after construction from adjacency sets, nodes without arcs listed or not; symbolic weights and demands",
          "thorough": "any 2 operations from any starting digraph over 3 names; any 4 operations from the empty digraph"}
OPS = ["add_arc", "remove_arc", "remove_arc with nodes", "add_node", "set_arc_weight", "set_node_weight"]
NAMES = ["b", "ab", "a"]


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for op in OPS:
        for f in range(16 if t else 4):
            out.append({"name": f"{op} first, from any digraph {f}", "fn": "history", "params": {"K": 2 if t else 1, "first": op, "fixed": [f >> k & 1 for k in range(4 if t else 2)], "how": "arcs"}, "opts": {"samples": 2, "wall": 3000}})
        out.append({"name": f"{op} after construction from adjacency", "fn": "history", "params": {"K": 1, "first": op, "fixed": [1, 1], "how": "graph"}, "opts": {"samples": 2}})
        out.append({"name": f"{op} after construction from sparse adjacency", "fn": "history", "params": {"K": 1, "first": op, "fixed": [0, 0, 0], "how": "graph"}, "opts": {"samples": 2}})
    for op in ("add_arc", "add_node"):
        for second in OPS:
            for third in OPS if op == "add_arc" and second == "add_arc" or t else [None]:
                out.append({"name": f"{op}, {second}, {third or 'any'} from the empty digraph", "fn": "history", "params": {"K": 4 if t and op == "add_arc" else 3, "ops": [op, second] + [third] * bool(third), "fixed": None, "how": "empty"},
                            "opts": {"samples": 2, "wall": 4000}})
    return sorted(out, key=lambda c: "add_arc, add_arc" not in c["name"])


class Model:
    def __init__(self):
        self.a, self.v = {}, {}

    def agrees(self, api, g, label):
        arcs, nodes = list(g.arcs), list(g.nodes)
        ok = len(arcs) == len(self.a) and set(arcs) == set(self.a) and len(nodes) == len(self.v) and set(nodes) == set(self.v)
        for x in NAMES:
            ok = ok and g.has_node(x) is (x in self.v)
            ok = ok and g.outdegree({x}) == sum(a[0] == x for a in self.a) and g.indegree({x}) == sum(a[1] == x for a in self.a)
            ok = ok and g.connections({x}) == sum(x in a for a in self.a)
            for y in NAMES:
                ok = ok and g.has_arc((x, y)) is ((x, y) in self.a)
        adj, wa, wn = recorded(g, "_graph"), recorded(g, "_arcs"), recorded(g, "_nodes")
        if adj is not None:
            ok = ok and set(adj) == set(self.v) and all(set(adj[x]) == {b for a, b in self.a if a == x} for x in adj)
        api.check(ok, label)
        cs = []
        if wa is not None:
            cs += [api.eq(wa[k], w) for k, w in self.a.items()]
        if wn is not None:
            cs += [api.eq(wn[k], w) for k, w in self.v.items()]
        api.check(api.And(cs), label)


def start(api, fixed, how):
    D = api.mod("pytimize.graphs").DirectedGraph
    m = Model()
    if how == "empty":
        return D(), m
    ps = list(permutations(NAMES, 2))
    arcs, gr, nodes = {}, {}, {}
    for i, p in enumerate(ps):
        if fixed[i] if i < len(fixed) else api.bool(f"a{i}"):
            if how == "graph" and i % 2 == 0:
                gr.setdefault(p[0], set()).add(p[1])
                m.a[p] = 0
            else:
                if how == "graph":
                    gr.setdefault(p[0], set()).add(p[1])      # listed twice: the weight given counts
                arcs[p] = api.real(f"w{i}")
                m.a[p] = arcs[p]
            for x in p:
                m.v.setdefault(x, 0)
    for i, x in enumerate(NAMES):
        if x not in m.v:
            if api.bool(f"iso{i}"):
                if how == "graph":
                    gr[x] = set()
                    m.v[x] = 0
                else:
                    nodes[x] = m.v[x] = api.real(f"v{i}")
        elif i == 0:
            nodes[x] = m.v[x] = api.real(f"v{i}")
    if how == "graph":                                # nodes without outgoing arcs, listed or not
        bare = {x: set() for x in NAMES if x in m.v and x not in gr}
        if bare and api.bool("listed"):
            gr = {**bare, **gr} if api.bool("listed first") else {**gr, **bare}
    kw = {k: d for k, d in (("graph", gr), ("arcs", arcs), ("nodes", nodes)) if d}
    return D(**kw), m


def step(api, g, m, k, op):
    fresh = lambda x: "".join(list(x))
    if op in ("add_arc", "remove_arc", "remove_arc with nodes", "set_arc_weight"):
        arc = api.choice(f"arc{k}", [(a, b) for a in NAMES for b in NAMES])
        arc = (fresh(arc[0]), fresh(arc[1]))
    else:
        x = fresh(api.choice(f"node{k}", NAMES))
    r = None
    if op == "add_arc":
        invalid = arc in m.a or arc[0] == arc[1]
        new = [x for x in arc if x not in m.v]
        kind = api.choice(f"kind{k}", ["default", "weight", "tuple"] + (["scalar"] if new else []))
        args, dem = (), {x: 0 for x in new}
        w = 0
        if kind != "default":
            w = api.real(f"nw{k}")
            args = (w,)
        if kind == "tuple":
            d = (api.real(f"d{k}a"), api.real(f"d{k}b"))
            args = (w, d)
            dem = {x: d[arc.index(x)] for x in new}
        if kind == "scalar":
            d = api.real(f"d{k}")
            args = (w, d)
            dem = {x: d for x in new}
            if len(new) == 2 and arc[0] != arc[1]:
                api.assume(api.ne(d, 0))
                r = api.call(g.add_arc, arc, *args, raises=(TypeError,))
                api.check(r[0] == "raise", "one demand for two new nodes raises TypeError")
                return "an operation that raises changes nothing"
        r = api.call(g.add_arc, arc, *args, raises=(ValueError,))
        if not invalid:
            m.a[arc] = w
            for x in arc:
                m.v.setdefault(x, dem.get(x, 0))
    elif op in ("remove_arc", "remove_arc with nodes"):
        invalid = arc not in m.a
        nodes = op != "remove_arc"
        r = api.call(g.remove_arc, arc, *((True,) if nodes else ()), raises=(ValueError,))
        if not invalid:
            del m.a[arc]
            if nodes:
                for x in arc:
                    if not any(x in p for p in m.a):
                        del m.v[x]
    elif op == "add_node":
        default = api.bool(f"default{k}")
        w = 0 if default else api.real(f"nw{k}")
        invalid = x in m.v
        r = api.call(g.add_node, x, *(() if default else (w,)), raises=(ValueError,))
        if not invalid:
            m.v[x] = w
    elif op == "set_arc_weight":
        invalid = arc not in m.a
        w = api.real(f"nw{k}")
        r = api.call(g.set_arc_weight, arc, w, raises=(ValueError,))
        if not invalid:
            m.a[arc] = w
    else:
        invalid = x not in m.v
        w = api.real(f"nw{k}")
        r = api.call(g.set_node_weight, x, w, raises=(ValueError,))
        if not invalid:
            m.v[x] = w
    api.check((r[0] == "raise") == bool(invalid), "invalid operations raise ValueError")
    return "an operation that raises changes nothing" if invalid else "new nodes get the given demands" if op.startswith("add") else VIEW


def history(api, K, fixed, how, first=None, ops=None):
    ops = ops or [first]
    g, m = start(api, fixed, how)
    m.agrees(api, g, VIEW)
    for k in range(K):
        op = ops[k] if k < len(ops) else api.choice(f"op{k}", OPS)
        label = step(api, g, m, k, op)
        m.agrees(api, g, label)
    api.observe("arcs", sorted(map(list, g.arcs)))
