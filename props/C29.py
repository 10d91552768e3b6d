"""C29: the residual graph has exactly the remaining capacities."""
from props import graphcommon as G
from props.C28 import arc_bits

LABELS = ["an arc exactly when the remaining capacity is positive, with that weight", "flows on unknown arcs, negative flows and negative capacities raise ValueError",
          "flows above capacity raise ArithmeticError", "the digraph and the flow are unchanged"]
NOTE = "capacities and flows are unbounded symbolic reals; arcs without flow may be left out of the flow"
BOUNDS = {"quick": "every digraph on 2 and 3 nodes with both directions (partial flows with symbolic gaps on up to 3 arcs); fixed digraphs on 4 nodes, and on 8 and 11 nodes with four symbolic capacities and flows", "thorough": "all flow gaps on 3 nodes; more digraphs on 4 nodes"}
FOUR = [[(0, 1), (1, 0), (1, 2), (2, 3), (3, 2)], [(0, 1), (0, 2), (1, 3), (2, 3), (3, 0)], [(0, 1), (1, 0), (2, 3), (3, 2)]]


def cases(tier, seed):
    t = tier == "thorough"
    out = []
    for pool in ("letters", "words", "dashes", "odd"):
        out.append({"name": f"{pool} 2", "fn": "residual", "params": {"pool": pool, "n": 2, "arcs": None, "fixed": [], "gaps": True, "valid": False}, "opts": {"samples": 3}})
    for f in range(16):
        fx = [f >> k & 1 for k in range(4)]
        out.append({"name": f"words 3 {f}", "fn": "residual", "params": {"pool": "words", "n": 3, "arcs": None, "fixed": fx, "gaps": t, "valid": True}, "opts": {"samples": 3, "wall": 3000}})
        if sum(fx) <= 2 or t:
            out.append({"name": f"words 3 {f} invalid flows", "fn": "residual", "params": {"pool": "words", "n": 3, "arcs": None, "fixed": fx, "gaps": False, "valid": False}, "opts": {"samples": 3, "wall": 3000}})
    for k, a in enumerate(FOUR if t else FOUR[:2]):
        out.append({"name": f"4 nodes {k}", "fn": "residual", "params": {"pool": "dashes", "n": 4, "arcs": a, "fixed": [], "gaps": t, "valid": True}, "opts": {"samples": 3, "wall": 3000}})
    for n, count in ((8, 16), (11, 26)):
        for s in range(2):
            out.append({"name": f"large {n} nodes {s}", "fn": "larger", "params": {"pool": ("words", "numbers")[s], "n": n, "count": count, "s": s}, "opts": {"samples": 3, "path_wall": 30}})
    out.append({"name": "unknown arcs", "fn": "unknown", "params": {}, "opts": {"samples": 3}})
    return out


def judge(api, g, names, n, arcs, cap, flow):
    """flow: dict arc index -> value"""
    given = {(names[i], names[j]): flow[k] for k, (i, j) in enumerate(arcs) if k in flow}
    copy = dict(given)
    fl = [flow.get(k, 0) for k in range(len(arcs))]
    r = api.call(g.create_residual, given, raises=(ValueError, ArithmeticError))
    bad = api.Or([api.lt(v, 0) for v in cap] + [api.lt(v, 0) for v in flow.values()])
    over = api.Or([api.lt(cap[k], fl[k]) for k in range(len(arcs))])
    if r[0] == "raise":
        if isinstance(r[1], ValueError):
            api.check(bad, "flows on unknown arcs, negative flows and negative capacities raise ValueError")
        else:
            api.check(api.And(over, api.Not(bad)), "flows above capacity raise ArithmeticError")
    else:
        api.check(api.Not(bad), "flows on unknown arcs, negative flows and negative capacities raise ValueError")
        api.check(api.Not(over), "flows above capacity raise ArithmeticError")
        num = {a: k for k, a in enumerate(arcs)}
        res = r[1]
        label = "an arc exactly when the remaining capacity is positive, with that weight"
        ix = {m: i for i, m in enumerate(names)}
        api.check(all(a in ix and b in ix and a != b for a, b in res.arcs) and set(res.nodes) <= set(names), label)
        cs = []
        for i, j in G.arcs_of(n):
            want = 0
            if (i, j) in num:
                want = want + cap[num[i, j]] - fl[num[i, j]]
            if (j, i) in num:
                want = want + fl[num[j, i]]
            a = (names[i], names[j])
            if res.has_arc(a):
                cs += [api.gt(want, 0), api.eq((G.recorded(res, "_arcs") or {}).get(a, want), want)]
            else:
                cs.append(api.le(want, 0))
        api.check(api.And(cs), label)
        api.observe("arcs", [list(a) for a in sorted(res.arcs)])
    label = "the digraph and the flow are unchanged"
    api.check(set(g.arcs) == {(names[i], names[j]) for i, j in arcs} and set(g.nodes) == set(names) and set(given) == set(copy), label)
    api.check(api.And([api.eq((G.recorded(g, "_arcs") or {}).get((names[i], names[j]), cap[k]), cap[k]) for k, (i, j) in enumerate(arcs)] + [api.eq(given[k], copy[k]) for k in copy]), label)


def residual(api, pool, n, arcs, fixed, gaps, valid):
    names = G.DIPOOLS[pool][:n]
    arcs = [tuple(a) for a in arcs] if arcs is not None else arc_bits(api, n, fixed)
    cap = [api.real(f"c{k}", *((0,) if valid else ())) for k in range(len(arcs))]
    flow = {}
    for k in range(len(arcs)):
        if gaps and api.bool(f"gap{k}"):
            continue
        flow[k] = api.real(f"f{k}", *((0,) if valid else ()))
        if valid:
            api.assume(api.le(flow[k], cap[k]))
    g = G.directed(api, names, arcs, cap)
    judge(api, g, names, n, arcs, cap, flow)


def larger(api, pool, n, count, s):
    """A larger network with four symbolic capacities and flows, the rest constant."""
    from props.flowcommon import large
    names = G.DIPOOLS[pool][:n]
    arcs, caps = large(n, count, s)
    free = [(5 * j + s) % count for j in range(4)]
    cap = [api.real(f"c{k}", 0) if k in free else v for k, v in enumerate(caps)]
    flow = {k: api.real(f"f{k}", 0) if k in free else (v, 0, v // 2)[k % 3] for k, v in enumerate(caps) if k in free or k % 4}
    judge(api, G.directed(api, names, arcs, cap), names, n, arcs, cap, flow)


def unknown(api):
    names = G.DIPOOLS["words"][:3]
    arcs = [(0, 1), (1, 2)]
    cap = [api.real(f"c{k}", 0) for k in range(2)]
    g = G.directed(api, names, arcs, cap)
    a = api.choice("arc", [(names[1], names[0]), (names[0], names[2]), (names[0], names[0]), ("q", names[0]), (names[0], "q")])
    f = api.real("f")
    r = api.call(g.create_residual, {a: f}, raises=(ValueError, ArithmeticError))
    api.check(r[0] == "raise" and isinstance(r[1], ValueError), "flows on unknown arcs, negative flows and negative capacities raise ValueError")
    api.observe("r", r[0])
