"""Judging a maximum flow: feasible, conserved, and as large as the capacity of some cut."""
import random

from props import graphcommon as G
from props.C28 import arc_bits

LABELS = ["the flow is within capacities on exactly the arcs", "the flow is conserved at all other nodes", "the value is the net amount leaving the source",
          "the value is the capacity of a source-sink cut", "unknown or equal endpoints raise ValueError", "the digraph is unchanged"]
NOTE = "capacities are unbounded nonnegative symbolic reals; every path of the real algorithm through augmentations or pushes is explored, so termination is shown for them too"


def bounds(few, many):
    q = "every digraph on 2 and 3 nodes (antiparallel arcs, arcs into the source and out of the sink included), every digraph on 4 nodes with at most %d arcs, 18 digraphs on 4 to 7 nodes; 9 seeded networks of 8 to 11 nodes and 16 to 26 arcs and 5 of 7 to 11 nodes with long ways round, with one or two symbolic and otherwise integer capacities"
    return {"quick": q % few, "thorough": q % many + " and two more"}


SHAPES = {
    "diamond": (4, [(0, 1), (0, 2), (1, 3), (2, 3)]),
    "diamond with bridge": (4, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)]),
    "diamond with both bridges": (4, [(0, 1), (0, 2), (1, 2), (2, 1), (1, 3), (2, 3)]),
    "bridge listed first": (4, [(1, 2), (0, 1), (0, 2), (1, 3), (2, 3)]),
    "path and back": (4, [(0, 1), (1, 0), (1, 2), (2, 1), (2, 3), (3, 2)]),
    "into source, out of sink": (4, [(0, 1), (1, 3), (3, 0), (3, 1), (2, 0), (1, 2)]),
    "dead ends": (4, [(0, 1), (1, 2), (0, 3), (2, 1)]),
    "unreachable sink": (4, [(0, 1), (1, 0), (3, 2), (2, 1)]),
    "long path": (5, [(0, 1), (1, 2), (2, 3), (3, 4)]),
    "path with shortcut": (5, [(0, 1), (1, 2), (2, 3), (3, 4), (0, 3), (1, 4)]),
    "two stages": (5, [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4)]),
    "undoing": (6, [(0, 1), (1, 2), (2, 5), (0, 3), (3, 2), (1, 4), (4, 5)]),
    "long path of six": (6, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)]),
    "long way and dead end": (7, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 6), (1, 5)]),
    "separate part": (6, [(0, 1), (1, 5), (2, 3), (3, 4), (4, 2)]),
}
HEAVY = {
    "undoing with both directions": (6, [(0, 1), (1, 2), (2, 5), (0, 3), (3, 2), (2, 1), (1, 4), (4, 5)]),
    "undoing a long way": (6, [(0, 1), (1, 4), (4, 5), (0, 2), (2, 3), (3, 4), (1, 3), (3, 5)]),
    "cycle on the way": (5, [(0, 1), (1, 2), (2, 3), (3, 1), (2, 4), (3, 4)]),
    "two levels": (6, [(0, 1), (0, 2), (1, 3), (1, 4), (2, 4), (3, 5), (4, 5)]),
}


# long ways round: a push algorithm has to climb high before giving up on them; one or two capacities are symbolic
DETOURS = [
    (7, [((4, 2), 5), ((3, 2), 5), ((5, 6), 1), ((3, 4), 1), ((1, 3), 4), ((2, 1), 3), ((5, 3), 4), ((1, 0), 4), ((4, 5), 3), ((0, 1), 3), ((2, 4), 2), ((4, 6), 2)]),
    (9, [((7, 6), 3), ((3, 4), 3), ((1, 0), 3), ((6, 7), 1), ((1, 3), 3), ((4, 2), 4), ((5, 6), 1), ((1, 2), 2), ((5, 7), 4), ((3, 5), 2), ((2, 1), 3), ((4, 3), 3), ((6, 8), 4),
         ((0, 1), 2), ((6, 5), 5)]),
    (9, [((3, 2), 2), ((4, 3), 4), ((7, 6), 3), ((7, 8), 5), ((0, 2), 2), ((3, 5), 1), ((4, 2), 2), ((5, 7), 1), ((1, 0), 1), ((6, 5), 4), ((5, 3), 1), ((8, 7), 2), ((1, 2), 5),
         ((5, 4), 1), ((3, 4), 1), ((6, 4), 1), ((1, 3), 4), ((2, 1), 4)]),
    (11, [((4, 3), 3), ((10, 8), 2), ((3, 2), 2), ((6, 5), 1), ((0, 1), 1), ((4, 6), 1), ((9, 8), 1), ((8, 6), 5), ((7, 9), 3), ((8, 7), 5), ((6, 7), 1), ((9, 10), 2), ((1, 3), 1),
          ((5, 4), 2), ((2, 1), 3), ((3, 4), 4), ((10, 9), 2), ((4, 5), 5)]),
    (11, [((5, 4), 4), ((5, 7), 2), ((0, 2), 3), ((5, 6), 3), ((10, 8), 2), ((2, 4), 3), ((3, 1), 4), ((6, 8), 3), ((1, 2), 4), ((4, 6), 5), ((4, 3), 1), ((6, 5), 5), ((10, 9), 2),
          ((6, 7), 1), ((8, 7), 5), ((4, 5), 1), ((8, 10), 3), ((1, 0), 3), ((7, 6), 2), ((3, 4), 1), ((7, 8), 5)]),
]


def large(n, count, s):
    """A seeded network on n nodes: (arcs, integer capacities); some arcs both ways, into the source or out of the sink."""
    rng = random.Random(1000 * n + s)
    arcs = [(i, i + 1) for i in range(n - 1)] if s % 2 else [(0, 1), (n - 2, n - 1)]
    while len(arcs) < count:
        i, j = rng.sample(range(n), 2)
        if rng.random() < 0.7 and i > j:
            i, j = j, i
        if (i, j) not in arcs and not (i == 0 and j == n - 1):
            arcs.append((i, j))
    rng.shuffle(arcs)
    return arcs, [rng.randint(0, 9) for _ in arcs]


def large_params(tier):
    out = []
    for n, count in [(8, 16), (9, 20), (11, 26)] + ([(11, 40)] if tier == "thorough" else []):
        for s in range(6 if tier == "thorough" else 3):
            arcs, caps = large(n, count, s)
            rng = random.Random(s + n)
            out.append({"n": n, "arcs": arcs, "caps": caps, "free": sorted(rng.sample(range(len(arcs)), 2)), "ends": [0, n - 1], "pool": ("words", "letters", "numbers")[s % 3], "fixed": []})
    for k, (n, net) in enumerate(DETOURS):
        arcs, caps = [list(a) for a, _ in net], [c for _, c in net]
        first = next(i for i, a in enumerate(arcs) if a[0] == 0)
        for free in ([first], [len(arcs) - 1 - k % 2, len(arcs) - 3]):
            out.append({"n": n, "arcs": arcs, "caps": caps, "free": free, "ends": [0, n - 1], "pool": ("words", "odd")[k % 2], "fixed": []})
    return out


def capacities(api, arcs, caps=None, free=()):
    return [api.real(f"c{k}", 0) if caps is None or k in free else caps[k] for k in range(len(arcs))]


def cases(method, tier):
    t = tier == "thorough"
    out = []
    for pool in ("letters", "words", "dashes", "numbers", "odd"):
        out.append({"name": f"2 nodes, {pool}", "fn": "flow", "params": {"method": method, "pool": pool, "n": 2, "arcs": None, "fixed": [], "ends": [0, 1]}, "opts": {"samples": 3}})
    for pool in ("words", "letters"):
        for f in range(8):
            for ends in ([0, 2], [1, 0]):
                out.append({"name": f"3 nodes, {pool} {f} {ends}", "fn": "flow", "params": {"method": method, "pool": pool, "n": 3, "arcs": None, "fixed": [f >> k & 1 for k in range(3)], "ends": ends},
                            "opts": {"samples": 3, "wall": 3000}})
    for k, (name, (n, arcs)) in enumerate(list(SHAPES.items()) + ([(k, v) for k, v in HEAVY.items() if t or method == "ford_fulkerson" or not k.startswith("undoing ")])):
        for pool in ("letters", "odd") if n < 5 else ("words",):
            out.append({"name": f"{name}, {pool}", "fn": "flow", "params": {"method": method, "pool": pool, "n": n, "arcs": arcs, "fixed": [], "ends": [0, n - 1]}, "opts": {"samples": 3, "wall": 3000}})
    for f in range(32):
        fx = [f >> k & 1 for k in range(5)]
        out.append({"name": f"4 nodes with few arcs {f}", "fn": "flow", "params": {"method": method, "pool": "words", "n": 4, "arcs": None, "fixed": fx, "ends": [0, 3], "most": (8 if t else 6) if method == "ford_fulkerson" else (6 if t else 5)},
                    "opts": {"samples": 3, "wall": 4000}})
    for k, pr in enumerate(large_params(tier)):
        out.append({"name": f"large {k}, {pr['n']} nodes, {len(pr['arcs'])} arcs", "fn": "flow", "params": dict(pr, method=method), "opts": {"samples": 3, "wall": 3000, "path_wall": 60, "max_decisions": 3000}})
    out.append({"name": "endpoints", "fn": "invalid", "params": {"method": method}, "opts": {"samples": 3}})
    return sorted(out, key=lambda c: -(c["params"].get("most") or 0) - 10 * (len(c["params"].get("arcs") or [])))


def flow(api, method, pool, n, arcs, fixed, ends, most=None, caps=None, free=()):
    names = G.DIPOOLS[pool][:n]
    arcs = [tuple(a) for a in arcs] if arcs is not None else arc_bits(api, n, fixed)
    api.assume(most is None or len(arcs) <= most)
    cap = capacities(api, arcs, caps, free)
    g = G.directed(api, names, arcs, cap)
    s, t = ends
    value, f = getattr(g, method)(names[s], names[t])
    key = {(names[i], names[j]): k for k, (i, j) in enumerate(arcs)}
    api.check(isinstance(f, dict) and set(f) == set(key), LABELS[0])
    x = [f[names[i], names[j]] for i, j in arcs]
    api.observe("value", value)
    api.check(api.And([api.And(api.ge(x[k], 0), api.le(x[k], cap[k])) for k in range(len(arcs))]), LABELS[0])
    net = lambda v: G.total(x[k] for k, a in enumerate(arcs) if a[0] == v) - G.total(x[k] for k, a in enumerate(arcs) if a[1] == v)
    api.check(api.And([api.eq(net(v), 0) for v in range(n) if v not in (s, t)]), LABELS[1])
    api.check(api.eq(value, net(s)), LABELS[2])
    out = lambda side: G.total(cap[k] for k, (i, j) in enumerate(arcs) if i in side and j not in side)
    if n > 7:                                          # the cut around what the flow leaves reachable
        side, grown = {s}, True
        while grown:
            grown = False
            for k, (i, j) in enumerate(arcs):
                for a, b, room in ((i, j, cap[k] - x[k]), (j, i, x[k])):
                    if a in side and b not in side and api.holds(api.gt(room, 0)):
                        side.add(b)
                        grown = True
        api.check(t not in side and api.holds(api.eq(value, out(side))), LABELS[3])
    else:
        rest = [v for v in range(n) if v not in (s, t)]
        alts = []
        for bits in range(2 ** len(rest)):
            alts.append(api.eq(value, out({s} | {rest[j] for j in range(len(rest)) if bits >> j & 1})))
        api.check(api.Or(alts), LABELS[3])
    api.check(set(g.arcs) == set(key) and set(g.nodes) == set(names), LABELS[5])
    rec = G.recorded(g, "_arcs")
    if rec is not None:
        api.check(api.And([api.eq(rec[a], cap[k]) for a, k in key.items()]), LABELS[5])


def invalid(api, method):
    names = G.DIPOOLS["words"][:3]
    arcs = [(0, 1), (1, 2)]
    g = G.directed(api, names, arcs, [api.real(f"c{k}", 0) for k in range(2)])
    ends = api.choice("ends", [(a, b) for a in names + ["q"] for b in names + ["q"] if a == b or "q" in (a, b)])
    r = api.call(getattr(g, method), *["".join(list(e)) for e in ends], raises=(ValueError,))
    api.check(r[0] == "raise", LABELS[4])
    api.check(len(g.arcs) == 2 and len(g.nodes) == 3, LABELS[5])
    api.observe("r", r[0])
