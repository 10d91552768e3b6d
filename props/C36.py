"""C36: the drawn polyhedron is the region of the constraints within the limit box."""
from props.lpcommon import *

LABELS = ["every drawn point is a corner of the region", "every corner of the region is drawn", "the polygon is closed and in angular order",
          "nothing is drawn only if the region is empty", "the program is unchanged", "other shapes raise ArithmeticError"]
NOTE = "corners are compared as sets; the order is judged by all corners lying on one side of every drawn edge"
BOUNDS = {"quick": "14 systems of one, two and three constant rows (parallel, opposite, zero, seeded rows; all <= and all >=) with symbolic right-hand sides, "
                   "and a symbolic limit for the one-row systems and one two-row system, otherwise 10 or -5; the default limit; systems of 5 and 8 rows with one symbolic right-hand side",
          "thorough": "32 systems, limits 1, 10, -5, 1000 and symbolic"}
SYS = {"1": [[1, 1]], "1n": [[-1, 2]], "1v": [[1, 0]], "1h": [[0, 3]], "2": [[1, 1], [1, -1]], "2p": [[1, 2], [2, 4]], "2o": [[1, 1], [-1, -1]],
       "2a": [[1, 0], [0, 1]], "2z": [[2, 1], [0, 0]], "2f": [[1, 3], [-2, 1]]}


def cases(tier, seed):
    import random
    rng = random.Random(int(seed) + 5)
    out = []
    sys_ = dict(SYS)
    for k in range(2 if tier == "quick" else 20):
        sys_[f"s{k}"] = [[rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(2)]
    if tier == "thorough":
        sys_["3"] = [[1, 1], [1, -1], [-1, 2]]
    if True:
        sys_["3b"] = [[1, 1], [-1, 0], [0, -1]]
    for k, A in sys_.items():
        for o in ("<=", ">="):
            if len(A) == 1:
                out.append({"name": f"{k} {A} {o} any limit", "fn": "draw", "params": {"A": A, "o": o, "limit": None}, "opts": {"samples": 6, "plot": True}})
            else:
                ls = [1, 10, -5, 1000, None] if tier == "thorough" and len(A) == 2 else [10, None] if k == "2" else [{"<=": 10, ">=": -5}[o]]
                for L in ls:
                    out.append({"name": f"{k} {A} {o} limit {L}", "fn": "draw", "params": {"A": A, "o": o, "limit": L}, "opts": {"samples": 6, "plot": True}})
    big = {"octagon": ([[1, 0], [1, 1], [0, 1], [-1, 1], [-1, 0], [-1, -1], [0, -1], [1, -1]], [4, 6, 4, 6, 4, 6, 4, 6]),
           "five": ([[2, 1], [1, 3], [-1, 1], [0, -1], [-2, -1]], [8, 9, 3, 2, 5])}
    for k, (A, b) in big.items():
        for o in ("<=", ">="):
            for i in range(len(A)) if tier == "thorough" else (1, 4, len(A) - 1) if k == "octagon" else (0, 3):
                Ao, bo = (A, b) if o == "<=" else ([[-v for v in r] for r in A], [-v for v in b])
                out.append({"name": f"{k} {o}, side {i} any", "fn": "draw", "params": {"A": Ao, "o": o, "limit": 10 if i % 2 else 5, "b": bo, "free": i},
                            "opts": {"samples": 4, "plot": True, "path_wall": 30}})
    for o in ("<=", ">="):
        out.append({"name": f"default limit {o}", "fn": "draw", "params": {"A": [[1, -1]], "o": o, "limit": "default"}, "opts": {"samples": 6, "plot": True}})
    out.append({"name": "other shapes", "fn": "shapes", "params": {}, "opts": {"plot": True}})
    return out


def draw(api, A, o, limit, b=None, free=None):
    m = len(A)
    b = api.vec("b", m) if b is None else api.array([api.real("side") if i == free else v for i, v in enumerate(b)])
    z = api.real("z")
    p = make(api, api.array(flt(A)), b, api.vec("c", 2), z, "max", [o] * m)
    before = snapshot(p)
    L = api.real("L") if limit is None else 1000 if limit == "default" else limit
    aL = L if (limit is not None and L >= 0) or (limit is None and api.holds(api.ge(L, 0))) else -L
    tag, _ = api.call(p.graph_polyhedron, *([] if limit == "default" else [L]), raises=(SystemExit,))
    api.check(same_program(api, before, snapshot(p)), "the program is unchanged")
    # the region, as rows (a, b) . x <= r
    R = [((fr(r[0]), fr(r[1])), b[i]) if o == "<=" else ((fr(-r[0]), fr(-r[1])), -b[i]) for i, r in enumerate(A)]
    R += [((1, 0), aL), ((-1, 0), aL), ((0, 1), aL), ((0, -1), aL)]
    inside = lambda x, y: api.And([api.le(a[0] * x + a[1] * y, r) for a, r in R])
    corners = []
    for (a, r), (d, s) in itertools.combinations(R, 2):
        D = a[0] * d[1] - a[1] * d[0]
        if D != 0:
            q = Fraction(1, 1) / D
            q = fr(q) if api.symbolic else float(q)
            corners.append(((r * d[1] - a[1] * s) * q, (a[0] * s - r * d[0]) * q))
    calls = [c for c in api.plot_calls() if c[0] == "plot"] or [c for c in api.plot_calls() if c[0] == "fill"]
    if not calls:
        api.check(tag == "raise" or not corners, "nothing is drawn only if the region is empty")
        api.check(api.And([api.Not(inside(*c)) for c in corners]), "nothing is drawn only if the region is empty")
        return
    xs, ys = calls[-1][1][0], calls[-1][1][1]
    pts = list(zip(list(xs), list(ys)))
    for fc in [c for c in api.plot_calls() if c[0] == "fill"]:
        api.check(api.And([api.And(api.eq(u, x), api.eq(v, y)) for u, v, (x, y) in zip(list(fc[1][0]), list(fc[1][1]), pts)]), "every drawn point is a corner of the region")
    api.check(len(pts) >= 2 and len(list(xs)) == len(list(ys)), "the polygon is closed and in angular order")
    api.check(api.And(api.eq(pts[0][0], pts[-1][0]), api.eq(pts[0][1], pts[-1][1])), "the polygon is closed and in angular order")
    for x, y in pts[:-1]:
        api.check(inside(x, y), "every drawn point is a corner of the region")
        api.check(api.Or([api.And(api.eq(x, u), api.eq(y, v)) for u, v in corners]), "every drawn point is a corner of the region")
    for u, v in corners:
        api.check(api.Or(api.Not(inside(u, v)), api.Or([api.And(api.eq(x, u), api.eq(y, v)) for x, y in pts])), "every corner of the region is drawn")
    sides = []
    for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
        for x, y in pts:
            sides.append((x1 - x0) * (y - y0) - (y1 - y0) * (x - x0))
    api.check(api.Or(api.And([api.ge(s, 0) for s in sides]), api.And([api.le(s, 0) for s in sides])), "the polygon is closed and in angular order")
    api.observe("n", len(pts))


def shapes(api):
    k = api.choice("k", ["three columns", "one column", "equality", "mixed", "one equality"])
    A = {"three columns": [[1, 1, 1]], "one column": [[1]], "equality": [[1, 1]], "mixed": [[1, 1], [1, 0]], "one equality": [[1, 1], [1, 0]]}[k]
    ops = {"three columns": ["<="], "one column": ["<="], "equality": ["="], "mixed": api.choice("o", [["<=", ">="], [">=", "<="]]),
           "one equality": api.choice("o", [["<=", "="], ["=", ">="]])}[k]
    p = make(api, api.array(flt(A)), api.vec("b", len(A)), api.vec("c", len(A[0])), 0, "max", ops)
    before = snapshot(p)
    tag, _ = api.call(p.graph_polyhedron, 10, raises=(ArithmeticError,))
    api.check(tag == "raise" and not api.plot_calls(), "other shapes raise ArithmeticError")
    api.check(same_program(api, before, snapshot(p)), "the program is unchanged")
