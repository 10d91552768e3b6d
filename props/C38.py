"""C38: random programs are always well formed."""
from props.lpcommon import *

LABELS = ["requested size", "objective and operators are valid", "every variable has one sign restriction",
          "entries within the requested magnitude", "the program is usable"]
BOUNDS = {"quick": "every outcome of the random source for sizes up to 2x3 and 3x2, magnitudes symbolic in 0..1000 for one entry and 100, 1, 0.37, 0 otherwise; the default size, 1x12, 12x1 and 7x9 with 3 free choices of the random source",
          "thorough": "the same up to 3x3 and 1x4"}


def cases(tier, seed):
    out = []
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 2)] + ([(1, 4), (3, 3)] if tier == "thorough" else [])
    for m, n in sizes:
        for mag in ([100, 1, 0.37, 0] if (m, n) == (1, 1) else [100] if m * n > 3 else [100, 0.37]):
            out.append({"name": f"{m}x{n} magnitude {mag}", "fn": "run", "params": {"m": m, "n": n, "mag": mag}, "opts": {"random": True, "samples": 4}})
    for m, n, how in [(4, 6, "default"), (1, 12, "args"), (12, 1, "args"), (7, 9, "args")]:
        k = m + n + 2
        for s in range(3 if tier == "quick" else 8):
            out.append({"name": f"{m}x{n} {how}, some choices {s}", "fn": "larger", "params": {"m": m, "n": n, "how": how, "s": s, "free": sorted({(s * 3 + j) % k for j in (0, 4, 5)})},
                        "opts": {"random": True, "samples": 3, "path_wall": 30}})
    out.append({"name": "1x1 any magnitude", "fn": "run", "params": {"m": 1, "n": 1, "mag": None}, "opts": {"random": True, "samples": 8}})
    return out


def larger(api, m, n, how, s, free):
    api.some_choices(free, lambda k, q: (k * (s + 1) + s) % q)
    judge(api, lp(api).random() if how == "default" else lp(api).random(m, n, 50), m, n, 100 if how == "default" else 50)


def run(api, m, n, mag):
    M = api.real("mag", 0, 1000) if mag is None else mag
    judge(api, lp(api).random(m, n, M), m, n, M)


def judge(api, p, m, n, M):
    api.check(p.A.shape == (m, n) and len(p.b) == m and len(p.c) == n, "requested size")
    api.check(p.objective in ("max", "min") and len(p.inequalities) == m and all(o in OPS for o in p.inequalities),
              "objective and operators are valid")
    f, g, h = list(p.free_variables), list(p.negative_variables), list(p.positive_variables)
    api.check(sorted(f + g + h) == list(range(1, n + 1)), "every variable has one sign restriction")
    api.observe("shape", [p.objective, list(p.inequalities), f, g, h])
    cents = 0.005 if not api.symbolic else Fraction(1, 200)
    for v in [x for r in rows(p.A) for x in r] + lst(p.b) + lst(p.c) + [p.z]:
        api.check(api.And(api.le(v, M + cents), api.ge(v, -M - cents)), "entries within the requested magnitude")
    api.check(bool(p.is_sef) == (p.objective == "max" and all(o == "=" for o in p.inequalities) and not f and not g), "the program is usable")
