"""C42: the printed complementary slackness conditions are those of the program."""
from props.lpcommon import *
from props.C39 import Num, plain, read, rotated, split, words

TEXTS = True
LABELS = ["one condition per inequality and per restricted variable", "constraint conditions", "variable conditions"]
BOUNDS = {"quick": "every operator, sign and objective pattern up to 2x2 and a rotating selection of 2x3, with every number up to 10 "
                   "with 2 decimals in one place (each place in turn); 1x2 with numbers "
                   "up to 10^5 with 4 decimals, every sign pattern; 6 patterns of 1x12 and 11x2",
          "thorough": "every pattern up to 2x3, numbers up to 1000 with 3 decimals; 1x2 with numbers up to 10^5 with 5 decimals"}
NOTE = "Numbers are read back exactly; the order of the conditions is free."
SUB = {c: i for i, c in enumerate("₀₁₂₃₄₅₆₇₈₉")}


def cases(tier, seed):
    t = tier == "thorough"
    out, k = [], 0
    for m, n in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)]:
        for o in ("max", "min"):
            for place in ("A", "b", "c"):
                k += 1
                if m * n == 6 and not t and (k + seed) % 2:
                    continue
                out.append({"name": f"{m}x{n} {o} number in {place}", "fn": "conditions",
                            "params": {"m": m, "n": n, "o": o, "place": place, "k": k, "digits": 3 if t else 2, "top": 1000 if t else 10,
                                       "fixed": m * n == 6 and not t},
                            "opts": {"samples": 4, "tol": 1e-12, "max_decisions": 2000}})
    for m, n in [(1, 12), (11, 2)]:
        for k in range(6):
            out.append({"name": f"wide {m}x{n} {k}", "fn": "conditions", "params": {"m": m, "n": n, "o": ("max", "min")[k % 2], "place": "Abc"[k % 3], "k": k, "digits": 1, "top": 10, "fixed": k},
                        "opts": {"samples": 2, "tol": 1e-12, "max_decisions": 2000}})
    for i, place in enumerate(("A", "b", "c")):
        out.append({"name": f"1x2 long number in {place}", "fn": "conditions",
                    "params": {"m": 1, "n": 2, "o": ("max", "min")[(i + seed) % 2], "place": place, "k": i, "digits": 4 + t, "top": 10 ** 5,
                               "fixed": False},
                    "opts": {"samples": 4, "tol": 1e-12, "max_decisions": 2000}})
    return out


def name(c):
    """Letter and index of a variable, or None."""
    s = plain(c)
    if len(s) < 2 or s[0] not in "xy" or any(x not in SUB for x in s[1:]):
        return None
    return s[0], int("".join(str(SUB[x]) for x in s[1:]))


def equation(text):
    """{(letter, index): number}, right side; or None."""
    sides = split(text, "=")
    if len(sides) != 2:
        return None
    out = {}
    for k, w in enumerate(words(sides[0])):
        if k % 2:
            if plain(w) != "+":
                return None
            continue
        cut = next((i for i, c in enumerate(w) if c in ("x", "y")), None)
        v = name(w[cut:]) if cut is not None else None
        if v is None or v in out:
            return None
        out[v] = read(w[:cut])
    r = words(sides[1])
    return (out, read(r[0])) if len(r) == 1 else None


def same(api, got, x):
    """The number read is exactly x."""
    if got is None:
        return False
    n, e = got
    s = max(0, -(e + x.g))
    return api.eq(n * 10 ** (e + x.g + s), x.sign * x.size * 10 ** s)


def conditions(api, m, n, o, place, k, digits, top, fixed):
    A = [[Num((5 * i + 3 * j) % 7 + 1, j % 3, 1 - 2 * ((i + j) % 2)) for j in range(n)] for i in range(m)]
    b = [Num(i + 2, 1, 1 - 2 * (i % 2)) for i in range(m)]
    c = [Num(3 * j + 4, 0, 2 * (j % 2) - 1) for j in range(n)]
    x = Num(api.int("k", 0, top * 10 ** digits), digits, api.choice("sign", [1, -1]))
    if place == "A":
        A[(k // 3) % m][n - 1] = x
    else:
        (b if place == "b" else c)[-1] = x
    ops = [OPS[(k + i) % 3] if fixed is not False else api.choice(f"op{i}", OPS) for i in range(m)]
    signs = [api.choice(f"sign{j}", SIGNS) if fixed in (True, False) and n < 4 else "pos" for j in range(n)]
    if fixed is not True and fixed is not False:
        ops, signs = rotated(fixed, m, OPS), rotated(fixed, n, SIGNS)
    p = make(api, api.array([[t.v() for t in r] for r in A]), api.array([t.v() for t in b]), api.array([t.v() for t in c]), 0, o, ops, signs)
    text = p.cs_conditions()
    want = {("y", i + 1): ([(("x", j + 1), A[i][j]) for j in range(n)], b[i]) for i in range(m) if ops[i] != "="}
    want.update({("x", j + 1): ([(("y", i + 1), A[i][j]) for i in range(m)], c[j]) for j in range(n) if signs[j] != "free"})
    lines = [l for l in split(api.chars(text), "\n") if l]
    api.check(len(lines) == len(want), "one condition per inequality and per restricted variable")
    seen = set()
    for l in lines:
        i = next((i for i in range(len(l) - 1) if l[i] == "|" and l[i + 1] == "|"), None)
        api.check(i is not None, "one condition per inequality and per restricted variable")
        left, eq = words(l[:i]), equation(l[i + 2:])
        v = name(left[0]) if len(left) == 3 and plain(left[1]) == "=" and plain(left[2]) == "0" else None
        api.check(v in want and v not in seen, "one condition per inequality and per restricted variable")
        seen.add(v)
        label = "constraint conditions" if v[0] == "y" else "variable conditions"
        terms, rhs = want[v]
        api.check(eq is not None and set(eq[0]) == {t for t, _ in terms}, label)
        api.check(api.And([same(api, eq[0][t], q) for t, q in terms] + [same(api, eq[1], rhs)]), label)
