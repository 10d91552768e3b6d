"""Self test of the symbolic values against exact arithmetic (part of setup)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction
from symx import engine as E
from symx.engine import Sym


def explore(f):
    c = E.Context()
    out = []
    c.explore(f, on_path=lambda k, v: out.append((k, v)))
    return sorted(map(str, out)), c


def t1():
    c = E.CTX()
    x, y = c.named("x"), c.named("y")
    assert ((x + y) * (x - y) - x * x + y * y).k == 0
    assert ((x * x - y * y) / (x - y) - x - y).k == 0 if bool(x != y) else True
    f = E.floor(x)
    if bool(x >= f + 1) or bool(x < f):
        return "bad floor"
    if bool(abs(x) < 1e-10):
        return "zero" if bool(x == 0) else "bad tolerance"
    return "neg" if bool(x < 0) else "pos"


r, c = explore(t1)
names = {x.split("'")[3] for x in r}
assert names == {"zero", "neg", "pos"}, r
assert E._norm(Sym.const(Fraction(1, 3)).k * 3) == 1
print("engine self test ok")

import random
from symx import symfmt as F
r = random.Random(1)
for _ in range(500):
    k = r.randint(0, 10 ** r.randint(1, 8))
    k += str(k).rstrip("0")[-1:] == "5"            # exact ties are decided by the rounding of the machine number
    x = Fraction(r.choice([1, -1]) * k, 10 ** r.randint(0, 9)) if k else Fraction(0)
    for s in ("", ".6", ".3", ".1", ".2e", ".4f", "g", ".3g", "#.3g", ">12.3f", "<9.2", "+.3", "08.2f", "^14.3e", ".0f", ".1%", "E", "G"):
        try:
            got = F.fmt(Sym.const(x), s)
        except E.Unsupported:
            continue
        assert (got if isinstance(got, str) else "".join(got.c)) == format(float(x), s), (x, s, got)
print("number texts self test ok")
