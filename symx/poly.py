"""Exact multivariate polynomials / rational functions over Q in symbolic variables.

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of variable
indices (with repetition); the empty tuple is the constant monomial.  No zero coefficients.
"""
from fractions import Fraction

ONE = {(): 1}


def padd(a, b, s=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c if s == 1 else c * s
        else:
            v = v + c * s
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return pscale(b, a[()])
    if len(b) == 1 and () in b:
        return pscale(a, b[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else m1 + m2
            v = r.get(m)
            if v is None:
                r[m] = c1 * c2
            else:
                v = v + c1 * c2
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
    return r


def pconst(a):
    """The constant value of a, or None if a is not constant."""
    if not a:
        return 0
    if len(a) == 1:
        return a.get(())
    return None


def peval(a, val):
    t = 0
    for m, c in a.items():
        for v in m:
            x = val.get(v)
            if x is None:
                return None
            c = c * x
        t = t + c
    return t


def pvars(a):
    s = set()
    for m in a:
        s.update(m)
    return s


def pkey(a):
    return frozenset(a.items())


def _lead(a):
    return max(a)


def pdivexact(a, b):
    """a / b if exact (single pass of multivariate division), else None."""
    q = {}
    lb = max(b, key=lambda m: (len(m), m))
    cb = b[lb]
    r = a
    steps = 0
    while r:
        steps += 1
        if steps > 200:
            return None
        lr = max(r, key=lambda m: (len(m), m))
        m = list(lr)
        try:
            for v in lb:
                m.remove(v)
        except ValueError:
            return None
        m = tuple(m)
        k = Fraction(r[lr]) / cb
        q[m] = q.get(m, 0) + k
        r = padd(r, pmul({m: k}, b), -1)
    return {m: c for m, c in q.items() if c != 0}


_rings = {}


def cancel(n, d):
    """Reduce the fraction n/d; returns (n, d) with d None when constant."""
    k = pconst(d)
    if k is not None:
        return (pscale(n, Fraction(1) / k), None)
    if not n:
        return ({}, None)
    q = pdivexact(n, d)
    if q is not None:
        return (q, None)
    kn = pconst(n)
    if kn is None:
        q = pdivexact(d, n)
        if q is not None:
            n, d = {(): 1}, q
        elif len(n) * len(d) <= 2500:
            n, d = _sympy_cancel(n, d)
            k = pconst(d)
            if k is not None:
                return (pscale(n, Fraction(1) / k), None)
    # normalise: leading coefficient of d is 1
    lc = d[max(d, key=lambda m: (len(m), m))]
    if lc != 1:
        inv = Fraction(1) / lc
        n, d = pscale(n, inv), pscale(d, inv)
    return (n, d)


def _sympy_cancel(n, d):
    from sympy.polys.rings import PolyRing
    from sympy import QQ
    vs = sorted(pvars(n) | pvars(d))
    key = tuple(vs)
    R = _rings.get(key)
    if R is None:
        R = _rings[key] = PolyRing([f"v{i}" for i in vs], QQ)
    pos = {v: i for i, v in enumerate(vs)}

    def conv(p):
        t = {}
        for m, c in p.items():
            e = [0] * len(vs)
            for v in m:
                e[pos[v]] += 1
            c = Fraction(c)
            t[tuple(e)] = QQ(c.numerator, c.denominator)
        return R.from_dict(t)

    def back(p):
        t = {}
        for e, c in p.items():
            m = []
            for i, k in enumerate(e):
                m.extend([vs[i]] * k)
            t[tuple(m)] = Fraction(int(c.numerator), int(c.denominator))
        return t

    a, b = conv(n).cancel(conv(d))
    return back(a), back(b)
