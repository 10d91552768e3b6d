"""C35: the linear parser reads exactly the terms written and rejects others."""
from props.C34 import shown, value

LABELS = ["recognised exactly when well formed", "accepted exactly when well formed with legal indices",
          "a one-row vector of the right length", "coefficient as written", "zero elsewhere"]
BOUNDS = {"quick": "all texts of up to 9 characters over ASCII and one representative of every other class that Python's character predicates distinguish, indices up to 12, with no size and sizes 1, 2, 3 and 12 (the greatest length: no size and 2) (recognition alone: all texts of up to 14); 6 long texts of 3 to 10 terms with two arbitrary characters, indices up to 130",
          "thorough": "the same up to 11 characters (recognition: 18)"}
LONG = [("12.345678x_1+0.000?23x_12-1?0x_3", [None, 12, 11]), ("1x_1+2x_2+3x_3+4x_4+5x_5-6x_6+7x_7+8x_8+9x_9-10.5x_1?", [None, 10, 20]),
        ("-123456789x_?1-5x_?+4x_7", [None, 9]), ("0.5x_10?-3x_100?2.25x_99", [None, 104]), ("7x_12+8x_1?+9x_2?-1x_21", [None, 25]), ("-1.5x_3?+12x_2-3?5x_1", [None, 40])]


def cases(tier, seed):
    n, m = (14, 9) if tier == "quick" else (18, 11)
    out = [{"name": f"recognition of texts of {k}", "fn": "recognise", "params": {"n": k}, "opts": {"samples": 12}} for k in range(n + 1)]
    for k in range(m + 1):
        for size in (None, 1, 2, 3, 12) if k < m else (None, 2):
            out.append({"name": f"texts of {k}, size {size}", "fn": "parse", "params": {"n": k, "size": size}, "opts": {"samples": 12}})
    for k, (like, sizes) in enumerate(LONG):
        out.append({"name": f"recognition of a long text {k}", "fn": "recognise", "params": {"n": len(like), "like": like}, "opts": {"samples": 8, "path_wall": 30, "max_decisions": 3000}})
        for size in sizes:
            out.append({"name": f"a long text {k}, size {size}", "fn": "parse", "params": {"n": len(like), "size": size, "like": like, "limit": 130},
                        "opts": {"samples": 8, "path_wall": 60, "max_decisions": 6000}})
    return out


def parser(api):
    return api.mod("pytimize.parsers").LinearParser


def run(api, t, i, j, kind, memo):
    if j <= i:
        return False
    key = (i, j, kind)
    if key not in memo:
        c = api.char_is(t, j - 1, kind)
        memo[key] = c if j == i + 1 else api.define(api.And(run(api, t, i, j - 1, kind, memo), c))
    return memo[key]


def well_formed(api, t, n):
    """[-] number x_ digits, joined by + or -."""
    memo = {}
    is_ = lambda i, k: i < n and api.char_is(t, i, k)
    numbers = {}

    def number(i):
        if i not in numbers:
            out = {}
            for j in range(i + 1, n + 1):
                alt = [run(api, t, i, j, "digit", memo)]
                alt += [api.And(run(api, t, i, p, "digit", memo), is_(p, "."), run(api, t, p + 1, j, "digit", memo)) for p in range(i + 1, j - 1)]
                out[j] = api.define(api.Or(alt))
            numbers[i] = out
        return numbers[i]

    start = {0: [True], 1: [is_(0, "-")]} if n else {}
    whole = []
    for i in range(n):
        if i not in start:
            continue
        s = api.define(api.Or(start[i]))
        for p, c in number(i).items():
            if p + 2 >= n:
                continue
            head = api.define(api.And(s, c, is_(p, "x"), is_(p + 1, "_")))
            for q in range(p + 3, n + 1):
                term = api.And(head, run(api, t, p + 2, q, "digit", memo))
                if q == n:
                    whole.append(term)
                else:
                    start.setdefault(q + 1, []).append(api.And(term, is_(q, "+-")))
    return api.define(api.Or(whole)) if whole else False


def recognise(api, n, like=None):
    t = api.text("t", n, like)
    tag, r = api.call(parser(api).validate_expression, t)
    api.observe("recognised", tag)
    if tag != "ok":
        api.fail("recognised exactly when well formed", "raised")
    api.check(api.Iff(well_formed(api, t, n), bool(r)), "recognised exactly when well formed")


def terms(api, t, n):
    """The terms of a well-formed text: sign, span of the number, span of the index."""
    out, i = [], 0

    def stop(j, kind):
        while j < n and api.holds(api.char_is(t, j, kind)):
            j += 1
        return j

    while i < n:
        neg = False
        if api.holds(api.char_is(t, i, "+-")):
            neg = api.holds(api.char_is(t, i, "-"))
            i += 1
        e = dot = stop(i, "digit")
        if e < n and api.holds(api.char_is(t, e, ".")):
            e = stop(e + 1, "digit")
        j = stop(e + 2, "digit")
        out.append((neg, (i, dot, e), (e + 2, j)))
        i = j
    return out


def parse(api, n, size, like=None, limit=12):
    t = api.text("t", n, like)
    wf = well_formed(api, t, n)
    if not api.holds(wf):
        tag, r = api.call(parser(api).parse, t, *([] if size is None else [size]), raises=(Exception,))
        api.observe("outcome", tag)
        api.check(tag == "raise", "accepted exactly when well formed with legal indices")
        return
    ts = terms(api, t, n)
    ks = []
    for _, _, (i, j) in ts:
        k = value(api, t, i, j, j)
        api.assume(api.le(k, limit))
        ks.append(next(v for v in range(limit + 1) if api.holds(api.eq(k, v))))
    legal = len(set(ks)) == len(ks) and min(ks) >= 1 and (size is None or max(ks) <= size)
    tag, r = api.call(parser(api).parse, t, *([] if size is None else [size]), raises=(Exception,))
    api.observe("outcome", tag)
    api.check((tag == "ok") == legal, "accepted exactly when well formed with legal indices")
    if tag != "ok":
        return
    length = size if size is not None else max(ks)
    api.check(tuple(r.shape) == (1, length), "a one-row vector of the right length")
    for k in range(length):
        if k + 1 in ks:
            neg, span, _ = ts[ks.index(k + 1)]
            v = value(api, t, *span)
            api.check(shown(api, r[0, k], -v if neg else v), "coefficient as written")
        else:
            api.check(api.eq(r[0, k], 0), "zero elsewhere")
