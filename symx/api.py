"""The interface harnesses are written against, in a concrete version (replay on the real
code).  No solver import here: this file also runs under the repository's own interpreter."""
import importlib
import math
import re


# every ASCII character, then one of every other class that character predicates distinguish:
# decimal digits of another script, a letter, a digit and a number that are not decimal, spaces, others
ALPHABET = ("".join(chr(i) for i in range(128)) + "".join(chr(0x660 + i) for i in range(10)) +
            "\u00e9\u00b2\u00bd\u3000\x85\u2192\u2212")


NUMBER = r"([-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?)"


def flat_numbers(v):
    """The entries of nested lists, tuples and arrays, in order."""
    if isinstance(v, (list, tuple)) or getattr(v, "shape", ()):
        return [x for r in v for x in flat_numbers(r)]
    return [v]


class Violation(Exception):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


class SkipCase(BaseException):
    """An assumption does not hold for these inputs."""


def _num(x):
    try:
        return float(x)
    except TypeError:
        return x


class Concrete:
    """Runs a harness on the real code with concrete inputs; three-valued comparisons so that
    rounding never decides."""
    symbolic = False

    def __init__(self, values, tol=1e-6):
        self.values = values
        self.tol = tol
        self.observed = []
        self.labels = []
        self.skipped_inputs = []
        self.failures = []
        self._rand = 0

    # -- inputs
    def _val(self, name, default=0):
        if name not in self.values:
            self.skipped_inputs.append(name)
            return default
        v = self.values[name]
        if isinstance(v, str):
            if "/" in v:
                a, b = v.split("/")
                return int(a) / int(b)
            if "." in v or "e" in v:
                return float(v)
            return int(v)
        return v

    def real(self, name, lo=None, hi=None):
        return float(self._val(name, lo if lo is not None else 0))

    def int(self, name, lo=None, hi=None):
        return int(self._val(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def vec(self, name, n, **k):
        import numpy as np
        return np.array([self.real(f"{name}{i}", **k) for i in range(n)], dtype=float)

    def mat(self, name, m, n, **k):
        import numpy as np
        return np.array([[self.real(f"{name}{i}_{j}", **k) for j in range(n)] for i in range(m)],
                        dtype=float).reshape(m, n)

    def array(self, x):
        import numpy as np
        return np.array(x, dtype=float)

    def num(self, x):
        return float(x)

    def text(self, name, n, like=None):
        """A text of n arbitrary characters, or a given one with arbitrary characters for its question marks."""
        if like is not None:
            return "".join(ALPHABET[self.int(f"{name}{i}")] if c == "?" else c for i, c in enumerate(like))
        return "".join(ALPHABET[self.int(f"{name}{i}")] for i in range(n))

    def char_is(self, text, i, kind):
        """kind: word, digit, space, or the characters allowed."""
        c = text[i]
        return char_kind(kind)(c)

    def digit(self, text, i):
        """Value of a character that is a decimal digit."""
        return int(text[i]) if text[i].isdecimal() else 0

    def chars(self, text):
        """Its characters; a digit that depends on the inputs as the digit's value."""
        return list(text)

    def same_text(self, a, b):
        return isinstance(a, str) and a == b

    def define(self, c):
        return c

    def mod(self, name):
        return importlib.import_module(name)

    def name(self, ident):
        return ident

    def fun(self, name, *args):
        """An arbitrary function value: looked up in the recorded table."""
        raise NotImplementedError

    # -- conditions (True / False / None = too close to call)
    def _tol(self, a, b):
        return self.tol * max(1.0, abs(a), abs(b))

    def eq(self, a, b):
        a, b = _num(a), _num(b)
        if isinstance(a, float) and isinstance(b, float):
            if a == b:
                return True
            if a != a or b != b or math.isinf(a) or math.isinf(b):
                return False
            return abs(a - b) <= self._tol(a, b)
        return bool(a == b)

    def ne(self, a, b):
        return self.Not(self.eq(a, b))

    def lt(self, a, b):
        a, b = _num(a), _num(b)
        if a == b:
            return False
        if a != a or b != b:
            return False
        if math.isinf(a) or math.isinf(b):
            return a < b
        if abs(a - b) <= self._tol(a, b):
            return None if self.tol else a < b
        return a < b

    def le(self, a, b):
        return self.Not(self.lt(b, a)) if not (_num(a) != _num(a) or _num(b) != _num(b)) else False

    def gt(self, a, b):
        return self.lt(b, a)

    def ge(self, a, b):
        return self.le(b, a)

    def truth(self, x):
        return bool(x)

    def Not(self, a):
        return None if a is None else not a

    def And(self, *cs):
        cs = _flat(cs)
        if any(c is False for c in cs):
            return False
        return None if any(c is None for c in cs) else True

    def Or(self, *cs):
        cs = _flat(cs)
        if any(c is True for c in cs):
            return True
        return None if any(c is None for c in cs) else False

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        if a is None or b is None:
            return None
        return a == b

    def is_int(self, x):
        r = abs(_num(x) - round(_num(x)))
        return True if r <= 1e-7 else (None if r < 1e-5 else False)

    def unsure(self, c):
        """In a replay: the condition could not be decided within rounding."""
        return c is None

    def holds(self, c):
        """Branch of the harness on a condition."""
        return bool(c) if c is not None else True

    # -- effects
    def assume(self, c):
        if c is False:
            raise SkipCase()

    def check(self, c, label):
        self.labels.append(label)
        if c is False:
            raise Violation(label)

    def fail(self, label, detail=""):
        raise Violation(label, detail)

    def call(self, fn, *args, raises=(), **kw):
        """("ok", value) or ("raise", exception) for the listed exception types."""
        try:
            return "ok", fn(*args, **kw)
        except raises as e:
            return "raise", e

    def observe(self, name, value):
        self.observed.append([name, encode(value)])

    def detail(self, **kw):
        pass

    def as_float(self, x):
        return float(x)

    # -- randomness of the code under test
    def install_random(self):
        import random
        import numpy as np
        api = self

        def nxt(default=0):
            n = api._rand
            api._rand += 1
            return api._val(f"rand{n}", default)

        def fill(size, f):
            if size is None:
                return f()
            a = np.empty(size)
            fl = a.reshape(-1)
            for i in range(fl.shape[0]):
                fl[i] = f()
            return a

        def idx(n):
            return min(max(int(nxt()), 0), n - 1)

        random.random = lambda: float(nxt())
        random.uniform = lambda a, b: float(nxt(a))
        random.choice = lambda s: s[idx(len(s))]
        random.randint = lambda a, b: a + idx(b - a + 1)
        random.randrange = lambda a, b=None: idx(a) if b is None else a + idx(b - a)

        def shuffle(l):
            for i in range(len(l) - 1, 0, -1):
                j = idx(i + 1)
                l[i], l[j] = l[j], l[i]

        def sample(p, k, **kw):
            p = list(p)
            return [p.pop(idx(len(p))) for _ in range(k)]

        random.shuffle = shuffle
        random.sample = sample
        random.choices = lambda p, k=1, **kw: [p[idx(len(p))] for _ in range(k)]
        np.random.uniform = lambda low=0.0, high=1.0, size=None: fill(size, lambda: float(nxt(low)))
        np.random.rand = lambda *s: fill(s or None, lambda: float(nxt()))
        np.random.random = lambda size=None: fill(size, lambda: float(nxt()))
        np.random.choice = lambda a, size=None: a[idx(len(a))]

    def shows(self, text, values):
        """Whether the numbers shown in a text are these, in order, as closely as arrays are printed."""
        got = [float(x) for x in re.findall(NUMBER, text)]
        want = [float(x) for x in flat_numbers(values)]
        if len(got) != len(want):
            return False
        return all(abs(u - v) <= 1e-6 * max(1, abs(v)) for u, v in zip(got, want))

    def some_choices(self, free, pattern):
        pass

    def plot_calls(self):
        return self._plot

    def install_plot(self):
        import matplotlib
        matplotlib.use("Agg")
        from matplotlib import pyplot as plt
        calls = self._plot = []
        for n in ("figure", "plot", "grid", "fill", "show", "scatter", "xlim", "ylim", "axis"):
            setattr(plt, n, (lambda n: lambda *a, **k: calls.append((n, a, k)))(n))


def char_kind(kind):
    return {"word": lambda c: c.isalnum() or c == "_", "digit": str.isdecimal, "space": str.isspace}.get(
        kind, lambda c: c in kind)


def _flat(cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)) or hasattr(c, "__next__"):
            out.extend(_flat(list(c)))
        else:
            out.append(c)
    return out


def encode(v):
    """JSON form of an observed value (numbers as floats)."""
    if v is None or isinstance(v, (str, bool)):
        return v
    if type(v).__name__ in ("bool_", "bool"):
        return bool(v)
    if isinstance(v, (list, tuple)):
        return [encode(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((encode(x) for x in v), key=str)
    if isinstance(v, dict):
        return sorted(([encode(k), encode(x)] for k, x in v.items()), key=str)
    if hasattr(v, "tolist"):
        return encode(v.tolist())
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


def same(a, b, tol=1e-6):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b:
            return True
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b
