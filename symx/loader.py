"""Loads /repo's pytimize for symbolic execution: the real source files, with numbers, numpy,
math, random and matplotlib replaced by symbolic stand-ins."""
import ast
import builtins
import importlib.abc
import importlib.util
import math as _math
import os
import sys
import types

from . import engine as E
from . import symfmt as SF
from . import symstr as SS
from .engine import CTX, Sym, SymBool, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


# ---------------------------------------------------------------- float / int
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, Sym))

    def __subclasscheck__(cls, o):
        return issubclass(o, (float, Sym))

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return float(bool(x))
        if hasattr(x, "_sym_float_value"):
            return x._sym_float_value()
        return float(x)

    def __eq__(cls, o):
        return o is float or o is cls or (isinstance(o, type) and issubclass(o, Sym))

    def __hash__(cls):
        return hash(float)


class SymFloat(float, metaclass=_FloatMeta):
    _sym_float = True


SymFloat.__name__ = "float"


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __subclasscheck__(cls, o):
        return issubclass(o, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym):
            return E.trunc(x) if x.res().k is None else int(x)
        if isinstance(x, SymBool):
            return int(bool(x))
        if hasattr(x, "_sym_int_value"):
            return x._sym_int_value()
        return int(x, *a)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class SymInt(int, metaclass=_IntMeta):
    _sym_int = True


SymInt.__name__ = "int"


# ---------------------------------------------------------------- str
class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (str, SS.SymStr))

    def __subclasscheck__(cls, o):
        return issubclass(o, (str, SS.SymStr))

    def __call__(cls, *a):
        return SF.text(a[0]) if len(a) == 1 and isinstance(a[0], (SS.SymStr, Sym)) else str(*a)

    def __eq__(cls, o):
        return o is str or o is cls or o is SS.SymStr

    def __hash__(cls):
        return hash(str)


class SymText(str, metaclass=_StrMeta):
    pass


SymText.__name__ = "str"


class _TextOps(ast.NodeTransformer):
    """Operations of built-in strings that a symbolic text cannot intercept."""

    def _call(self, node, name, args):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), args, []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and not node.keywords:
            return self._call(node, "__text_join__", [f.value] + node.args)
        if isinstance(f, ast.Attribute) and f.attr == "format":
            return ast.copy_location(ast.Call(ast.Name("__text_str_format__", ast.Load()), [f.value] + node.args, node.keywords), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call(node, "__text_percent__", [node.left, node.right])
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            v = self._call(node, "__text_percent__", [ast.Name(node.target.id, ast.Load()), node.value])
            return ast.copy_location(ast.Assign([node.target], v), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = self._call(node, "__text_in__", [node.left, node.comparators[0]])
            return r if isinstance(node.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(ast.Not(), r), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                parts.append(self._call(node, "__text_value__", [v.value, ast.Constant(v.conversion), spec]))
            else:
                parts.append(v)
        return self._call(node, "__text_format__", parts)


# ---------------------------------------------------------------- math
class SymAngle:
    """atan2(y, x) of exact numbers, ordered as the real function orders them."""

    def __init__(self, y, x):
        self.y, self.x = Sym.lift(y), Sym.lift(x)

    def half(self):
        # (-pi, 0) -> 0, 0 -> 1, (0, pi) -> 2, pi -> 3
        if bool(self.y < 0):
            return 0
        if bool(self.y > 0):
            return 2
        return 1 if bool(self.x >= 0) else 3

    def cmp(self, o):
        a, b = self.half(), o.half()
        if a != b:
            return a - b
        if a in (1, 3):
            return 0
        cr = self.x * o.y - self.y * o.x
        if bool(cr > 0):
            return -1
        return 1 if bool(cr < 0) else 0

    def __lt__(self, o):
        return self.cmp(o) < 0

    def __gt__(self, o):
        return self.cmp(o) > 0

    def __le__(self, o):
        return self.cmp(o) <= 0

    def __ge__(self, o):
        return self.cmp(o) >= 0

    def __eq__(self, o):
        return self.cmp(o) == 0

    def __hash__(self):
        return 1

    def __neg__(self):
        return SymAngle(-self.y, self.x)


def _num(x):
    return isinstance(x, (Sym, SymBool))


def m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not _num(a) and not _num(b):
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    x, y = Sym.lift(a), Sym.lift(b)
    if isinstance(x, float) or isinstance(y, float):
        return isinstance(x, float) and isinstance(y, float) and x == y
    tiny = rel_tol <= 1e-4 and abs_tol <= 1e-6
    if tiny and not CTX().exact_tol:
        return x == y
    from .shim_np import abs_split
    ax, ay = abs_split(x), abs_split(y)
    m = ax if bool(ax >= ay) else ay
    d = abs(x - y)
    return (d <= m * rel_tol) | (d <= abs_tol)


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        d = self.__dict__
        d["isclose"] = m_isclose
        d["floor"] = lambda x: E.floor(x) if _num(x) and x.res().k is None else _math.floor(x.res().k if _num(x) else x)
        d["ceil"] = lambda x: E.ceil(x) if _num(x) and x.res().k is None else _math.ceil(x.res().k if _num(x) else x)
        d["trunc"] = lambda x: E.trunc(x) if _num(x) else _math.trunc(x)
        d["sqrt"] = lambda x: E.sqrt(x) if _num(x) else _math.sqrt(x)
        d["fabs"] = lambda x: abs(x) if _num(x) else _math.fabs(x)
        d["atan2"] = lambda y, x: SymAngle(y, x)
        d["isnan"] = lambda x: False if _num(x) else _math.isnan(x)
        d["isinf"] = lambda x: False if _num(x) else _math.isinf(x)
        d["isfinite"] = lambda x: True if _num(x) else _math.isfinite(x)
        d["modf"] = lambda x: ((x - E.trunc(x), E.trunc(x)) if _num(x) else _math.modf(x))
        d["fmod"] = lambda x, y: x - E.trunc(x / y) * y if _num(x) or _num(y) else _math.fmod(x, y)
        d["fsum"] = lambda s: sum(s)
        d["hypot"] = lambda *a: E.sqrt(sum(Sym.lift(x) * x for x in a))
        d["copysign"] = lambda a, b: abs(a) if bool(Sym.lift(b) >= 0) else -abs(a)
        d["prod"] = lambda s, start=1: _prod(s, start)

    def __getattr__(self, name):
        f = getattr(_math, name)
        if callable(f):
            def g(*a):
                if any(_num(x) and x.res().k is None for x in a):
                    raise Unsupported("math." + name)
                return f(*[float(x) if _num(x) else x for x in a])
            return g
        return f


def _prod(s, start):
    for x in s:
        start = start * x
    return start


# ---------------------------------------------------------------- random
class RandomSource:
    """Nondeterministic stand-in for `random` and `numpy.random`: every documented outcome."""

    def _next(self):
        c = CTX()
        n = c.memo.get("rand", 0)
        c.memo["rand"] = n + 1
        return f"rand{n}"

    def real(self, lo, hi, open_hi=False):
        c = CTX()
        v = c.named(self._next())
        c.assume(E.as_cond(v >= lo))
        c.assume(E.as_cond(v < hi if open_hi else v <= hi))
        return v

    def index(self, n):
        c = CTX()
        v = c.named(self._next(), integer=True)
        c.assume(E.as_cond(v >= 0))
        c.assume(E.as_cond(v <= n - 1))
        k = c.memo.get("choices", 0)
        c.memo["choices"] = k + 1
        fixed = c.memo.get("choice_pattern")
        if fixed is not None and k not in fixed[0]:          # a stated part of the outcomes
            c.assume(E.as_cond(v == fixed[1](k, n)))
        return E.concretize(v)


SRC = RandomSource()


def _choice(seq):
    seq = list(seq) if not hasattr(seq, "__getitem__") else seq
    if len(seq) == 0:
        raise IndexError("Cannot choose from an empty sequence")
    return seq[SRC.index(len(seq))]


def _shuffle(l):
    for i in range(len(l) - 1, 0, -1):
        j = SRC.index(i + 1)
        l[i], l[j] = l[j], l[i]


def _sample(pop, k, **kw):
    pop = list(pop)
    out = []
    for _ in range(k):
        out.append(pop.pop(SRC.index(len(pop))))
    return out


class RandomShim(types.ModuleType):
    def __init__(self):
        super().__init__("random")
        self.__dict__.update(
            random=lambda: SRC.real(0, 1, True), uniform=lambda a, b: SRC.real(a, b),
            choice=_choice, randint=lambda a, b: a + SRC.index(b - a + 1),
            randrange=lambda a, b=None: SRC.index(a) if b is None else a + SRC.index(b - a),
            shuffle=_shuffle, sample=_sample, seed=lambda *a: None,
            choices=lambda p, k=1, **kw: [_choice(p) for _ in range(k)])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("random." + n)


class NpRandomShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.random")
        from . import shim_np

        def fill(size, f):
            import numpy as np
            if size is None:
                return f()
            a = np.empty(size, dtype=object)
            fl = a.reshape(-1)
            for i in range(fl.shape[0]):
                fl[i] = f()
            return a.view(shim_np.SymArray)

        self.__dict__.update(
            uniform=lambda low=0.0, high=1.0, size=None: fill(size, lambda: SRC.real(low, high)),
            rand=lambda *s: fill(s or None, lambda: SRC.real(0, 1, True)),
            random=lambda size=None: fill(size, lambda: SRC.real(0, 1, True)),
            choice=lambda a, size=None: fill(size, lambda: _choice(a)) if size is not None else _choice(a),
            randint=lambda lo, hi=None, size=None: fill(size, lambda: (SRC.index(lo) if hi is None else lo + SRC.index(hi - lo))),
            seed=lambda *a: None)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("numpy.random." + n)


# ---------------------------------------------------------------- matplotlib
class PlotRecorder(types.ModuleType):
    def __init__(self, name="matplotlib.pyplot"):
        super().__init__(name)
        self.__dict__["calls"] = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            self.calls.append((n, a, k))
            return self
        return f


PLOT = PlotRecorder()
_mpl = types.ModuleType("matplotlib")
_mpl.pyplot = PLOT
_mpl.__path__ = []

_math_shim = MathShim()
_text_math_shim = None
_random_shim = RandomShim()
_np_shim = None
_re_shim = None


def np_shim():
    global _np_shim
    if _np_shim is None:
        from . import shim_np
        _np_shim = shim_np.NumpyShim(SymFloat, NpRandomShim())
    return _np_shim


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split(".")[0]
        if top == "numpy":
            m = np_shim()
            if fromlist and name == "numpy.linalg":
                return m.linalg
            if fromlist and name == "numpy.random":
                return m.random
            return m
        if name == "math":
            return _text_math_shim if Texts.everywhere else _math_shim
        if name == "random":
            return _random_shim
        if name == "re":
            from . import shim_re
            return shim_re.module()
        if top == "matplotlib":
            if name == "matplotlib" or not fromlist:
                return _mpl
            return PLOT
    return builtins.__import__(name, globals, locals, fromlist, level)


def _exit(*a):
    raise SystemExit(*a)


BUILTINS = dict(builtins.__dict__)
BUILTINS.update(float=SymFloat, int=SymInt, __import__=_import, print=lambda *a, **k: None,
                exit=_exit, quit=_exit)
TEXT_BUILTINS = dict(BUILTINS)
TEXT_BUILTINS.update(str=SymText, __text_join__=SS.t_join, __text_in__=SS.t_contains, __text_format__=SS.t_format,
                     __text_value__=SF.value, __text_str_format__=SF.str_format, __text_percent__=SF.percent,
                     format=SF.fmt, repr=lambda v: SF.text(v) if isinstance(v, Sym) else repr(v))


# Modules whose texts are executed symbolically.  When a check asks for it (TEXTS), that is the
# whole package, and the Python type int of a symbolic number is tracked.
class Texts:
    everywhere = False


class _TextIntMeta(_IntMeta):
    def __instancecheck__(cls, o):
        return isinstance(o, (int, SF.SymI))

    def __call__(cls, x=0, *a):
        return SF.SymI.of(SymInt(x, *a))


class TextInt(int, metaclass=_TextIntMeta):
    _sym_int = True


TextInt.__name__ = "int"


class _TextFloatMeta(_FloatMeta):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, Sym)) and not isinstance(o, SF.SymI)

    def __call__(cls, x=0.0):
        return SF.plain(SymFloat(x))


class TextFloat(float, metaclass=_TextFloatMeta):
    _sym_float = True


TextFloat.__name__ = "float"


def _text_round(x, nd=None):
    r = round(x) if nd is None else round(x, nd)
    return SF.SymI.of(r) if nd is None else r


class TextMathShim(MathShim):
    def __init__(self):
        super().__init__()
        d = self.__dict__
        for k in ("floor", "ceil", "trunc"):
            d[k] = lambda x, k=k: getattr(_math, k)(x) if isinstance(x, SF.SymLog) else SF.SymI.of(getattr(_math_shim, k)(x))
        d["log10"] = SF.log10
        d["log"] = lambda x, b=None: SF.log10(x) if b == 10 else getattr(_math_shim, "log")(x, *([] if b is None else [b]))



_text_math_shim = TextMathShim()
FULL_BUILTINS = dict(TEXT_BUILTINS)
FULL_BUILTINS.update(int=TextInt, float=TextFloat, round=_text_round)


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        text = Texts.everywhere or module.__name__.startswith("pytimize.parsers")
        if text:
            src = ast.fix_missing_locations(_TextOps().visit(ast.parse(src, self.path)))
        code = compile(src, self.path, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = FULL_BUILTINS if Texts.everywhere else TEXT_BUILTINS if text else BUILTINS
        exec(code, module.__dict__)
        patch = PATCHES.get(module.__name__)
        if patch and not Texts.everywhere:
            patch(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "pytimize" and not fullname.startswith("pytimize."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            spec = importlib.util.spec_from_loader(fullname, _Loader(p), origin=p, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.exists(base + ".py"):
            p = base + ".py"
            spec = importlib.util.spec_from_loader(fullname, _Loader(p), origin=p)
        else:
            return None
        return spec


def _patch_linear(module):
    module.LinearProgram.__repr__ = lambda self: "<linear program>"


PATCHES = {"pytimize.programs._linear": _patch_linear}


def install(texts=False):
    Texts.everywhere = texts
    sys.dont_write_bytecode = True
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
