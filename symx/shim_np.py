"""A numpy stand-in for symbolic execution: real numpy with float arrays replaced by object
arrays of exact symbolic numbers."""
import builtins
import functools
import itertools
import types
from fractions import Fraction

import numpy as np

from . import engine as E
from .engine import Sym, SymBool, Unsupported, as_cond, cand, cor, mk


class _Meta(type):
    def __eq__(cls, other):
        return other is np.ndarray or cls is other

    def __hash__(cls):
        return hash(np.ndarray)


def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, SymArray):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    return False


def is_bool_arr(a):
    return a.size > 0 and all(isinstance(x, (SymBool, bool, np.bool_)) for x in a.flat)


def lift_elem(x):
    if isinstance(x, (Sym, SymBool)) or x is None or isinstance(x, str):
        return x
    f = E.to_fraction(x)
    if f is None:
        return x
    if isinstance(f, float):
        return f
    return Sym.const(f)


def wrap(x):
    """numpy result -> SymArray / scalar."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            if x.ndim == 0:
                return x.item() if not isinstance(x, SymArray) else x.view(np.ndarray).item()
            return x.view(SymArray)
        return x
    if isinstance(x, tuple):
        return tuple(wrap(i) for i in x)
    return x


def plain(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, list):
        return [plain(i) for i in x]
    if isinstance(x, tuple):
        return tuple(plain(i) for i in x)
    return x


def obj(x):
    """anything array-like -> plain object ndarray of exact elements."""
    a = np.asarray(plain(x), dtype=object) if not isinstance(x, np.ndarray) else plain(x)
    if a.dtype != object:
        a = a.astype(object)
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(af.shape[0]):
        of[i] = lift_elem(af[i])
    return out


def sarr(x):
    return obj(x).view(SymArray)


def _each(f, *args):
    arrs = [obj(a) if isinstance(a, (np.ndarray, list, tuple)) else a for a in args]
    if not any(isinstance(a, np.ndarray) for a in arrs):
        return f(*[lift_elem(a) for a in arrs])
    arrs = [a if isinstance(a, np.ndarray) else np.array(_box(lift_elem(a)), dtype=object).reshape(())
            for a in arrs]
    b = np.broadcast_arrays(*arrs)
    out = np.empty(b[0].shape, dtype=object)
    fl = [x.reshape(-1) for x in b]
    of = out.reshape(-1)
    for i in range(of.shape[0]):
        of[i] = f(*[x[i] for x in fl])
    return wrap(out)


def _box(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def b_and(a, b):
    return mk(cand([as_cond(a), as_cond(b)]))


def b_or(a, b):
    return mk(cor([as_cond(a), as_cond(b)]))


def b_not(a):
    return mk(E.cnot(as_cond(a)))


def b_xor(a, b):
    a, b = as_cond(a), as_cond(b)
    return mk(cor([cand([a, E.cnot(b)]), cand([E.cnot(a), b])]))


def merge_max(a, b):
    return a if bool(a >= b) else b


def merge_min(a, b):
    return a if bool(a <= b) else b


def _sign(x):
    x = Sym.lift(x)
    if bool(x > 0):
        return Sym.const(1)
    return Sym.const(-1) if bool(x < 0) else Sym.const(0)


def _isfinite(x):
    x = lift_elem(x)
    return not isinstance(x, float)


def _isnan(x):
    return isinstance(x, float) and x != x


def _isinf(x):
    return isinstance(x, float) and x == x


def _rounding(f, name):
    def g(a):
        return Sym.const(getattr(a, name)()) if type(a).__name__ == "SymLog" else f(a)
    return g


def _log10(a):
    from .symfmt import log10
    return log10(a)


UF = {
    "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
    "logical_and": b_and, "logical_or": b_or, "logical_not": b_not, "logical_xor": b_xor,
    "invert": lambda a: b_not(a) if isinstance(a, (SymBool, bool)) else ~a,
    "bitwise_and": b_and, "bitwise_or": b_or, "bitwise_xor": b_xor,
    "absolute": abs, "fabs": abs, "floor": _rounding(E.floor, "__floor__"), "ceil": _rounding(E.ceil, "__ceil__"),
    "trunc": _rounding(E.trunc, "__trunc__"), "log10": _log10, "rint": E.rnd,
    "sqrt": E.sqrt, "sign": _sign, "maximum": merge_max, "minimum": merge_min,
    "fmax": merge_max, "fmin": merge_min, "isfinite": _isfinite, "isnan": _isnan,
    "isinf": _isinf, "square": lambda a: a * a,
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
    "divide": lambda a, b: a / b, "true_divide": lambda a, b: a / b, "negative": lambda a: -a,
    "positive": lambda a: a, "power": lambda a, b: a ** b, "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b, "reciprocal": lambda a: 1 / a,
    "conjugate": lambda a: a,
}


class SymArray(np.ndarray, metaclass=_Meta):
    __array_priority__ = 50

    def __array_finalize__(self, o):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        where = kw.pop("where", True)
        kw.pop("dtype", None)
        kw.pop("casting", None)
        kw.pop("subok", None)
        kw.pop("order", None)
        if where is not True:
            raise Unsupported("ufunc where=")
        if method == "__call__":
            if name == "matmul" or name in ("vecdot",):
                r = wrap(_matmul(inputs[0], inputs[1]))
            elif name in UF:
                r = _each(UF[name], *inputs)
            else:
                raise Unsupported("numpy ufunc " + name)
            if out:
                o = out[0]
                if isinstance(o, SymArray):
                    o.view(np.ndarray)[...] = plain(r)
                    return o
                if isinstance(o, np.ndarray) and o.dtype == object:
                    o[...] = plain(r)
                    return o
                # in-place on a machine array: element conversion as numpy would do
                o[...] = plain(r)
                return o
            return r
        if method == "reduce":
            axis = kw.get("axis", 0)
            keep = kw.get("keepdims", False)
            a = obj(inputs[0])
            if name in ("add", "multiply", "logical_and", "logical_or", "maximum", "minimum",
                        "bitwise_and", "bitwise_or"):
                init = {"add": Sym.const(0), "multiply": Sym.const(1), "logical_and": True,
                        "logical_or": False, "bitwise_and": True, "bitwise_or": False}.get(name)
                return _reduce(UF[name], a, axis, init, keep)
        if method == "outer":
            a, b = obj(inputs[0]), obj(inputs[1])
            return _each(UF[name], a.reshape(a.shape + (1,) * b.ndim), b)
        if method == "accumulate":
            a = obj(inputs[0])
            r = [a[0]]
            for x in a[1:]:
                r.append(UF[name](r[-1], x))
            return wrap(np.array(r, dtype=object))
        if method == "at":
            a, idx, b = inputs
            for i in np.atleast_1d(plain(idx)):
                a[i] = UF[name](a[i], b)
            return None
        raise Unsupported(f"numpy {name}.{method}")

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        alt = OVERRIDE.get(name)
        if alt is not None:
            return alt(*args, **kwargs)
        r = func._implementation(*plain_args(args), **{k: plain_args(v) for k, v in kwargs.items()}) \
            if hasattr(func, "_implementation") else func(*plain_args(args), **{k: plain_args(v) for k, v in kwargs.items()})
        return wrap_all(r)

    # boolean reductions without forking
    def all(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(b_and, obj(self), axis, True, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(b_or, obj(self), axis, False, keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce(lambda a, b: a + b, obj(self), axis, Sym.const(0), keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce(lambda a, b: a * b, obj(self), axis, Sym.const(1), keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(merge_max, obj(self), axis, None, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _reduce(merge_min, obj(self), axis, None, keepdims)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis) / n

    def dot(self, o):
        return wrap(_matmul(self, o))

    def astype(self, dtype, *a, **k):
        return astype(self, dtype)

    def argmax(self, axis=None, **k):
        return argbest(self, axis, lambda a, b: a > b)

    def argmin(self, axis=None, **k):
        return argbest(self, axis, lambda a, b: a < b)

    def nonzero(self):
        return nonzero(self)

    def round(self, decimals=0, out=None):
        return around(self, decimals)

    def argsort(self, axis=-1, **k):
        return argsort(self)

    def sort(self, axis=-1, **k):
        v = self.view(np.ndarray)
        v[...] = np.array(sorted(v.tolist()), dtype=object)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def _key(self, key):
        if isinstance(key, SymArray) and key.ndim >= 1:
            a = obj(key)
            if is_bool_arr(a):
                return np.array([bool(x) for x in a.reshape(-1)]).reshape(a.shape)
            return np.array([int(x) for x in a.reshape(-1)], dtype=int).reshape(a.shape)
        if isinstance(key, tuple):
            return tuple(self._key(k) for k in key)
        if isinstance(key, list):
            return [self._key(k) for k in key]
        if isinstance(key, Sym):
            return key.__index__()
        return key

    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self.view(np.ndarray), self._key(key))
        return wrap(r) if isinstance(r, np.ndarray) else r

    def __setitem__(self, key, val):
        v = self.view(np.ndarray)
        if isinstance(val, (np.ndarray, list, tuple)):
            v[self._key(key)] = obj(val)
        else:
            v[self._key(key)] = lift_elem(val)

    def fill(self, x):
        self.view(np.ndarray).fill(lift_elem(x))

    def __iter__(self):
        v = self.view(np.ndarray)
        for i in range(v.shape[0]):
            r = v[i]
            yield wrap(r) if isinstance(r, np.ndarray) else r

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous."
                         " Use a.any() or a.all()")

    def _inplace(f):
        def g(self, o):
            r = f(self, o)
            if r is NotImplemented:
                return r
            r = obj(r) if isinstance(r, np.ndarray) else r
            if isinstance(r, np.ndarray) and np.broadcast_shapes(r.shape, self.shape) != self.shape:
                raise ValueError("non-broadcastable output operand")
            self.view(np.ndarray)[...] = r
            return self
        return g

    __iadd__ = _inplace(lambda a, b: a + b)
    __isub__ = _inplace(lambda a, b: a - b)
    __imul__ = _inplace(lambda a, b: a * b)
    __itruediv__ = _inplace(lambda a, b: a / b)
    __ifloordiv__ = _inplace(lambda a, b: a // b)
    __imod__ = _inplace(lambda a, b: a % b)
    __ipow__ = _inplace(lambda a, b: a ** b)
    __iand__ = _inplace(lambda a, b: a & b)
    __ior__ = _inplace(lambda a, b: a | b)

    def __deepcopy__(self, memo):
        return self.copy()

    def __contains__(self, x):
        return bool((self == x).any())

    def __repr__(self):
        if E._CTX is None:
            return "<symbolic array>"
        E._CTX.shown.append(list(self.view(np.ndarray).reshape(-1)))   # see Symbolic.shows
        return f"<array:{len(E._CTX.shown) - 1}>"

    __str__ = __repr__


def plain_args(x):
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, list):
        return [plain_args(i) for i in x]
    if isinstance(x, tuple):
        return tuple(plain_args(i) for i in x)
    return x


def wrap_all(x):
    if isinstance(x, np.ndarray):
        return wrap(x)
    if isinstance(x, tuple):
        return tuple(wrap_all(i) for i in x)
    if isinstance(x, list):
        return [wrap_all(i) for i in x]
    return x


def _reduce(f, a, axis, init, keepdims=False):
    if axis is None:
        r = init
        for x in a.reshape(-1):
            r = x if r is None else f(r, x)
        if r is None:
            raise ValueError("zero-size array to reduction operation")
        if isinstance(r, (bool, np.bool_)) or isinstance(r, SymBool):
            r = mk(as_cond(r))
            if isinstance(r, bool):
                r = np.bool_(r)
        return r
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            return _reduce(f, a, None, init)
        raise Unsupported("reduce over several axes")
    if a.ndim == 1:
        return _reduce(f, a, None, init)
    m = np.moveaxis(a, axis, 0)
    out = np.empty(m.shape[1:], dtype=object)
    for idx in np.ndindex(*m.shape[1:]):
        out[idx] = _reduce(f, m[(slice(None),) + idx], None, init)
    if keepdims:
        out = np.expand_dims(out, axis)
    return wrap(out)


def _matmul(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.shape[-1] != b.shape[0 if b.ndim == 1 else -2]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    if a.shape[-1] == 0:
        sh = a.shape[:-1] + (b.shape[1:] if b.ndim > 1 else ())
        o = np.empty(sh, dtype=object)
        o.fill(Sym.const(0))
        return o
    with np.errstate(all="ignore"):
        r = a @ b if (a.ndim > 1 or b.ndim > 1) else None
    return r if r is not None else _box(functools.reduce(lambda s, t: s + t, [x * y for x, y in zip(a, b)]))


def is_float_dtype(d):
    if d is None:
        return True
    if getattr(d, "_sym_float", False):
        return True
    try:
        return np.issubdtype(np.dtype(d), np.floating) or np.dtype(d) == object
    except TypeError:
        return False


def astype(a, dtype):
    if is_float_dtype(dtype):
        return sarr(a)
    if getattr(dtype, "_sym_int", False) or np.issubdtype(np.dtype(dtype), np.integer):
        # machine integers: truncation; values stay symbolic but integral
        return _each(E.trunc, a)
    if np.dtype(dtype) == bool:
        return _each(lambda x: mk(as_cond(x)), a)
    raise Unsupported(f"astype({dtype})")


def argbest(a, axis, better):
    a = obj(a)
    if axis is not None and a.ndim > 1:
        m = np.moveaxis(a, axis, 0)
        out = np.empty(m.shape[1:], dtype=int)
        for idx in np.ndindex(*m.shape[1:]):
            out[idx] = argbest(m[(slice(None),) + idx], None, better)
        return out
    a = a.reshape(-1)
    if is_bool_arr(a):
        want = bool(better(1, 0))
        for i, x in enumerate(a):
            if bool(x) is want:
                return i
        return 0
    if a.shape[0] == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    best = 0
    for i in range(1, a.shape[0]):
        if bool(better(a[i], a[best])):
            best = i
    return best


def nonzero(a):
    a = obj(a)
    m = np.empty(a.shape, dtype=bool)
    for idx in np.ndindex(*a.shape):
        m[idx] = bool(a[idx])
    return np.nonzero(m)


def argsort(a, *args, **kw):
    l = list(obj(a))
    return np.array(sorted(range(len(l)), key=functools.cmp_to_key(
        lambda i, j: -1 if bool(l[i] < l[j]) else (1 if bool(l[j] < l[i]) else i - j))), dtype=int)


def around(a, decimals=0, out=None):
    return _each(lambda x: round(Sym.lift(x), decimals), a)


def where(cond, x=None, y=None):
    if x is None:
        if has_sym(cond):
            return nonzero(cond)
        return np.where(cond)
    if not (has_sym(cond) or has_sym(x) or has_sym(y)):
        return np.where(cond, x, y)
    return _each(lambda c, a, b: a if bool(c) else b, cond, x, y)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def one(x, y):
        if isinstance(x, float) or isinstance(y, float):
            return isinstance(x, float) and isinstance(y, float) and x == y
        # |x - y| <= atol + rtol |y|; read as equality when both tolerances are tiny
        if not E.CTX().exact_tol and rtol <= 1e-4 and atol <= 1e-6:
            return x == y
        t = Sym.lift(atol) + Sym.lift(rtol) * abs_split(y)
        return abs(x - y) <= t
    return _each(one, a, b)


def abs_split(y):
    y = Sym.lift(y)
    return y if bool(y >= 0) else -y


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return r.all() if isinstance(r, np.ndarray) else r


def array_equal(a, b, equal_nan=False):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    r = _each(lambda x, y: x == y, a, b)
    return r.all() if isinstance(r, np.ndarray) else r


def full_obj(shape, v):
    a = np.empty(shape, dtype=object)
    a.fill(lift_elem(v))
    return a.view(SymArray)


def zeros(shape, dtype=None, order="C", **k):
    return full_obj(shape, 0) if is_float_dtype(dtype) else np.zeros(shape, dtype)


def ones(shape, dtype=None, order="C", **k):
    return full_obj(shape, 1) if is_float_dtype(dtype) else np.ones(shape, dtype)


def empty(shape, dtype=None, order="C", **k):
    # arbitrary content: any use of it is caught as unsupported arithmetic on None
    return full_obj(shape, 0) if is_float_dtype(dtype) else np.empty(shape, dtype)


def full(shape, v, dtype=None, **k):
    if dtype is None and isinstance(v, int) and not isinstance(v, bool):
        return np.full(shape, v)
    return full_obj(shape, v) if is_float_dtype(dtype) else np.full(shape, v, dtype)


def like(f):
    def g(a, dtype=None, **k):
        if dtype is None and isinstance(a, np.ndarray) and a.dtype != object and not \
                np.issubdtype(a.dtype, np.floating):
            dtype = a.dtype
        return f(np.shape(plain(a)), dtype)
    return g


def full_like(a, v, dtype=None, **k):
    return full_obj(np.shape(plain(a)), v)


def eye(n, m=None, k=0, dtype=None, **kw):
    if not is_float_dtype(dtype):
        return np.eye(n, m, k, dtype)
    return sarr(np.eye(n, m, k))


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def _leaf_kinds(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return {"sym"}
        return {"float"} if np.issubdtype(x.dtype, np.floating) else {x.dtype.kind}
    if isinstance(x, (list, tuple)):
        s = set()
        for i in x:
            s |= _leaf_kinds(i)
        return s
    if isinstance(x, (Sym,)):
        return {"sym"}
    if isinstance(x, SymBool):
        return {"symb"}
    if isinstance(x, (bool, np.bool_)):
        return {"b"}
    if isinstance(x, (int, np.integer)):
        return {"i"}
    if isinstance(x, (float, np.floating, Fraction)):
        return {"float"}
    return {"O"}


def array(x, dtype=None, copy=True, ndmin=0, **k):
    kinds = _leaf_kinds(x)
    if dtype is None:
        if kinds <= {"i"} and kinds:
            return np.array(x, ndmin=ndmin)
        if kinds <= {"b"} and kinds:
            return np.array(x, ndmin=ndmin)
        if "O" in kinds:
            return np.array(plain(x))
        a = np.array(plain(x), dtype=object, ndmin=ndmin)
        return sarr(a) if a.ndim else lift_elem(a.item())
    if is_float_dtype(dtype):
        a = np.array(plain(x), dtype=object, ndmin=ndmin)
        if "O" in kinds:
            np.array(plain(x), dtype=float)      # raises as numpy would
        return sarr(a)
    if "sym" in kinds:
        return astype(sarr(np.array(plain(x), dtype=object, ndmin=ndmin)), dtype)
    return np.array(x, dtype=int if getattr(dtype, "_sym_int", False) else dtype, ndmin=ndmin)


def asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and is_float_dtype(dtype):
        return x
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    return array(x, dtype)


def copy(a, **k):
    return a.copy() if isinstance(a, np.ndarray) else array(a)


def atleast_1d(*a):
    r = []
    for x in a:
        x = asarray(x)
        r.append(x if isinstance(x, np.ndarray) and x.ndim else array([x]))
    return r[0] if len(r) == 1 else r


def issubdtype(d, t):
    if d == object:
        return t in (np.number, np.floating, np.inexact, np.generic, float, object) or \
            getattr(t, "_sym_float", False)
    if getattr(t, "_sym_float", False):
        t = float
    if getattr(t, "_sym_int", False):
        t = int
    return np.issubdtype(d, t)


def isscalar(x):
    return isinstance(x, (Sym, SymBool)) or np.isscalar(x)


def dot(a, b):
    if not isinstance(a, (np.ndarray, list, tuple)) or not isinstance(b, (np.ndarray, list, tuple)):
        return a * b
    return wrap(_matmul(a, b))


def outer(a, b):
    return _each(lambda x, y: x * y, obj(a).reshape(-1, 1), obj(b).reshape(1, -1))


def nsum(a, axis=None, **k):
    return sarr(a).sum(axis)


def nprod(a, axis=None, **k):
    return sarr(a).prod(axis)


def nall(a, axis=None, **k):
    if isinstance(a, (bool, SymBool, np.bool_)):
        return a
    if not has_sym(a):
        return np.all(a, axis)
    return sarr(a).all(axis) if not isinstance(a, SymArray) else a.all(axis)


def nany(a, axis=None, **k):
    if isinstance(a, (bool, SymBool, np.bool_)):
        return a
    if not has_sym(a):
        return np.any(a, axis)
    return sarr(a).any(axis) if not isinstance(a, SymArray) else a.any(axis)


def nmax(a, axis=None, **k):
    return sarr(a).max(axis) if has_sym(a) else np.max(a, axis)


def nmin(a, axis=None, **k):
    return sarr(a).min(axis) if has_sym(a) else np.min(a, axis)


def count_nonzero(a, axis=None, **k):
    if not has_sym(a):
        return np.count_nonzero(a, axis)
    return int(len(nonzero(a)[0]))


def append(arr, values, axis=None):
    if axis is None:
        r = np.concatenate([np.ravel(plain(asarray(arr))).astype(object), np.ravel(obj(values))])
        return sarr(r)
    return sarr(np.append(obj(arr), obj(values), axis))


def concat(seq, axis=0, **k):
    seq = list(seq)
    if not any(has_sym(s) for s in seq) and all("float" not in _leaf_kinds(s) for s in seq):
        return np.concatenate([np.asarray(s) for s in seq], axis)
    return sarr(np.concatenate([obj(s) for s in seq], axis))


def _stackfn(f):
    def g(seq, axis=None, **k):
        seq = [obj(s) for s in seq]
        return sarr(f(seq, axis) if axis is not None else f(seq))
    return g


def insert(arr, idx, values, axis=None):
    if not (has_sym(arr) or has_sym(values)):
        return np.insert(arr, idx, values, axis)
    v = obj(values) if isinstance(values, (np.ndarray, list, tuple)) else _box(lift_elem(values))
    return sarr(np.insert(obj(arr), idx, v, axis))


def delete(arr, idx, axis=None):
    r = np.delete(plain(arr) if isinstance(arr, np.ndarray) else obj(arr), idx, axis)
    return wrap(r)


def diag(a, k=0):
    a = obj(a)
    if a.ndim == 1:
        n = a.shape[0]
        o = zeros((n, n))
        for i in range(n):
            o[i, i] = a[i]
        return o
    return sarr(np.diag(a, k))


def clip(a, lo, hi, **k):
    def f(x):
        if lo is not None and bool(x < lo):
            return lift_elem(lo)
        if hi is not None and bool(x > hi):
            return lift_elem(hi)
        return x
    return _each(f, a)


# -------------------------------------------------------------------- linear algebra
class LinAlgError(ValueError):
    pass


LinAlgError = np.linalg.LinAlgError


def sym_det(m):
    m = obj(m)
    if m.ndim != 2 or m.shape[0] != m.shape[1]:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    n = m.shape[0]
    if n == 0:
        return Sym.const(1)
    if all(isinstance(x, Sym) and x.k is not None for x in m.flat):
        return Sym.const(_const_det([[Fraction(m[i, j].k) for j in range(n)] for i in range(n)]))
    memo = {}

    def det(r, cols):
        if r == n:
            return Sym.const(1)
        key = cols
        if key in memo:
            return memo[key]
        t = Sym.const(0)
        s = 1
        for i, c in enumerate(cols):
            x = m[r, c]
            if not (isinstance(x, Sym) and x.k == 0):
                sub = det(r + 1, cols[:i] + cols[i + 1:])
                t = t + (x * sub if s > 0 else -(x * sub))
            s = -s
        memo[key] = t
        return t

    return det(0, tuple(range(n)))


def _const_det(a):
    n = len(a)
    a = [r[:] for r in a]
    d = Fraction(1)
    for c in range(n):
        p = next((r for r in range(c, n) if a[r][c] != 0), None)
        if p is None:
            return 0
        if p != c:
            a[p], a[c] = a[c], a[p]
            d = -d
        d *= a[c][c]
        for r in range(c + 1, n):
            f = a[r][c] / a[c][c]
            if f:
                for k in range(c, n):
                    a[r][k] -= f * a[c][k]
    return E._norm(d)


def sym_inv(m):
    m = obj(m)
    if m.ndim != 2 or m.shape[0] != m.shape[1]:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    n = m.shape[0]
    d = sym_det(m)
    if bool(d == 0):
        raise LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    if n and all(isinstance(x, Sym) and x.k is not None for x in m.flat):
        a = [[Fraction(m[i, j].k) for j in range(n)] + [Fraction(int(i == j)) for j in range(n)]
             for i in range(n)]
        for c in range(n):
            p = next(r for r in range(c, n) if a[r][c] != 0)
            a[p], a[c] = a[c], a[p]
            f = a[c][c]
            a[c] = [x / f for x in a[c]]
            for r in range(n):
                if r != c and a[r][c]:
                    f = a[r][c]
                    a[r] = [x - f * y for x, y in zip(a[r], a[c])]
        for i in range(n):
            for j in range(n):
                out[i, j] = Sym.const(E._norm(a[i][n + j]))
        return wrap(out)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(m, j, 0), i, 1)
            c = sym_det(minor)
            out[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return wrap(out)


def sym_solve(a, b):
    a = obj(a)
    b = obj(b)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    if b.shape[0] != a.shape[0]:
        raise ValueError("solve: Input operand 1 has a mismatch in its core dimension 0")
    return wrap(_matmul(sym_inv(a), b))


def sym_norm(x, ord=None, axis=None, keepdims=False):
    a = obj(x).reshape(-1)
    if axis is not None and obj(x).ndim > 1:
        raise Unsupported("norm with axis")
    if ord in (None, 2):
        if len(a) == 1:
            return abs(a[0])
        return E.sqrt(functools.reduce(lambda s, t: s + t, [v * v for v in a], Sym.const(0)))
    if ord == 1:
        return functools.reduce(lambda s, t: s + t, [abs_split(v) for v in a], Sym.const(0))
    if ord == np.inf:
        return functools.reduce(merge_max, [abs_split(v) for v in a])
    raise Unsupported("norm order")


def sym_rank(m, tol=None, **k):
    a = obj(m)
    if a.ndim < 2:
        return int(any(bool(x != 0) for x in a.reshape(-1)))
    a = [list(r) for r in a]
    r = 0
    rows, cols = len(a), len(a[0])
    for c in range(cols):
        p = next((i for i in range(r, rows) if bool(a[i][c] != 0)), None)
        if p is None:
            continue
        a[p], a[r] = a[r], a[p]
        for i in range(r + 1, rows):
            f = a[i][c] / a[r][c]
            a[i] = [x - f * y for x, y in zip(a[i], a[r])]
        r += 1
        if r == rows:
            break
    return r


def sym_lstsq(*a, **k):
    raise Unsupported("lstsq")


class _LinAlg(types.ModuleType):
    def __getattr__(self, name):
        raise Unsupported("numpy.linalg." + name)


linalg = _LinAlg("numpy.linalg")
linalg.__dict__.update(inv=sym_inv, det=sym_det, solve=sym_solve, norm=sym_norm,
                       matrix_rank=sym_rank, LinAlgError=LinAlgError)


class _RClass:
    """np.r_ / np.c_ on exact elements."""

    def __init__(self, real, column):
        self.real = real
        self.column = column

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, (slice, str)) for k in key):
            return self.real[key]
        arrs = []
        for k in key:
            a = obj(k)
            if self.column:
                if a.ndim == 0:
                    a = a.reshape(1, 1)
                elif a.ndim == 1:
                    a = a.reshape(-1, 1)
            elif a.ndim == 0:
                a = a.reshape(1)
            arrs.append(a)
        if self.column:
            return sarr(np.concatenate(arrs, axis=-1))
        nd = max(a.ndim for a in arrs)
        arrs = [a if a.ndim == nd else a.reshape((1,) * (nd - a.ndim) + a.shape) for a in arrs]
        return sarr(np.concatenate(arrs, axis=0))


OVERRIDE = {
    "where": where, "isclose": isclose, "allclose": allclose, "array_equal": array_equal,
    "dot": dot, "matmul": lambda a, b: wrap(_matmul(a, b)), "outer": outer, "sum": nsum,
    "prod": nprod, "all": nall, "any": nany, "max": nmax, "amax": nmax, "min": nmin,
    "amin": nmin, "argmax": lambda a, axis=None, **k: argbest(a, axis, lambda x, y: x > y),
    "argmin": lambda a, axis=None, **k: argbest(a, axis, lambda x, y: x < y),
    "nonzero": nonzero, "flatnonzero": lambda a: nonzero(np.ravel(plain(a)).view(SymArray) if has_sym(a) else a)[0],
    "count_nonzero": count_nonzero, "append": append, "concatenate": concat,
    "vstack": _stackfn(lambda s, axis=None: np.vstack(s)),
    "hstack": _stackfn(lambda s, axis=None: np.hstack(s)),
    "column_stack": _stackfn(lambda s, axis=None: np.column_stack(s)),
    "stack": _stackfn(lambda s, axis=0: np.stack(s, axis)),
    "insert": insert, "delete": delete, "diag": diag, "clip": clip, "round": around,
    "around": around, "round_": around, "argsort": argsort, "copy": copy,
    "zeros_like": like(zeros), "ones_like": like(ones), "empty_like": like(empty),
    "full_like": full_like, "det": sym_det, "inv": sym_inv, "solve": sym_solve,
    "norm": sym_norm, "matrix_rank": sym_rank, "mean": lambda a, axis=None, **k: sarr(a).mean(axis),
    "sort": lambda a, *x, **k: sarr(np.array(sorted(obj(a).tolist()), dtype=object)),
    "trace": lambda a: functools.reduce(lambda s, t: s + t, [obj(a)[i, i] for i in range(len(a))]),
    "cumsum": lambda a, **k: sarr(np.array(list(itertools.accumulate(obj(a).reshape(-1))), dtype=object)),
}

TABLE = dict(OVERRIDE)
for _n in UF:
    def _mkuf(n):
        def f(*args, **kw):
            if not any(has_sym(a) for a in args) and all(
                    isinstance(a, (np.ndarray, bool, np.bool_, str)) and
                    not (isinstance(a, np.ndarray) and np.issubdtype(a.dtype, np.floating)) for a in args):
                return getattr(np, n)(*args, **kw)
            return _each(UF[n], *args)
        f.__name__ = n
        return f
    TABLE[_n] = _mkuf(_n)
TABLE["abs"] = TABLE["absolute"]
TABLE.update(
    array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, zeros=zeros,
    ones=ones, empty=empty, full=full, eye=eye, identity=identity, issubdtype=issubdtype,
    isscalar=isscalar, atleast_1d=atleast_1d, linalg=linalg, r_=_RClass(np.r_, False),
    c_=_RClass(np.c_, True), float64=None)
for _n in ("det", "inv", "solve", "norm", "matrix_rank"):
    TABLE.pop(_n, None)

# plain numpy names that work unchanged on object arrays or are types / constants
PASS = {"ndarray", "number", "floating", "integer", "inexact", "generic", "int64", "int32",
        "float32", "bool_", "object_", "inf", "nan", "pi", "newaxis", "ndindex", "ndenumerate",
        "arange", "transpose", "reshape", "ravel", "shape", "ndim", "size", "squeeze",
        "expand_dims", "swapaxes", "moveaxis", "tile", "repeat", "flip", "roll", "take", "ix_",
        "triu", "tril", "meshgrid", "dtype", "errstate", "seterr", "errstate", "finfo", "iinfo",
        "unravel_index", "isin", "setdiff1d", "union1d", "unique", "split", "integer", "e",
        "broadcast_to", "float_", "double", "signedinteger", "fliplr", "flipud", "s_",
        "set_printoptions", "printoptions", "testing"}


class NumpyShim(types.ModuleType):
    def __init__(self, float_cls, random_module):
        super().__init__("numpy")
        self.__dict__.update({k: v for k, v in TABLE.items() if v is not None})
        self.__dict__["float64"] = float_cls
        self.__dict__["float_"] = float_cls
        self.__dict__["double"] = float_cls
        self.__dict__["random"] = random_module
        self.__dict__["__path__"] = []
        self.__dict__["__version__"] = np.__version__

    def __getattr__(self, name):
        if name in PASS and hasattr(np, name):
            f = getattr(np, name)
            if isinstance(f, types.FunctionType) or (callable(f) and not isinstance(f, type)
                                                       and hasattr(f, "__wrapped__")):
                @functools.wraps(f)
                def g(*a, **k):
                    return wrap_all(f(*plain_args(a), **{x: plain_args(y) for x, y in k.items()}))
                self.__dict__[name] = g
                return g
            return f
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(np, name):
            raise AttributeError(f"module 'numpy' has no attribute '{name}'")
        raise Unsupported("numpy." + name)
