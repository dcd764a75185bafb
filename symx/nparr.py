"""numpy on symbolic values: an object-dtype ndarray subclass whose ufuncs build
terms elementwise (comparisons, maximum, where ... merge instead of forking) and a
stand-in for the ``np`` module global of the code under test."""

import functools
import math
import os
import re

import numpy as np

from . import core
from .core import (And, Ite, Not, Or, Sym, SymBool, SymInt, SymName, SymReal,
                   is_sym, mkbool, tobool)


class SymArr(np.ndarray):
    __array_priority__ = 2000.0

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return sym_ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return sym_function(func, args, kwargs)

    # methods that would otherwise fork or convert inside numpy
    def any(self, axis=None, **kw):
        return f_any(self, axis=axis)

    def all(self, axis=None, **kw):
        return f_all(self, axis=axis)

    def max(self, axis=None, out=None, **kw):
        return f_reduce("max", self, axis=axis, **kw)

    def min(self, axis=None, out=None, **kw):
        return f_reduce("min", self, axis=axis, **kw)

    def argmin(self, axis=None, **kw):
        return f_argext(self, axis, lambda a, b: a < b)

    def argmax(self, axis=None, **kw):
        return f_argext(self, axis, lambda a, b: a > b)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return wrap(np.add.reduce(plain(self), axis=axis, keepdims=keepdims))

    def mean(self, axis=None, **kw):
        s = self.sum(axis=axis)
        n = self.size if axis is None else self.shape[axis]
        return s / n

    def nonzero(self):
        return f_nonzero(self)

    def astype(self, dtype, *a, **k):
        d = np.dtype(dtype)
        if d.kind == "b":
            return np.array([bool(x) for x in self.ravel()]).reshape(self.shape)
        if d.kind in "iu":
            return np.array([int(x) for x in self.ravel()]).reshape(self.shape)
        return self.copy()

    def tolist(self):
        return plain(self).tolist()

    def dot(self, o):
        return wrap(plain(self).dot(plain(o)))

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, conc_index(k))
        return r

    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self, conc_index(k), v)

    def __contains__(self, x):
        return any(bool(y == x) for y in self.ravel())

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(plain(self).ravel()[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted")
        return float(plain(self).ravel()[0])

    def __format__(self, spec):
        if self.size == 1:
            return format(plain(self).ravel()[0], spec)
        return str(self)


def plain(a):
    if isinstance(a, np.ndarray):
        return a.view(np.ndarray)
    if is_sym(a):
        x = np.empty((), dtype=object)
        x[()] = a
        return x
    return np.asarray(a)


def wrap(r):
    """Result of an operation on plain object arrays."""
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArr):
        return r.view(SymArr)
    return r


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return isinstance(x, SymArr) or x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(y, depth + 1) for y in x)
    return False


def symarr(data):
    """Object SymArr from nested lists / arrays."""
    if isinstance(data, np.ndarray):
        a = np.empty(data.shape, dtype=object)
        a[...] = data
        return a.view(SymArr)

    def norm(x):
        if isinstance(x, (list, tuple)):
            return [norm(y) for y in x]
        if isinstance(x, np.ndarray):
            return norm(list(x)) if x.ndim else x[()]
        return x

    data = norm(data)

    def shape(x):
        if isinstance(x, list):
            if not x:
                return (0,)
            return (len(x),) + shape(x[0])
        return ()

    shp = shape(data)
    a = np.empty(shp, dtype=object)
    if shp == ():
        a[()] = data
    else:
        for idx in np.ndindex(*shp):
            y = data
            for i in idx:
                y = y[i]
            a[idx] = y
    return a.view(SymArr)


def conc_index(k):
    def one(x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            flat = [y for y in x.ravel()]
            if any(isinstance(y, (SymBool, bool, np.bool_)) for y in flat):
                return np.array([bool(y) for y in flat], dtype=bool).reshape(x.shape)
            return np.array([int(y) for y in flat], dtype=int).reshape(x.shape)
        if isinstance(x, SymInt):
            return x.__index__()
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, list) and has_sym(x):
            if any(isinstance(y, SymBool) for y in x):
                return [bool(y) for y in x]
            return [int(y) for y in x]
        return x

    if isinstance(k, tuple):
        return tuple(one(x) for x in k)
    return one(k)


# --------------------------------------------------------------------------
# elementwise operations


def e_max(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    return Ite(a >= b, a, b)


def e_min(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    return Ite(a <= b, a, b)


def smart_max(*a, **k):
    """Builtin max, merging instead of forking on symbolic values."""
    if k or not has_sym(a if len(a) > 1 else list(a[0])):
        return max(*a, **k)
    return functools.reduce(e_max, a if len(a) > 1 else list(a[0]))


def smart_min(*a, **k):
    if k or not has_sym(a if len(a) > 1 else list(a[0])):
        return min(*a, **k)
    return functools.reduce(e_min, a if len(a) > 1 else list(a[0]))


def e_sign(a):
    if not is_sym(a):
        return float(np.sign(a))
    # sign of a quotient with a known positive denominator
    return Ite(a > 0, 1.0, Ite(a < 0, -1.0, 0.0))


def e_div(a, b):
    if not is_sym(a) and not is_sym(b):
        with np.errstate(all="ignore"):
            return np.float64(a) / np.float64(b)
    if not is_sym(b) and float(b) == 0.0:
        return float("nan")
    return a / b


def e_pow(a, b):
    return a ** b


def e_float(f):
    def g(a):
        if is_sym(a):
            raise core.Unsupported(f)
        return getattr(np, f)(float(a))
    return g


def e_sqrt(a):
    return a.sqrt() if is_sym(a) else float(np.sqrt(float(a)))


def e_exp(a):
    return a.exp() if is_sym(a) else float(np.exp(float(a)))


def e_log(a):
    return a.log() if is_sym(a) else float(np.log(float(a)))


def e_opaque(name):
    def g(*a):
        if any(is_sym(x) for x in a):
            return core.opaque(name, *a)
        return getattr(np, name)(*[float(x) for x in a])
    return g


def e_finite(a):
    return True if is_sym(a) else bool(np.isfinite(float(a)))


def e_nan(a):
    return False if is_sym(a) else bool(np.isnan(float(a)))


def e_inf(a):
    return False if is_sym(a) else bool(np.isinf(float(a)))


def _b(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (SymReal, SymInt)):
        return x != 0
    return bool(x)


def e_and(a, b):
    return And(_b(a), _b(b))


def e_or(a, b):
    return Or(_b(a), _b(b))


def e_xor(a, b):
    return mkbool(core.z3.Xor(tobool(_b(a)), tobool(_b(b))))


def e_not(a):
    return Not(_b(a))


def e_eq(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(b, (SymName, SymReal, SymInt)) and not is_sym(a):
        return b == a
    r = a == b
    return bool(r) if isinstance(r, np.bool_) else r


def e_ne(a, b):
    r = e_eq(a, b)
    return Not(r) if is_sym(r) else not r


def _nb(f):
    def g(a, b):
        r = f(a, b)
        return bool(r) if isinstance(r, np.bool_) else r
    return g


ELEM = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "divide": e_div,
    "true_divide": e_div,
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "negative": lambda a: -a,
    "positive": lambda a: a,
    "absolute": lambda a: abs(a),
    "fabs": lambda a: abs(a),
    "power": e_pow,
    "float_power": e_pow,
    "square": lambda a: a * a,
    "reciprocal": lambda a: e_div(1.0, a),
    "sqrt": e_sqrt,
    "exp": e_exp,
    "log": e_log,
    "log10": e_opaque("log10"),
    "log2": e_opaque("log2"),
    "log1p": e_opaque("log1p"),
    "expm1": e_opaque("expm1"),
    "maximum": e_max,
    "minimum": e_min,
    "fmax": e_max,
    "fmin": e_min,
    "sign": e_sign,
    "equal": e_eq,
    "not_equal": e_ne,
    "less": _nb(lambda a, b: a < b),
    "less_equal": _nb(lambda a, b: a <= b),
    "greater": _nb(lambda a, b: a > b),
    "greater_equal": _nb(lambda a, b: a >= b),
    "logical_and": e_and,
    "logical_or": e_or,
    "logical_xor": e_xor,
    "logical_not": e_not,
    "bitwise_and": e_and,
    "bitwise_or": e_or,
    "bitwise_xor": e_xor,
    "invert": e_not,
    "isfinite": e_finite,
    "isnan": e_nan,
    "isinf": e_inf,
    "floor": lambda a: a.__floor__() if is_sym(a) else math.floor(a),
    "ceil": lambda a: a.__ceil__() if is_sym(a) else math.ceil(a),
    "conjugate": lambda a: a,
    "spacing": lambda a: e_opaque("spacing")(a),
}

BITWISE_INT = {"bitwise_and", "bitwise_or", "bitwise_xor", "invert"}


def elementwise(name, inputs):
    f = ELEM[name]
    arrs = [plain(x) for x in inputs]
    if len(arrs) == 1:
        shp = arrs[0].shape
        bc = arrs
    else:
        bc = np.broadcast_arrays(*[a.astype(object) if a.dtype != object else a for a in arrs])
        shp = bc[0].shape
    out = np.empty(shp, dtype=object)
    if shp == ():
        out[()] = f(*[a[()] for a in bc])
    else:
        its = [a.ravel() for a in bc]
        of = np.empty(out.size, dtype=object)
        for i in range(out.size):
            of[i] = f(*[a[i] for a in its])
        out = of.reshape(shp)
    return out


def finish(out, inputs=()):
    """0-d results become scalars, all-concrete results ordinary arrays."""
    if out.shape == ():
        return out[()]
    return out.view(SymArr)


def sym_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    outarg = kwargs.pop("out", None)
    kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    where = kwargs.pop("where", True)
    if method == "__call__":
        if name == "matmul":
            r = plain(inputs[0]).astype(object) @ plain(inputs[1]).astype(object)
            return wrap(r)
        if name not in ELEM:
            raise core.Unsupported("ufunc " + name)
        out = elementwise(name, inputs)
        if where is not True:
            base = plain(outarg[0]) if outarg else np.zeros(out.shape, dtype=object)
            m = elementwise("logical_or", [where, False])
            out2 = np.empty(out.shape, dtype=object)
            mb = np.broadcast_to(m, out.shape)
            bb = np.broadcast_to(base, out.shape)
            for i in np.ndindex(*out.shape):
                out2[i] = Ite(mb[i], out[i], bb[i])
            out = out2
        if outarg is not None and outarg[0] is not None:
            o = outarg[0]
            if isinstance(o, np.ndarray) and o.dtype != object:
                if any(is_sym(x) for x in out.ravel()):
                    raise core.Unsupported("symbolic value stored in float array")
            plain(o)[...] = out
            return o
        return finish(out)
    if method == "reduce":
        a = inputs[0]
        axis = kwargs.get("axis", 0)
        keep = kwargs.get("keepdims", False)
        if name == "add":
            r = wrap(np.add.reduce(plain(a), axis=axis, keepdims=keep))
        elif name == "multiply":
            r = wrap(np.multiply.reduce(plain(a), axis=axis, keepdims=keep))
        elif name in ("maximum", "fmax"):
            r = f_reduce("max", a, axis=axis, keepdims=keep)
        elif name in ("minimum", "fmin"):
            r = f_reduce("min", a, axis=axis, keepdims=keep)
        elif name == "logical_or":
            r = f_any(a, axis=axis)
        elif name == "logical_and":
            r = f_all(a, axis=axis)
        else:
            raise core.Unsupported("reduce " + name)
        if outarg is not None and outarg[0] is not None:
            plain(outarg[0])[...] = r
            return outarg[0]
        return r
    if method == "outer":
        a, b = plain(inputs[0]), plain(inputs[1])
        return finish(elementwise(name, [a.reshape(a.shape + (1,) * b.ndim), b]))
    if method == "accumulate" and name == "add":
        return wrap(np.add.accumulate(plain(inputs[0]), axis=kwargs.get("axis", 0)))
    if method == "accumulate" and name in ("maximum", "minimum"):
        f = e_max if name == "maximum" else e_min
        a = plain(inputs[0])
        out = a.copy()
        for i in range(1, len(out)):
            out[i] = f(out[i - 1], out[i])
        return wrap(out)
    if method == "at":
        a, idx, v = inputs
        vv = np.broadcast_to(plain(v), plain(idx).shape) if plain(idx).ndim else [v]
        for i, x in zip(np.atleast_1d(plain(idx)), np.atleast_1d(plain(vv))):
            a[i] = ELEM[name](a[i], x)
        return None
    raise core.Unsupported("ufunc method %s.%s" % (name, method))


core._NPFUNC = sym_ufunc


# --------------------------------------------------------------------------
# functions


def _axis_reduce(a, axis, f, keepdims=False):
    a = plain(a)
    if axis is None:
        flat = list(a.ravel())
        r = functools.reduce(f, flat)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return wrap(o)
        return r
    m = np.moveaxis(a, axis, 0)
    if m.shape[0] == 0:
        raise ValueError("zero-size array to reduction operation")
    acc = m[0].copy() if isinstance(m[0], np.ndarray) else m[0]
    for i in range(1, m.shape[0]):
        if isinstance(acc, np.ndarray):
            for j in np.ndindex(*acc.shape):
                acc[j] = f(acc[j], m[i][j])
        else:
            acc = f(acc, m[i])
    if keepdims and isinstance(acc, np.ndarray):
        acc = np.expand_dims(acc, axis)
    return wrap(acc)


def f_reduce(kind, a, axis=None, keepdims=False, initial=None, **kw):
    f = e_max if kind == "max" else e_min
    if plain(a).size == 0:
        if initial is not None and initial is not np._NoValue:
            return initial
        raise ValueError("zero-size array to reduction operation %simum which has no identity" % kind)
    if isinstance(keepdims, bool) is False:
        keepdims = False
    r = _axis_reduce(a, axis, f, keepdims)
    if initial is not None and initial is not np._NoValue:
        r = f(r, initial)
    return r


def f_any(a, axis=None, **kw):
    a = plain(a)
    if axis is None:
        return Or(*[_b(x) for x in a.ravel()])
    return _axis_reduce(elementwise("logical_or", [a, False]), axis, e_or)


def f_all(a, axis=None, **kw):
    a = plain(a)
    if axis is None:
        return And(*[_b(x) for x in a.ravel()])
    return _axis_reduce(elementwise("logical_and", [a, True]), axis, e_and)


def f_argext(a, axis, better):
    a = plain(a)
    if axis is not None and a.ndim > 1:
        m = np.moveaxis(a, axis, -1)
        out = np.empty(m.shape[:-1], dtype=int)
        for i in np.ndindex(*out.shape):
            out[i] = f_argext(m[i], None, better)
        return out
    flat = list(a.ravel())
    if not flat:
        raise ValueError("attempt to get argmin of an empty sequence")
    best = 0
    for i in range(1, len(flat)):
        if bool(better(flat[i], flat[best])):
            best = i
    return best


def f_nonzero(a):
    a = plain(a)
    mask = np.array([bool(_b(x)) for x in a.ravel()], dtype=bool).reshape(a.shape)
    return np.nonzero(mask)


def f_where(cond, *xy):
    if not xy:
        return f_nonzero(cond)
    x, y = xy
    c, x, y = np.broadcast_arrays(*[plain(v).astype(object) for v in (cond, x, y)])
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        cc = c[i]
        if not isinstance(cc, SymBool) and is_sym(cc):
            cc = _b(cc)
        out[i] = Ite(cc, x[i], y[i])
    return finish(out)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def one(x, y):
        if not is_sym(x) and not is_sym(y):
            return bool(np.isclose(float(x), float(y), rtol=float(rtol), atol=float(atol), equal_nan=equal_nan))
        return abs(x - y) <= atol + rtol * abs(y)

    a, b = np.broadcast_arrays(plain(a).astype(object), plain(b).astype(object))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = one(a[i], b[i])
    return finish(out)


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_isclose(a, b, rtol, atol, equal_nan)
    return f_all(r) if isinstance(r, np.ndarray) else r


def f_norm(x, ord=None, axis=None, keepdims=False):
    a = plain(x).ravel()
    if axis is not None and plain(x).ndim > 1:
        raise core.Unsupported("norm axis")
    if len(a) == 1 and ord in (None, 2):
        return abs(a[0])
    if ord in (None, 2):
        s = 0
        for v in a:
            s = s + v * v
        if not is_sym(s):
            return float(np.sqrt(float(s)))
        least = max([abs(float(v)) for v in a if not is_sym(v)], default=0.0)
        c = core.ctx()
        if getattr(c, "loose_norm", False):  # any value >= the largest known component
            r = c.fresh("norm")
            c._add(r >= core.rv(least))
            return SymReal(r, pos=least > 0)
        return c.sqrt(s, pos=least > 0, nonneg=True, least=least)
    if ord == np.inf:
        return functools.reduce(e_max, [abs(v) for v in a])
    if ord == 1:
        return sum(abs(v) for v in a)
    raise core.Unsupported("norm ord")


def f_solve(a, b):
    if not getattr(core.ctx(), "exact_solve", False):
        raise np.linalg.LinAlgError("Singular matrix (symbolic stand-in)")
    m, rhs = plain(a), list(plain(b).ravel())
    n = len(rhs)
    rows = [[m[i, j] for j in range(n)] + [rhs[i]] for i in range(n)]
    for k in range(n):
        p = next((i for i in range(k, n) if bool(rows[i][k] != 0)), None)
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        rows[k], rows[p] = rows[p], rows[k]
        for i in range(n):
            if i != k:
                q = rows[i][k] / rows[k][k]
                rows[i] = [x - q * y for x, y in zip(rows[i], rows[k])]
    return wrap(np.array([rows[i][n] / rows[i][i] for i in range(n)], dtype=object))


def f_isin(a, b, **kw):
    b = list(plain(b).ravel())
    f = lambda x: Or(*[e_eq(x, y) for y in b])
    a = plain(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i])
    return finish(out)


def f_array_equal(a, b, **kw):
    a, b = plain(a), plain(b)
    if a.shape != b.shape:
        return False
    return And(*[e_eq(x, y) for x, y in zip(a.ravel(), b.ravel())])


def f_count_nonzero(a, axis=None, **kw):
    return sum(int(bool(_b(x))) for x in plain(a).ravel())


def f_clip(a, lo, hi, **kw):
    r = a
    if lo is not None:
        r = sym_ufunc(np.maximum, "__call__", (r, lo), {})
    if hi is not None:
        r = sym_ufunc(np.minimum, "__call__", (r, hi), {})
    return r


def f_nan_to_num(a, nan=0.0, **kw):
    a = plain(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        x = a[i]
        out[i] = x if is_sym(x) else np.nan_to_num(x, nan=nan, **kw)
    return finish(out)


def f_round(a, decimals=0, **kw):
    a = plain(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        x = a[i]
        out[i] = round(x, decimals) if is_sym(x) else np.round(x, decimals)
    return finish(out)


FUNCS = {
    "where": f_where, "any": f_any, "all": f_all,
    "argmin": lambda a, axis=None, **k: f_argext(a, axis, lambda x, y: x < y),
    "argmax": lambda a, axis=None, **k: f_argext(a, axis, lambda x, y: x > y),
    "amax": lambda a, axis=None, **k: f_reduce("max", a, axis=axis, **k),
    "max": lambda a, axis=None, **k: f_reduce("max", a, axis=axis, **k),
    "amin": lambda a, axis=None, **k: f_reduce("min", a, axis=axis, **k),
    "min": lambda a, axis=None, **k: f_reduce("min", a, axis=axis, **k),
    "nonzero": f_nonzero, "flatnonzero": lambda a: f_nonzero(plain(a).ravel())[0],
    "isclose": f_isclose, "allclose": f_allclose, "norm": f_norm, "solve": f_solve,
    "isin": f_isin, "in1d": f_isin, "array_equal": f_array_equal,
    "count_nonzero": f_count_nonzero, "clip": f_clip, "nan_to_num": f_nan_to_num,
    "round": f_round, "around": f_round,
    "nanmax": lambda a, axis=None, **k: f_reduce("max", a, axis=axis),
    "nanmin": lambda a, axis=None, **k: f_reduce("min", a, axis=axis),
}


def deep_plain(x):
    if isinstance(x, SymArr):
        return x.view(np.ndarray)
    if isinstance(x, list):
        return [deep_plain(y) for y in x]
    if isinstance(x, tuple):
        return tuple(deep_plain(y) for y in x)
    if isinstance(x, dict):
        return {k: deep_plain(v) for k, v in x.items()}
    return x


def sym_function(func, args, kwargs):
    f = FUNCS.get(func.__name__)
    if f is not None:
        kwargs.pop("out", None)
        return f(*args, **kwargs)
    r = func(*deep_plain(args), **deep_plain(kwargs))
    return wrap(r)


# --------------------------------------------------------------------------
# module stand-in

FLOATISH = (None, float, np.float64, np.double, "float", "float64", "d", object)


def conv(x):
    """Lists holding symbolic values become SymArr."""
    if isinstance(x, np.ndarray):
        if x.dtype == object and not isinstance(x, SymArr):
            return x.view(SymArr)
        return x
    if isinstance(x, (list, tuple)) and has_sym(x):
        try:
            return symarr(list(x))
        except Exception:
            return type(x)(conv(y) for y in x)
    return x


class LinalgProxy:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, n):
        r = getattr(self._real, n)
        if callable(r) and not isinstance(r, type):
            return guard(r)
        return r


def guard(f):
    @functools.wraps(f)
    def g(*args, **kwargs):
        if any(has_sym(a) for a in args) or any(has_sym(v) for v in kwargs.values()):
            fn = FUNCS.get(f.__name__)
            if fn is not None:
                kwargs.pop("out", None)
                return fn(*[conv(a) for a in args], **kwargs)
            r = f(*[deep_plain(conv_nested(a)) for a in args], **{k: deep_plain(conv_nested(v)) for k, v in kwargs.items()})
            return wrap(r)
        return f(*args, **kwargs)
    return g


def conv_nested(a):
    """Arguments such as concatenate's list of arrays keep their list level."""
    if isinstance(a, (list, tuple)) and any(isinstance(x, (np.ndarray, list, tuple)) for x in a):
        return type(a)(conv(x) if not isinstance(x, (list, tuple)) else (symarr(list(x)) if has_sym(x) else x) for x in a)
    return conv(a)


class NPProxy:
    """Stands for the ``np`` global of the modules under test (symbolic mode)."""

    def __init__(self, files):
        self._files = files
        self.linalg = LinalgProxy(np.linalg)

    def __getattr__(self, n):
        r = getattr(np, n)
        if isinstance(r, np.ufunc):
            return UfuncProxy(r)
        if callable(r) and not isinstance(r, type) and n not in ("errstate", "seterr"):
            return guard(r)
        return r

    # allocation: object arrays, so that symbolic values can be stored later
    def zeros(self, shape, dtype=float, *a, **k):
        return self._alloc(shape, dtype, 0.0)

    def ones(self, shape, dtype=float, *a, **k):
        return self._alloc(shape, dtype, 1.0)

    def empty(self, shape, dtype=float, *a, **k):
        return self._alloc(shape, dtype, 0.0)

    def full(self, shape, v, dtype=None, *a, **k):
        if dtype is None and not is_sym(v) and not isinstance(v, (float, np.floating)):
            return np.full(shape, v)
        return self._alloc(shape, dtype or float, v)

    def _alloc(self, shape, dtype, v):
        if dtype not in FLOATISH:
            return np.full(shape, v if not is_sym(v) else float(v), dtype=dtype)
        if isinstance(shape, SymInt):
            shape = int(shape)
        a = np.empty(shape, dtype=object)
        a[...] = v
        return a.view(SymArr)

    def zeros_like(self, x, dtype=None, **k):
        return self._alloc(np.shape(plain(x)), dtype or float, 0.0)

    def ones_like(self, x, dtype=None, **k):
        return self._alloc(np.shape(plain(x)), dtype or float, 1.0)

    def empty_like(self, x, dtype=None, **k):
        return self._alloc(np.shape(plain(x)), dtype or float, 0.0)

    def full_like(self, x, v, dtype=None, **k):
        return self._alloc(np.shape(plain(x)), dtype or float, v)

    def eye(self, n, *a, **k):
        return symarr(np.eye(n, *a))

    def identity(self, n, *a, **k):
        return symarr(np.eye(n))

    def array(self, x, dtype=None, *a, **k):
        if has_sym(x):
            if dtype is bool:
                return symarr(x).astype(bool)
            return symarr(x) if not isinstance(x, np.ndarray) else x.copy().view(SymArr)
        if dtype is None:
            return np.array(x, *a, **k)
        return np.array(x, dtype, *a, **k)

    def asarray(self, x, dtype=None, *a, **k):
        if has_sym(x):
            if isinstance(x, np.ndarray):
                return x.view(SymArr)
            return symarr(x)
        return np.asarray(x, dtype, *a, **k)

    asanyarray = asarray
    ascontiguousarray = asarray

    def atleast_1d(self, *xs):
        r = []
        for x in xs:
            if has_sym(x):
                a = x.view(SymArr) if isinstance(x, np.ndarray) else symarr(x)
                r.append(a.reshape(1) if a.ndim == 0 else a)
            else:
                r.append(np.atleast_1d(x))
        return r[0] if len(r) == 1 else tuple(r)

    def savetxt(self, fname, X, *a, **k):
        arr = X if isinstance(X, np.ndarray) else (symarr(X) if has_sym(X) else np.asarray(X))
        fmt = a[0] if a else k.get("fmt", "%.18e")
        delim = a[1] if len(a) > 1 else k.get("delimiter", " ")
        out = arr.copy()
        m = re.fullmatch(r"%[-+ 0-9]*\.(\d+)([efgEFG])", fmt) if isinstance(fmt, str) else None
        if m is None or int(m.group(1)) < 15:
            n, kind = (int(m.group(1)), m.group(2).lower()) if m else (0, "e")
            if m is None and fmt not in ("%r", "%s"):
                raise core.Unsupported("savetxt format %r" % (fmt,))
            if m is not None:
                flat = out.reshape(-1)
                for i, v in enumerate(flat):
                    if is_sym(v):
                        flat[i] = rounded_text(v, n, kind)
                    else:
                        flat[i] = float(fmt % v)
        with open(fname, "w") as f:
            f.write("symbolic %s\n" % (arr.shape,))
        self._files[os.path.abspath(fname)] = (out, delim)

    def genfromtxt(self, fname, *a, **k):
        key = os.path.abspath(fname)
        if key in self._files and os.path.isfile(key):
            arr, written = self._files[key]
            delim = k.get("delimiter")
            if k.get("skip_header") or k.get("skiprows"):
                arr = arr[(k.get("skip_header") or k.get("skiprows")):]
            if arr.ndim > 1 and arr.shape[1] > 1 and \
                    (delim or " ").strip() != written.strip():
                arr = np.full(arr.shape[0], np.nan)
            if arr.size == 1:
                return arr.ravel()[0] if not is_sym(arr.ravel()[0]) else symarr(arr.ravel()[0])
            return np.squeeze(arr.copy())
        return np.genfromtxt(fname, *a, **k)

    loadtxt = genfromtxt


def rounded_text(v, n, kind):
    """Value of a symbolic number after printing with n decimals."""
    c = core.ctx()
    r = c.fresh("text")
    x = core.term(v)
    if kind == "f":
        half = core.rv(0.5) / core.rv(10 ** n)
        c._add(core.z3.And(r * core.rv(10 ** n) == core.z3.ToReal(core.z3.ToInt(r * core.rv(10 ** n))),
                           r - x <= half, x - r <= half))
    else:
        tol = core.rv(10.0 ** -n)
        ax = core.z3.If(x >= 0, x, -x)
        c._add(core.z3.And(r - x <= tol * ax, x - r <= tol * ax))
    c.model = None
    return SymReal(r)


class UfuncProxy:
    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *args, **kwargs):
        if any(has_sym(a) for a in args):
            return sym_ufunc(self._uf, "__call__", tuple(conv(a) for a in args), kwargs)
        return self._uf(*args, **kwargs)

    def __getattr__(self, n):
        return getattr(self._uf, n)

    def reduce(self, a, axis=0, **k):
        if has_sym(a):
            return sym_ufunc(self._uf, "reduce", (conv(a),), dict(axis=axis, **k))
        return self._uf.reduce(a, axis=axis, **k)

    def outer(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return sym_ufunc(self._uf, "outer", (conv(a), conv(b)), k)
        return self._uf.outer(a, b, **k)


class MathProxy:
    """Stands for a ``math`` global of the modules under test."""

    def __getattr__(self, n):
        r = getattr(math, n)
        table = {"sqrt": e_sqrt, "exp": e_exp, "log": e_log, "fabs": lambda a: abs(a),
                 "isfinite": e_finite, "isnan": e_nan, "isinf": e_inf,
                 "log10": e_opaque("log10")}
        if not callable(r):
            return r

        def g(*a, **k):
            if any(is_sym(x) for x in a):
                if n == "isclose":
                    rel, ab = k.get("rel_tol", 1e-9), k.get("abs_tol", 0.0)
                    return abs(a[0] - a[1]) <= e_max(rel * e_max(abs(a[0]), abs(a[1])), ab)
                if n in ("floor", "ceil", "trunc"):
                    return int(getattr(a[0], "__%s__" % n)())
                if n == "fsum":
                    return sum(a[0])
                if n == "prod":
                    return functools.reduce(lambda x, y: x * y, a[0])
                if n in table:
                    return table[n](*a)
                raise core.Unsupported("math." + n)
            if n == "fsum" and has_sym(list(a[0])):
                return sum(list(a[0]))
            return r(*a, **k)
        return g
