"""Stand-ins for builtins, math, numpy, struct and hashlib.

They behave exactly as the originals on ordinary values and carry symbolic
values (core.Sym*) through instead of converting them to machine numbers.
Only modules of lsst.skymap, loaded by loader.py, see them.
"""
import builtins
import hashlib as _hashlib
import math as _math
import struct as _struct
import types
from fractions import Fraction

import numpy as _np
import z3

from . import core
from .core import (SymBool, SymInt, SymReal, Unsupported, AND, OR, ITE, _SYM_TYPES, toreal, toint)


def sym(x):
    return type(x) in _SYM_TYPES


# ------------------------------------------------------------------ builtins

class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class s_int(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a, **k):
        t = type(x)
        if t in _SYM_TYPES:
            if t is SymBool:
                return x.as_int()
            return x.__trunc__() if t is not SymInt else x
        if isinstance(x, SymArray) and x.size == 1:
            return s_int(x.item())
        f = getattr(x, "__float__", None)
        if f is not None and not isinstance(x, (builtins.int, builtins.float)) \
                and getattr(x, "__symfloat__", None):
            return s_int(x.__symfloat__())
        return builtins.int(x, *a, **k)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class s_float(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if type(x) in _SYM_TYPES:
            return toreal(x)
        if isinstance(x, SymArray) and x.size == 1:
            return s_float(x.item())
        g = getattr(x, "__symfloat__", None)
        if g is not None:
            return g()
        return builtins.float(x)


def s_len(x):
    f = getattr(type(x), "__len__", None)
    if f is not None and not isinstance(x, (list, tuple, dict, str, bytes, set, _np.ndarray)):
        return f(x)
    return builtins.len(x)


def _flatargs(a, key):
    if len(a) == 1:
        return list(a[0])
    return list(a)


def _extreme(native, pick):
    def f(*a, **k):
        if k:
            return native(*a, **k)
        xs = _flatargs(a, None)
        if not any(type(x) in (SymInt, SymReal) or isinstance(x, core.SymReal) and sym(x) for x in xs):
            return native(xs) if len(a) == 1 else native(*a)
        r = xs[0]
        for x in xs[1:]:
            r = pick(r, x)
        return r
    return f


s_min = _extreme(builtins.min, core.smin)
s_max = _extreme(builtins.max, core.smax)


class SymRange:
    """range() with symbolic ends: membership is a formula, iteration forks."""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __contains__(self, x):
        raise Unsupported("unreachable")

    def __iter__(self):
        i = self.start
        n = 0
        while bool(i < self.stop) if self.step > 0 else bool(i > self.stop):
            yield i
            i = i + self.step
            n += 1
            if n > 5000:
                raise Unsupported("range too long")

    def __len__(self):
        return core.cur().fork_value(core.smax(0, (self.stop - self.start + self.step - 1) // self.step))

    def __getitem__(self, i):
        if i < 0:
            i = i + len(self)
        r = self.start + self.step * i
        if not (r < self.stop):
            raise IndexError("range object index out of range")
        return r


SymRange.__contains__ = lambda self, x: builtins.bool(
    AND(x >= self.start, x < self.stop, (x - self.start) % self.step == 0))


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.range, SymRange))


class s_range(metaclass=_RangeMeta):
    def __new__(cls, *a):
        if not any(sym(x) for x in a):
            if len(a) == 1:
                return SymRangeConcrete(builtins.range(*a)) if False else builtins.range(*a)
            return builtins.range(*a)
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        if len(a) == 2:
            return SymRange(a[0], a[1], 1)
        if sym(a[2]):
            raise Unsupported("symbolic step")
        if a[2] < 0:
            raise Unsupported("negative step")
        return SymRange(*a)


def s_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def s_round(x, n=None):
    if sym(x):
        return x.__round__(n)
    return builtins.round(x) if n is None else builtins.round(x, n)


def s_bool(x=False):
    return builtins.bool(x)


def s_divmod(a, b):
    if isinstance(a, SymArray) or isinstance(b, SymArray):
        return a // b, a % b
    return builtins.divmod(a, b)


BUILTINS = dict(int=s_int, float=s_float, len=s_len, min=s_min, max=s_max, range=s_range,
                sum=s_sum, round=s_round, divmod=s_divmod)


# ---------------------------------------------------------------------- math

def tofloat(x):
    g = getattr(x, "__symfloat__", None)
    return g() if g is not None else x


def _m_floor(x):
    x = tofloat(x)
    return x.__floor__() if sym(x) else _math.floor(x)


def _m_ceil(x):
    x = tofloat(x)
    return x.__ceil__() if sym(x) else _math.ceil(x)


def _m_trunc(x):
    x = tofloat(x)
    return x.__trunc__() if sym(x) else _math.trunc(x)


def _m_fabs(x):
    x = tofloat(x)
    return abs(toreal(x)) if sym(x) else _math.fabs(x)


def _m_sqrt(x):
    x = tofloat(x)
    return core.cur().sqrt(x) if sym(x) else _math.sqrt(x)


def _m_radians(x):
    x = tofloat(x)
    return toreal(x) * (_math.pi / 180) if sym(x) else _math.radians(x)


def _m_degrees(x):
    x = tofloat(x)
    return toreal(x) * (180 / _math.pi) if sym(x) else _math.degrees(x)


def _m_isfinite(x):
    x = tofloat(x)
    return True if sym(x) else _math.isfinite(x)


def _m_isnan(x):
    x = tofloat(x)
    return False if sym(x) else _math.isnan(x)


def _m_isinf(x):
    x = tofloat(x)
    return False if sym(x) else _math.isinf(x)


def _m_fmod(a, b):
    a, b = tofloat(a), tofloat(b)
    if not sym(a) and not sym(b):
        return _math.fmod(a, b)
    a, b = toreal(a), toreal(b)
    if a.lo >= 0:
        return _exactmod(a, b)
    if a.hi <= 0:
        return -_exactmod(-a, b)
    if a >= 0:
        return _exactmod(a, b)
    return -_exactmod(-a, b)


def _exactmod(a, b):
    """a - b*floor(a/b) for a >= 0, exact as fmod is."""
    if b.lo != b.hi or b.lo <= 0:
        raise Unsupported("fmod by a symbolic number")
    c = b.lo
    if a.hi < c:
        return a
    import z3
    q = a.t / core.realval(c)
    k = z3.ToInt(q)
    return SymReal(a.t - z3.ToReal(k) * core.realval(c), 0.0, c)


def _m_hypot(*xs):
    xs = [tofloat(x) for x in xs]
    if not any(sym(x) for x in xs):
        return _math.hypot(*xs)
    return core.cur().sqrt(s_sum(x * x for x in xs))


def _m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    a, b = tofloat(a), tofloat(b)
    if not sym(a) and not sym(b):
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(toreal(a) - toreal(b))
    return OR(d <= abs_tol, d <= rel_tol * core.smax(abs(toreal(a)), abs(toreal(b))))


def _m_copysign(a, b):
    if not sym(a) and not sym(b):
        return _math.copysign(a, b)
    return ITE(b >= 0, abs(toreal(a)), -abs(toreal(a)))


def _m_prod(xs, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


def _trig(name):
    native = getattr(_math, name)

    def f(*a):
        a = [tofloat(x) for x in a]
        if any(sym(x) for x in a):
            hook = TRIG_HOOK.get(name)
            if hook is not None:
                return hook(*a)
            raise Unsupported("math.%s of a symbolic number" % name)
        return native(*a)
    return f


TRIG_HOOK = {}


def make_math():
    m = types.ModuleType("math")
    for n in dir(_math):
        if not n.startswith("__"):
            setattr(m, n, getattr(_math, n))
    for n in ("sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "pow", "log2", "log10"):
        setattr(m, n, _trig(n))
    for n in ("floor", "ceil", "trunc", "fabs", "sqrt", "radians", "degrees", "isfinite", "isnan", "isinf",
              "fmod", "hypot", "isclose", "copysign", "prod"):
        setattr(m, n, globals()["_m_" + n])
    return m


# --------------------------------------------------------------------- numpy

def _has_sym(x, depth=0):
    if type(x) in _SYM_TYPES:
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object and any(_has_sym(e, depth + 1) for e in x.ravel().tolist()) \
            if type(x) is SymArray or x.dtype == object else False
    if isinstance(x, (list, tuple)) and depth < 3:
        return any(_has_sym(e, depth + 1) for e in x)
    return getattr(x, "__symfloat__", None) is not None and sym(x.__symfloat__())


def wrap(x):
    """View a native result as a SymArray; lower object arrays that hold no symbols."""
    if isinstance(x, tuple):
        return tuple(wrap(e) for e in x)
    if isinstance(x, list):
        return [wrap(e) for e in x]
    if isinstance(x, _np.ndarray):
        if x.dtype == object:
            fl = x.ravel().tolist()
            if x.ndim == 0:
                return fl[0]
            if fl and not any(_has_sym(e) for e in fl) and all(isinstance(e, (int, float)) for e in fl):
                x = _np.array(_np.asarray(x).tolist())
        return x.view(SymArray)
    return x


def _conc_bool_array(a):
    """Decide every element (one path for each outcome)."""
    fl = [builtins.bool(e) for e in _np.asarray(a).ravel().tolist()]
    return _np.array(fl, dtype=bool).reshape(a.shape)


def _conc_key(k):
    if isinstance(k, tuple):
        return tuple(_conc_key(e) for e in k)
    if type(k) is SymBool:
        return builtins.bool(k)
    if sym(k):
        return core.cur().fork_value(toint(k))
    if isinstance(k, list):
        return [_conc_key(e) for e in k]
    if isinstance(k, _np.ndarray) and k.dtype == object:
        fl = _np.asarray(k).ravel().tolist()
        if all(isinstance(e, bool) for e in fl) and fl:
            return _conc_bool_array(k)
        return _np.array([core.cur().fork_value(toint(e)) for e in fl], dtype=int).reshape(k.shape)
    if isinstance(k, SymArray):
        return _np.asarray(k)
    return k


def _np_isfinite(x):
    x = tofloat(x)
    return True if sym(x) else builtins.bool(_np.isfinite(x))


def _np_isnan(x):
    x = tofloat(x)
    return False if sym(x) else builtins.bool(_np.isnan(x))


_UNARY = {
    "floor": lambda x: toreal(x.__floor__()) if sym(x) else float(_np.floor(x)),
    "ceil": lambda x: toreal(x.__ceil__()) if sym(x) else float(_np.ceil(x)),
    "trunc": lambda x: toreal(x.__trunc__()) if sym(x) else float(_np.trunc(x)),
    "rint": lambda x: toreal(x.__round__()) if sym(x) else float(_np.rint(x)),
    "deg2rad": lambda x: toreal(x) * (_math.pi / 180) if sym(x) else float(_np.deg2rad(x)),
    "rad2deg": lambda x: toreal(x) * (180 / _math.pi) if sym(x) else float(_np.rad2deg(x)),
    "sqrt": _m_sqrt,
    "absolute": abs,
    "fabs": _m_fabs,
    "isfinite": _np_isfinite,
    "isnan": _np_isnan,
    "isinf": lambda x: False if sym(x) else builtins.bool(_np.isinf(x)),
    "logical_not": core.NOT,
    "invert": lambda x: core.NOT(x) if isinstance(x, bool) else ~x,
    "square": lambda x: x * x,
    "negative": lambda x: -x,
    "sign": lambda x: ITE(x > 0, 1, ITE(x < 0, -1, 0)),
}
_UNARY["radians"] = _UNARY["deg2rad"]
_UNARY["degrees"] = _UNARY["rad2deg"]
for _n in ("sin", "cos", "tan", "arcsin", "arccos", "arctan"):
    _UNARY[_n] = _trig(_n.replace("arc", "a"))

_BINARY = {
    "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
    "minimum": core.smin, "maximum": core.smax, "fmin": core.smin, "fmax": core.smax,
    "logical_and": lambda a, b: AND(a, b), "logical_or": lambda a, b: OR(a, b),
    "bitwise_and": lambda a, b: a & b, "bitwise_or": lambda a, b: a | b,
    "bitwise_xor": lambda a, b: a ^ b,
    "fmod": _m_fmod, "add": lambda a, b: a + b, "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b, "divide": lambda a, b: a / b, "true_divide": lambda a, b: a / b,
    "floor_divide": lambda a, b: a // b, "remainder": lambda a, b: a % b, "mod": lambda a, b: a % b,
    "power": lambda a, b: a ** b, "hypot": _m_hypot, "arctan2": _trig("atan2"),
    "left_shift": lambda a, b: a << b, "right_shift": lambda a, b: a >> b,
}


def _obj(x):
    """An object-dtype view of anything array-like."""
    if isinstance(x, _np.ndarray):
        a = _np.asarray(x)
        if a.dtype == object:
            return a
        o = _np.empty(a.shape, dtype=object)
        fl = a.ravel().tolist()
        o.ravel()[:] = fl if fl else []
        if a.ndim == 0:
            o[()] = a.item()
        return o
    if isinstance(x, (list, tuple)):
        parts = [_obj(e) for e in x]
        if not parts:
            return _np.empty((0,), dtype=object)
        shp = parts[0].shape
        o = _np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            o[i] = p if p.ndim else p[()]
        return o
    o = _np.empty((), dtype=object)
    o[()] = tofloat(x) if getattr(x, "__symfloat__", None) is not None else x
    return o


def _elementwise(f, *args):
    arrs = _np.broadcast_arrays(*[_obj(a) for a in args])
    shape = arrs[0].shape
    out = _np.empty(shape, dtype=object)
    fl = [a.ravel().tolist() for a in arrs]
    res = [f(*t) for t in zip(*fl)]
    if shape == ():
        return res[0]
    flat = out.ravel()
    for i, r in enumerate(res):
        flat[i] = r
    return wrap(flat.reshape(shape))


class SymArray(_np.ndarray):
    """ndarray whose elements may be symbolic (then of object dtype)."""

    def tobytes(self, order="C"):
        if self.dtype != object:
            return self.view(_np.ndarray).tobytes(order)
        return array_bytes(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        if any(_has_sym(i) for i in inputs):
            out = kw.pop("out", None)
            kw.pop("dtype", None)
            if method == "__call__":
                if name in _UNARY and len(inputs) == 1:
                    r = _elementwise(_UNARY[name], *inputs)
                elif name in _BINARY and len(inputs) == 2:
                    r = _elementwise(_BINARY[name], *inputs)
                elif name == "matmul":
                    r = np_dot(*inputs)
                elif name in ("divmod",):
                    r = (_elementwise(lambda a, b: a // b, *inputs), _elementwise(lambda a, b: a % b, *inputs))
                else:
                    raise Unsupported("numpy ufunc %s on symbolic data" % name)
                if out is not None:
                    o = out[0]
                    o[...] = r
                    return o
                return r
            if method == "reduce":
                if name == "add":
                    return np_sum(inputs[0], axis=kw.get("axis", 0))
                if name in ("logical_and", "logical_or", "minimum", "maximum"):
                    return _reduce(name, inputs[0], kw.get("axis", 0))
            if method == "accumulate" and name == "add":
                return np_cumsum(inputs[0])
            if method == "at" and name in _BINARY:
                arr, idx, val = inputs
                arr[idx] = _BINARY[name](arr[idx], val)
                return None
            raise Unsupported("numpy %s.%s on symbolic data" % (name, method))
        ins = [_np.asarray(i) if isinstance(i, SymArray) else i for i in inputs]
        if "out" in kw:
            kw["out"] = tuple(_np.asarray(o) if isinstance(o, SymArray) else o for o in kw["out"])
        r = getattr(ufunc, method)(*ins, **kw)
        return wrap(r)

    def __array_function__(self, func, types, args, kwargs):
        f = getattr(NP, func.__name__, None)
        if f is not None and getattr(f, "_shim", False):
            return f(*args, **kwargs)
        if any(_has_sym(a) for a in args):
            raise Unsupported("numpy.%s on symbolic data" % func.__name__)
        return _native(func)(*args, **kwargs)

    def __getitem__(self, k):
        r = _np.asarray(self)[_conc_key(k)]
        return wrap(r) if isinstance(r, _np.ndarray) else r

    def __setitem__(self, k, v):
        k = _conc_key(k)
        a = _np.asarray(self)
        if a.dtype != object and _has_sym(v):
            kind = a.dtype.kind
            if kind in "iu":
                vv = _obj(v)
                fl = [core.cur().fork_value(toint(e if type(e) is SymInt or isinstance(e, int) else s_int(e)))
                      for e in vv.ravel().tolist()]
                v = _np.array(fl, dtype=_np.int64 if vv.shape else a.dtype).reshape(vv.shape).astype(a.dtype)
            elif kind == "b":
                vv = _obj(v)
                v = _conc_bool_array(vv)
            else:
                raise Unsupported("storing a symbolic number in a float array")
        elif isinstance(v, SymArray):
            v = _np.asarray(v)
        a[k] = v

    def astype(self, dtype, *a, **k):
        if self.dtype != object:
            return _np.asarray(self).astype(_npdtype(dtype), *a, **k).view(SymArray)
        return _elementwise(_caster(dtype), self)

    def tolist(self):
        return _np.asarray(self).tolist()

    def item(self, *a):
        if self.dtype == object and not a:
            if self.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            return _np.asarray(self).ravel().tolist()[0]
        return _np.asarray(self).item(*a)

    def __iter__(self):
        a = _np.asarray(self)
        if a.ndim == 1:
            return iter(list(a))
        return iter([wrap(e) for e in a])

    def sum(self, axis=None, **k):
        return np_sum(self, axis=axis)

    def any(self, axis=None, **k):
        return np_any(self)

    def all(self, axis=None, **k):
        return np_all(self)

    def cumsum(self, axis=None, **k):
        return np_cumsum(self)

    def dot(self, o):
        return np_dot(self, o)

    def argmax(self, axis=None, **k):
        return np_argmax(self)

    def argmin(self, axis=None, **k):
        return np_argmin(self)

    def max(self, axis=None, **k):
        return np_max(self)

    def min(self, axis=None, **k):
        return np_min(self)

    def round(self, decimals=0, out=None):
        return np_round(self, decimals)

    def prod(self, axis=None, **k):
        return np_prod(self, axis=axis)

    def mean(self, axis=None, **k):
        return np_mean(self, axis=axis)

    def argsort(self, axis=-1, kind=None, **k):
        return np_argsort(self, axis, kind)

    def ptp(self, axis=None, **k):
        return np_ptp(self)

    def searchsorted(self, v, side="left", sorter=None):
        return np_searchsorted(self, v, side)

    def nonzero(self):
        return np_where(self)

    def copy(self, order="C"):
        return _np.asarray(self).copy().view(SymArray)

    def clip(self, lo=None, hi=None, **k):
        return np_clip(self, lo, hi)

    def __bool__(self):
        if self.size == 1:
            return builtins.bool(self.item())
        return _np.asarray(self).__bool__()

    def __int__(self):
        return core.cur().fork_value(s_int(self.item())) if _has_sym(self) else int(_np.asarray(self).item())

    __index__ = __int__


def _caster(dtype, wraps=True):
    """What numpy does to one number stored as the given type."""
    d = _np.dtype(_npdtype(dtype))
    if d.kind in "iu":
        n = 8 * d.itemsize
        lo, hi = (-2 ** (n - 1), 2 ** (n - 1) - 1) if d.kind == "i" else (0, 2 ** n - 1)

        def cast(x):
            v = s_int(x)
            if n == 64 and d.kind == "i":
                return v
            if sym(v) and v.lo is not None and v.hi is not None and lo <= v.lo and v.hi <= hi:
                return v
            if not wraps:
                if AND(v >= lo, v <= hi):
                    return v
                raise OverflowError("Python integer out of bounds for %s" % d)
            return (v - lo) % (2 ** n) + lo
        return cast
    if d.kind == "f":
        if d.itemsize == 4:
            return lambda x: _f32(s_float(x))
        if d.itemsize == 2:
            return _half
        return s_float
    if d.kind == "b":
        return lambda x: x if isinstance(x, bool) else x != 0
    return lambda x: x


def _half(x):
    if sym(x):
        raise Unsupported("half precision")
    return float(_np.float16(x))


def _npdtype(d):
    if d is s_int:
        return int
    if d is s_float:
        return float
    return d


def _native(func):
    def f(*a, **k):
        def strip(x):
            if isinstance(x, SymArray):
                return _np.asarray(x)
            if isinstance(x, (list, tuple)) and any(isinstance(e, SymArray) for e in x):
                return type(x)(strip(e) for e in x)
            return x
        a = [strip(x) for x in a]
        k = {n: _npdtype(strip(v)) for n, v in k.items()}
        return wrap(func(*a, **k))
    return f


def _shim(f):
    f._shim = True
    return f


def np_array(x, dtype=None, **k):
    if isinstance(x, (SymRange,)):
        x = list(x)
    if not _has_sym(x):
        return _native(_np.array)(x, dtype=_npdtype(dtype), **k) if dtype is not None else _native(_np.array)(x, **k)
    a = _obj(x).copy().view(SymArray)
    return a if dtype is None else _elementwise(_caster(dtype, wraps=isinstance(x, _np.ndarray)), a)


def np_asarray(x, dtype=None, **k):
    if isinstance(x, SymArray) and dtype is None:
        return x
    return np_array(x, dtype)


def np_atleast_1d(*xs):
    out = []
    for x in xs:
        if not _has_sym(x):
            out.append(_native(_np.atleast_1d)(x))
        else:
            a = _obj(x)
            out.append((a if a.ndim else a.reshape(1)).view(SymArray))
    return out[0] if len(out) == 1 else out


def np_where(c, *ab):
    if not ab:
        if _has_sym(c):
            a = _obj(c)
            c = _conc_bool_array(a)
        return wrap(_np.where(_np.asarray(c)))
    a, b = ab
    if not _has_sym(c) and not _has_sym(a) and not _has_sym(b):
        return _native(_np.where)(c, a, b)

    def pick(cc, x, y):
        cc = cc if isinstance(cc, bool) else cc != 0
        if isinstance(x, bool) and isinstance(y, bool):
            return OR(AND(cc, x), AND(core.NOT(cc), y))
        return ITE(cc, x, y)
    return _elementwise(pick, c, a, b)


def np_cumsum(x, axis=None, **k):
    if not _has_sym(x):
        return _native(_np.cumsum)(x)
    r, out = 0, []
    for e in _obj(x).ravel().tolist():
        r = r + e
        out.append(r)
    return np_array(out)


def np_sum(x, axis=None, **k):
    if not _has_sym(x):
        return _native(_np.sum)(x, axis=axis)
    a = _obj(x)
    if axis is None or a.ndim == 1:
        return s_sum(a.ravel().tolist())
    a = _np.moveaxis(a, axis, 0)
    r = wrap(a[0])
    for e in a[1:]:
        r = r + wrap(e)
    return r


def _reduce(name, x, axis=None):
    fl = _obj(x).ravel().tolist()
    r = fl[0]
    for e in fl[1:]:
        r = _BINARY[name](r, e)
    return r


def np_any(x, axis=None, **k):
    if not _has_sym(x):
        return _native(_np.any)(x, axis=axis)
    return OR(*[e if isinstance(e, bool) else e != 0 for e in _obj(x).ravel().tolist()])


def np_all(x, axis=None, **k):
    if not _has_sym(x):
        return _native(_np.all)(x, axis=axis)
    return AND(*[e if isinstance(e, bool) else e != 0 for e in _obj(x).ravel().tolist()])


def np_dot(a, b):
    if not _has_sym(a) and not _has_sym(b):
        return _native(_np.dot)(a, b)
    a, b = _obj(a), _obj(b)
    if a.ndim == 1 and b.ndim == 1:
        return s_sum(x * y for x, y in zip(a.tolist(), b.tolist()))
    if a.ndim == 2 and b.ndim == 1:
        return np_array([s_sum(x * y for x, y in zip(r, b.tolist())) for r in a.tolist()])
    if a.ndim == 1 and b.ndim == 2:
        return np_dot(b.T, a)
    if a.ndim == 2 and b.ndim == 2:
        return np_array([[s_sum(x * y for x, y in zip(r, c)) for c in b.T.tolist()] for r in a.tolist()])
    raise Unsupported("numpy.dot shapes")


def _arg(beats, ties):
    """Position of the first best element: one branch per position."""
    def f(x, axis=None, **k):
        if axis is not None and _obj(x).ndim > 1:
            raise Unsupported("argmax along an axis")
        fl = _obj(x).ravel().tolist()
        for i in range(len(fl) - 1):
            if builtins.bool(AND(*[beats(fl[i], fl[j]) if j < i else ties(fl[i], fl[j]) for j in range(len(fl)) if j != i])):
                return i
        return len(fl) - 1
    return f


_argmax_s = _arg(lambda a, b: a > b, lambda a, b: a >= b)
_argmin_s = _arg(lambda a, b: a < b, lambda a, b: a <= b)


def np_argmax(x, axis=None, **k):
    return _argmax_s(x) if _has_sym(x) else _native(_np.argmax)(x, axis=axis)


def np_argmin(x, axis=None, **k):
    return _argmin_s(x) if _has_sym(x) else _native(_np.argmin)(x, axis=axis)


def np_max(x, axis=None, **k):
    return _reduce("maximum", x) if _has_sym(x) else _native(_np.max)(x, axis=axis)


def np_min(x, axis=None, **k):
    return _reduce("minimum", x) if _has_sym(x) else _native(_np.min)(x, axis=axis)


def np_round(x, decimals=0, **k):
    if not _has_sym(x):
        return _native(_np.round)(x, decimals)
    return _elementwise(lambda e: e.__round__(decimals) if sym(e) else float(_np.round(e, decimals)), x)


def np_searchsorted(a, v, side="left", sorter=None):
    if not _has_sym(a) and not _has_sym(v):
        return _native(_np.searchsorted)(a, v, side=side)
    fl = _obj(a).ravel().tolist()

    def one(x):
        for i, e in enumerate(fl):
            if builtins.bool(x <= e) if side == "left" else builtins.bool(x < e):
                return i
        return len(fl)
    return _elementwise(one, v)


def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, side="left" if right else "right")


def np_clip(x, lo=None, hi=None, **k):
    if not _has_sym(x) and not _has_sym(lo) and not _has_sym(hi):
        return _native(_np.clip)(x, lo, hi)
    if lo is not None:
        x = _elementwise(core.smax, x, lo)
    if hi is not None:
        x = _elementwise(core.smin, x, hi)
    return x


def np_insert(a, i, v, axis=None):
    if not _has_sym(a) and not _has_sym(v):
        return _native(_np.insert)(a, i, v)
    fl = _obj(a).ravel().tolist()
    fl.insert(_conc_key(i), v)
    return np_array(fl)


def np_concatenate(xs, axis=0, **k):
    if not _has_sym(list(xs)):
        return _native(_np.concatenate)(list(xs), axis=axis)
    out = []
    for x in xs:
        out += _obj(x).ravel().tolist()
    return np_array(out)


def np_append(a, b, axis=None):
    return np_concatenate([np_atleast_1d(a), np_atleast_1d(b)])


def np_full(shape, v, dtype=None, **k):
    shape = _conc_key(shape)
    if _has_sym(v):
        o = _np.empty(shape, dtype=object)
        o.fill(v)
        return o.view(SymArray)
    return _native(_np.full)(shape, v, dtype=_npdtype(dtype))


def _mk(name):
    f0 = getattr(_np, name)

    def f(shape, dtype=float, **k):
        return _native(f0)(_conc_key(shape), dtype=_npdtype(dtype))
    return f


def np_arange(*a, **k):
    return _native(_np.arange)(*[_conc_key(x) for x in a], **k)


def np_full_like(x, v, dtype=None, **k):
    return np_full(_np.shape(_obj(x)), v, dtype=dtype or (None if x.dtype == object else x.dtype))


def np_zeros_like(x, dtype=None, **k):
    return np_full_like(x, 0, dtype)


def np_take(a, i, axis=None, **k):
    if axis in (None, 0) and isinstance(a, _np.ndarray):
        return wrap(a)[i]
    return _native(_np.take)(a, _conc_key(i), axis)


def np_scalar(name):
    t = getattr(_np, name)
    conv = s_int if name.startswith(("int", "uint")) else s_float

    class M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, t)

    class S(metaclass=M):
        dtype = _np.dtype(t)

        def __new__(cls, x=0):
            if _has_sym(x):
                return conv(x)
            return t(x)
    S.__name__ = name
    return S


def np_nonzero(x):
    return np_where(x)


def np_flatnonzero(x):
    return np_where(x)[0]


def np_prod(x, axis=None, **k):
    if not _has_sym(x):
        return _native(_np.prod)(x, axis=axis)
    a = _obj(x)
    if axis is not None and a.ndim > 1:
        raise Unsupported("numpy.prod along an axis")
    r = 1
    for e in a.ravel().tolist():
        r = r * e
    return r


def np_mean(x, axis=None, **k):
    if not _has_sym(x):
        return _native(_np.average if "weights" in k else _np.mean)(x, axis=axis, **k)
    if k.get("weights") is not None:
        raise Unsupported("weighted mean")
    n = _obj(x).size if axis is None else _obj(x).shape[axis]
    return np_sum(x, axis=axis) / n


def np_diff(x, n=1, **k):
    if not _has_sym(x):
        return _native(_np.diff)(x, n)
    for _ in range(n):
        v = _obj(x).ravel().tolist()
        x = np_array([b - a for a, b in zip(v, v[1:])])
    return x


def np_argsort(x, axis=-1, kind=None, **k):
    if not _has_sym(x):
        return _native(_np.argsort)(x, axis=axis, kind=kind)
    v = _obj(x).ravel().tolist()
    return _np.array(sorted(range(len(v)), key=lambda i: v[i]), dtype=int).view(SymArray)


def np_sort(x, axis=-1, **k):
    return _native(_np.sort)(x, axis=axis) if not _has_sym(x) else np_array(sorted(_obj(x).ravel().tolist()))


def np_unique(x, **k):
    if not _has_sym(x):
        return _native(_np.unique)(x, **k)
    if any(k.values()):
        raise Unsupported("numpy.unique with indices")
    out = []
    for v in sorted(_obj(x).ravel().tolist()):
        if not out or builtins.bool(v != out[-1]):
            out.append(v)
    return np_array(out)


def np_count_nonzero(x, axis=None, **k):
    if not _has_sym(x):
        return _native(_np.count_nonzero)(x, axis=axis)
    return s_sum(ITE(e if isinstance(e, bool) else e != 0, 1, 0) for e in _obj(x).ravel().tolist())


def np_isin(x, of, **k):
    if not _has_sym(x) and not _has_sym(of):
        return _native(_np.isin)(x, of, **k)
    of = _obj(of).ravel().tolist()
    return _elementwise(lambda e: OR(*[e == o for o in of]), x)


def np_divmod(a, b):
    if not _has_sym(a) and not _has_sym(b):
        return _native(_np.divmod)(a, b)
    return _elementwise(lambda x, y: x // y, a, b), _elementwise(lambda x, y: x % y, a, b)


def np_array_equal(a, b, **k):
    if not _has_sym(a) and not _has_sym(b):
        return _native(_np.array_equal)(a, b)
    a, b = _obj(a), _obj(b)
    if a.shape != b.shape:
        return False
    return AND(*[x == y for x, y in zip(a.ravel().tolist(), b.ravel().tolist())])


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not _has_sym(a) and not _has_sym(b):
        return _native(_np.isclose)(a, b, rtol=rtol, atol=atol)
    return _elementwise(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return np_all(np_isclose(a, b, rtol, atol))


def np_unravel_index(i, shape, order="C"):
    if not _has_sym(i) and not any(sym(n) for n in shape):
        return _native(_np.unravel_index)(i, shape, order)
    if _obj(i).ndim:
        raise Unsupported("numpy.unravel_index of an array")
    i = _obj(i).item() if not sym(i) else i
    size = 1
    for n in shape:
        size = size * n
    if not AND(i >= 0, i < size):
        raise ValueError("index is out of bounds for array with size")
    out = []
    for n in (reversed(shape) if order == "C" else shape):
        out.append(i % n)
        i = i // n
    return tuple(reversed(out)) if order == "C" else tuple(out)


def np_ravel_multi_index(index, shape, mode="raise", order="C"):
    if not any(_has_sym(x) for x in index) and not any(sym(n) for n in shape):
        return _native(_np.ravel_multi_index)(index, shape, mode, order)
    if mode != "raise" or any(not sym(x) and _obj(x).ndim for x in index):
        raise Unsupported("numpy.ravel_multi_index of arrays")
    if not AND(*[AND(x >= 0, x < n) for x, n in zip(index, shape)]):
        raise ValueError("invalid entry in coordinates array")
    r = 0
    for x, n in (zip(index, shape) if order == "C" else zip(reversed(index), reversed(shape))):
        r = r * n + x
    return r


def np_cross(a, b, **k):
    if not _has_sym(a) and not _has_sym(b):
        return _native(_np.cross)(a, b, **k)
    a, b = _obj(a).tolist(), _obj(b).tolist()
    if len(a) != 3 or len(b) != 3 or type(a[0]) is list or type(b[0]) is list:
        raise Unsupported("numpy.cross of arrays")
    return np_array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def np_norm(x, ord=None, axis=None, **k):
    if not _has_sym(x):
        return _native(_np.linalg.norm)(x, ord, axis, **k)
    a = _obj(x)
    if a.ndim != 1 or ord not in (None, 2):
        raise Unsupported("numpy.linalg.norm of arrays")
    return _m_sqrt(s_sum(e * e for e in a.tolist()))


def np_linspace(a, b, num=50, endpoint=True, **k):
    if not sym(a) and not sym(b):
        return _native(_np.linspace)(a, b, _conc_key(num), endpoint, **k)
    d = max(num - 1 if endpoint else num, 1)
    return np_array([a + (b - a) * i / d for i in range(num)])


def np_fromiter(x, dtype=None, count=-1, **k):
    x = list(x)
    return np_array(x, dtype) if _has_sym(x) else _native(_np.fromiter)(x, dtype, count)


def np_outer(a, b):
    if not _has_sym(a) and not _has_sym(b):
        return _native(_np.outer)(a, b)
    return np_array([[x * y for y in _obj(b).ravel().tolist()] for x in _obj(a).ravel().tolist()])


def np_ptp(x, axis=None, **k):
    return np_max(x) - np_min(x) if _has_sym(x) else _native(_np.ptp)(x, axis=axis)


def np_median(x, **k):
    if not _has_sym(x):
        return _native(_np.median)(x, **k)
    v = sorted(_obj(x).ravel().tolist())
    return v[len(v) // 2] if len(v) % 2 else (v[len(v) // 2 - 1] + v[len(v) // 2]) / 2


# functions that only rearrange elements
REARRANGE = ("stack", "vstack", "column_stack", "dstack", "reshape", "ravel", "transpose", "repeat", "tile", "roll",
             "squeeze", "expand_dims", "split", "array_split", "flip", "fliplr", "flipud", "broadcast_to", "meshgrid", "delete", "copy",
             "moveaxis", "swapaxes", "atleast_2d", "shape", "size", "ndim", "broadcast_arrays", "compress", "diag", "rot90")


def _rearrange(name):
    f0 = getattr(_np, name)

    def objects(x):
        if isinstance(x, _np.ndarray):
            return _obj(x)
        if isinstance(x, (list, tuple)) and _has_sym(x):
            return type(x)(objects(e) if isinstance(e, _np.ndarray) else e for e in x) \
                if any(isinstance(e, _np.ndarray) for e in x) else _obj(x)
        return x

    def f(*a, **k):
        if not any(_has_sym(x) for x in a):
            return _native(f0)(*a, **k)
        r = f0(*[objects(x) for x in a], **k)
        if isinstance(r, (list, tuple)) and not name == "shape":
            return type(r)(wrap(x) for x in r)
        return wrap(r) if isinstance(r, _np.ndarray) else r
    f.__name__ = name
    return f


class _NP(types.ModuleType):
    def __getattr__(self, name):
        v = getattr(_np, name)
        if isinstance(v, _np.ufunc):
            def uf(*a, **k):
                if any(_has_sym(x) for x in a):
                    if name in _UNARY and len(a) == 1:
                        return _elementwise(_UNARY[name], *a)
                    if name in _BINARY and len(a) == 2:
                        return _elementwise(_BINARY[name], *a)
                    raise Unsupported("numpy.%s on symbolic data" % name)
                return _native(v)(*a, **k)
            uf._shim = True
            uf.__name__ = name
            uf.reduce = getattr(v, "reduce", None)
            uf.at = getattr(v, "at", None)
            setattr(self, name, uf)
            return uf
        if callable(v) and not isinstance(v, type):
            def nf(*a, **k):
                if any(_has_sym(x) for x in a) or any(_has_sym(x) for x in k.values()):
                    raise Unsupported("numpy.%s on symbolic data" % name)
                return _native(v)(*a, **k)
            nf.__name__ = name
            return nf
        return v


NP = _NP("numpy")
for _n in ("array", "asarray", "atleast_1d", "where", "cumsum", "sum", "any", "all", "dot", "argmax", "argmin",
           "max", "min", "round", "searchsorted", "digitize", "clip", "insert", "concatenate", "append", "full",
           "arange", "full_like", "zeros_like", "take", "nonzero", "flatnonzero", "allclose",
           "prod", "mean", "diff", "argsort", "sort", "unique", "count_nonzero", "isin", "divmod", "array_equal", "isclose",
           "unravel_index", "ravel_multi_index", "cross", "linspace", "fromiter", "outer", "ptp", "median"):
    setattr(NP, _n, _shim(globals()["np_" + _n]))
NP.amax, NP.amin, NP.around, NP.matmul, NP.inner = NP.max, NP.min, NP.round, NP.dot, NP.dot
NP.hstack = NP.concatenate
NP.average = NP.mean
for _n in REARRANGE:
    setattr(NP, _n, _shim(_rearrange(_n)))
NP.empty_like = NP.ones_like = NP.zeros_like
NP.ones_like = _shim(lambda x, dtype=None, **k: np_full_like(x, 1, dtype))
for _n in ("zeros", "ones", "empty"):
    setattr(NP, _n, _shim(_mk(_n)))
NP.empty = NP.zeros
NP.ndarray = _np.ndarray
NP.pi = _np.pi
for _n in ("linalg", "random", "testing", "ma", "fft", "lib"):
    if hasattr(_np, _n):
        setattr(NP, _n, getattr(_np, _n))
NP.linalg = types.SimpleNamespace(**{_n: getattr(_np.linalg, _n) for _n in dir(_np.linalg) if _n[0] != "_"})
NP.linalg.norm = np_norm
# dtype names stay usable as dtypes and as conversions
class _DT:
    pass


def _dtype_callable(name):
    t = getattr(_np, name)

    class M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, t)

        def __call__(cls, x=0):
            if _has_sym(x):
                return _caster(t, wraps=False)(x)
            return t(x)
    c = M(name, (), {"dtype": _np.dtype(t)})
    return c


for _n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "intp", "float32", "float64"):
    setattr(NP, _n, _dtype_callable(_n))
NP.bool_ = _np.bool_


# -------------------------------------------------------------------- struct

class SymBytes:
    """A byte string with symbolic fields: pieces (width, format, value)."""

    def __init__(self, pieces):
        self.pieces = pieces

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return sum(w for w, _, _ in self.pieces)

    def __add__(self, o):
        return SymBytes(self.pieces + pieces_of(o))

    def __radd__(self, o):
        return SymBytes(pieces_of(o) + self.pieces)

    def __eq__(self, o):
        if not isinstance(o, bytes):
            return NotImplemented
        return pieces_eq(self.pieces, pieces_of(o))

    def __ne__(self, o):
        return core.NOT(self == o)

    def __hash__(self):
        return 0

    def hex(self):
        return "<symbytes>"

    def split(self, at):
        """The pieces before and after a place."""
        head, left = [], list(self.pieces)
        while at > 0:
            p = left.pop(0)
            if p[0] > at:
                if sym(p[2]):
                    raise Unsupported("part of a packed symbolic number")
                left[:0] = [(1, "c", x) for x in _raw(p)]
                continue
            head.append(p)
            at -= p[0]
        return head, left

    def __getitem__(self, i):
        n = len(self)
        if isinstance(i, slice):
            a, b, step = i.indices(n)
            if step != 1:
                raise Unsupported("every other byte of packed symbolic numbers")
            return SymBytes(SymBytes(self.split(max(a, b))[0]).split(a)[1])
        a = i + n if i < 0 else i
        if not 0 <= a < n:
            raise IndexError("index out of range")
        one = SymBytes(SymBytes(self.split(a + 1)[0]).split(a)[1])
        return one.pieces[0][2] if one.pieces[0][1] != "b" else one.pieces[0][2] % 256

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def __mul__(self, k):
        return SymBytes(self.pieces * k)

    __rmul__ = __mul__

    def __bool__(self):
        return len(self) > 0

    def join(self, xs):
        return s_join(self, xs)


class SymByteArray(SymBytes):
    """A byte string that grows, with symbolic fields."""
    __hash__ = None

    @property
    def __class__(self):
        return bytearray

    def __iadd__(self, o):
        self.pieces = self.pieces + pieces_of(o)
        return self

    extend = __iadd__

    def append(self, x):
        self.pieces = self.pieces + [(1, "B" if sym(x) else "c", x)]

    def __eq__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        return pieces_eq(self.pieces, pieces_of(o))


def s_join(sep, xs):
    """sep.join(xs) of byte strings."""
    xs = list(xs)
    if not any(isinstance(x, SymBytes) for x in xs + [sep]):
        return bytes(sep).join(bytes(x) if type(x) is SymByteArray else x for x in xs)
    out = []
    for i, x in enumerate(xs):
        if not isinstance(x, (bytes, bytearray)):
            raise TypeError("sequence item %d: expected a bytes-like object" % i)
        out += (pieces_of(sep) if i else []) + pieces_of(x)
    return SymBytes(out)


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)


class s_bytes(metaclass=_BytesMeta):
    real = bytes

    def __new__(cls, x=b"", *a, **k):
        if isinstance(x, (SymBytes, SymDigest)):
            return SymBytes(list(x.pieces)) if isinstance(x, SymBytes) else x
        if type(x) in (list, tuple) and any(sym(v) for v in x):
            return SymBytes([(1, "B" if sym(v) else "c", v) for v in x])
        return bytes(x, *a, **k)

    fromhex = staticmethod(bytes.fromhex)
    join = staticmethod(lambda sep, xs: s_join(sep, xs))


class s_bytearray(metaclass=_BytesMeta):
    real = bytearray

    def __new__(cls, x=b"", *a, **k):
        return SymByteArray(pieces_of(x if isinstance(x, SymBytes) else bytes(x, *a, **k)))


BUILTINS.update(bytes=s_bytes, bytearray=s_bytearray)


def pieces_of(x):
    if isinstance(x, SymBytes):
        return list(x.pieces)
    if type(x) is SymDigest:
        raise Unsupported("the bytes of a digest")
    return [(1, "c", b) for b in x]


def pieces_eq(a, b):
    """Equality of two symbolic messages as a formula."""
    a = [p for p in a if p[0]]
    b = [p for p in b if p[0]]
    if sum(p[0] for p in a) != sum(p[0] for p in b):
        return False
    conds = []
    i = j = 0
    while i < len(a):
        wa, fa, va = a[i]
        wb, fb, vb = b[j]
        if wa == wb:
            if fa == fb or {fa, fb} <= {"i", "I", "q", "l"}:
                if sym(va) or sym(vb):
                    conds.append(va == vb)
                elif va != vb:
                    return False
            elif not sym(va) and not sym(vb):
                if _raw(a[i]) != _raw(b[j]):
                    return False
            else:
                conds.append(_unknown(a[i], b[j]))
            i += 1
            j += 1
            continue
        # different boundaries: expand what is concrete
        if wa > wb and not sym(va):
            a[i:i + 1] = [(1, "c", x) for x in _raw(a[i])]
            continue
        if wb > wa and not sym(vb):
            b[j:j + 1] = [(1, "c", x) for x in _raw(b[j])]
            continue
        # symbolic fields at different offsets: equality of the rest is left open (replays decide)
        conds.append(_unknown(*(a[i:] + b[j:])))
        break
    return AND(*conds)


def _unknown(*pieces):
    """An open question: are these differently laid out fields equal?"""
    key = "_".join("%s%s" % (f, v.t.get_id() if sym(v) else v) for _, f, v in pieces)
    return SymBool(z3.Bool("_peq_" + key))


def _raw(p):
    w, f, v = p
    if f == "c":
        return bytes([v])
    return _struct.pack("<" + f, v)


_WIDTH = dict(b=1, B=1, h=2, H=2, i=4, I=4, l=4, L=4, q=8, Q=8, f=4, d=8)
_RANGE = dict(b=(-128, 127), B=(0, 255), h=(-2 ** 15, 2 ** 15 - 1), H=(0, 2 ** 16 - 1),
              i=(-2 ** 31, 2 ** 31 - 1), I=(0, 2 ** 32 - 1), l=(-2 ** 31, 2 ** 31 - 1), L=(0, 2 ** 32 - 1),
              q=(-2 ** 63, 2 ** 63 - 1), Q=(0, 2 ** 64 - 1))


def s_pack(fmt, *args):
    args = [tofloat(a) for a in args]
    if not any(sym(a) for a in args):
        return _struct.pack(fmt, *args)
    if fmt[0] not in "<>=!":
        raise Unsupported("native struct layout with symbolic fields")
    body = fmt[1:].replace(" ", "")
    import re
    out, k = [], 0
    for cnt, ch in re.findall(r"(\d*)([a-zA-Z?])", body):
        if ch == "s":
            n = int(cnt or 1)
            out += [(1, "c", x) for x in _struct.pack("%ds" % n, args[k])]
            k += 1
            continue
        for _ in range(int(cnt) if cnt else 1):
            if k >= len(args):
                raise _struct.error("pack expected more items for packing")
            v = args[k]
            k += 1
            if ch == "x":
                k -= 1
                out.append((1, "c", 0))
            elif ch == "?":
                v = builtins.bool(v)
                out.append((1, "c", 1 if v else 0))
            elif ch in _RANGE:
                if not isinstance(v, int):
                    raise _struct.error("required argument is not an integer")
                lo, hi = _RANGE[ch]
                if not AND(v >= lo, v <= hi):
                    raise _struct.error("'%s' format requires %d <= number <= %d" % (ch, lo, hi))
                out.append((_WIDTH[ch], ch if ch not in "lL" else ch.replace("l", "i").replace("L", "I"), v))
            elif ch == "d":
                out.append((8, "d", toreal(v) if sym(v) else float(v)))
            elif ch == "f":
                out.append((4, "f", _f32(v)))
            else:
                raise Unsupported("struct format %r" % ch)
    if k != len(args):
        raise _struct.error("pack expected %d items for packing (got %d)" % (k, len(args)))
    return SymBytes(out)


def int_bytes(x, fmt):
    """int.to_bytes, least significant byte first."""
    lo, hi = _RANGE[fmt]
    if AND(x >= lo, x <= hi):
        return SymBytes([(_WIDTH[fmt], fmt, x)])
    raise OverflowError("int too big to convert")


def array_bytes(a):
    """ndarray.tobytes of an array with symbolic elements."""
    out = []
    for x in a.ravel().tolist():
        v = toreal(x) if type(x) is SymReal else x
        if type(v) is SymReal or isinstance(x, builtins.float):
            out.append((8, "d", v))
        elif type(v) is SymInt or type(v) is builtins.int:
            out.append((8, "q", v))
        else:
            raise Unsupported("the bytes of such an array")
    return SymBytes(out)


_F32 = z3.Function("_f32", z3.RealSort(), z3.RealSort())
_TINY = 24


def _f32(v):
    """The single precision number nearest to one of at least 2**-24 in size
    (a smaller one is left as it is)."""
    if not sym(v):
        return _struct.unpack("<f", _struct.pack("<f", v))[0]
    v = toreal(v)
    top = max(abs(v.lo), abs(v.hi))
    t, m = _F32(v.t), z3.Int("_f32m%d" % v.t.get_id())
    mag = z3.If(v.t < 0, -v.t, v.t)
    cases, k = v.t, 1 - _TINY
    near = z3.BoolVal(True)
    while True:
        # numbers below 2**k are multiples of 2**(k - 24)
        u = Fraction(2) ** (k - 24)
        ulp = z3.RealVal(str(u))
        lower = z3.RealVal(str(Fraction(2) ** (k - 1)))
        cases = z3.If(mag >= lower, z3.ToReal(m) * ulp, cases)
        near = z3.If(mag >= lower, z3.And(2 * (t - v.t) <= ulp, 2 * (v.t - t) <= ulp), near)
        if Fraction(2) ** k > top:
            break
        k += 1
    core.cur().add(z3.And(t == cases, near))
    b = top * 1.00001
    return SymReal(t, -b, b)


def make_struct():
    m = types.ModuleType("struct")
    for n in ("error", "calcsize", "unpack", "unpack_from", "pack_into", "iter_unpack"):
        setattr(m, n, getattr(_struct, n))
    m.pack = s_pack

    class Struct:
        def __init__(self, fmt):
            self.format = fmt
            self.size = _struct.calcsize(fmt)

        def pack(self, *a):
            return s_pack(self.format, *a)
    m.Struct = Struct
    return m


# ------------------------------------------------------------------- hashlib

class SymHash:
    def __init__(self, name, data=b""):
        self.name = name
        self.pieces = pieces_of(data)

    def update(self, data):
        if not isinstance(data, (bytes, bytearray)):
            raise TypeError("object supporting the buffer API required")
        self.pieces += pieces_of(data)

    def digest(self):
        return SymDigest(self.name, list(self.pieces))

    def hexdigest(self):
        return self.digest()

    def copy(self):
        h = SymHash(self.name)
        h.pieces = list(self.pieces)
        return h


class SymDigest:
    """The digest of a symbolic message; equal iff the messages are."""

    def __init__(self, name, pieces, part=None):
        self.name, self.pieces = name, pieces
        # which of its bytes are kept: parts of eight bytes or more are taken to tell messages apart too
        self.part = range(_hashlib.new(name).digest_size) if part is None else part

    @property
    def __class__(self):
        return bytes

    def __getitem__(self, i):
        part = self.part[i]
        if not isinstance(part, range) or len(part) < 8:
            raise Unsupported("a few bytes of a digest")
        return SymDigest(self.name, self.pieces, part)

    def __eq__(self, o):
        if type(o) is not SymDigest:
            return False
        if o.name != self.name or o.part != self.part:
            return False
        return pieces_eq(list(self.pieces), list(o.pieces))

    def __ne__(self, o):
        return core.NOT(self == o)

    def __hash__(self):
        return 0

    def hex(self):
        return "<symdigest>"

    def __len__(self):
        return len(self.part)


def make_hashlib():
    m = types.ModuleType("hashlib")
    for n in ("sha1", "sha256", "md5", "sha224", "sha384", "sha512", "blake2b"):
        setattr(m, n, (lambda nn: lambda data=b"", **k: SymHash(nn, data))(n))
    m.new = lambda name, data=b"", **k: SymHash(name, data)
    return m
