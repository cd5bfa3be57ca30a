"""lsst.geom, written from its documentation and C++ sources.

lsst.geom is not installed here, so the checks supply it.  The same classes
serve symbolic runs and replays: arithmetic goes through `S`, which works on
numbers and on symbolic values.
"""
import math as _math

from symx import core
from symx import shim as S
from models import pexexc

INT_MIN = -2 ** 31
EPSILON = 2.0 ** -52 * 2


def _isint(x):
    if isinstance(x, bool):
        return True
    return isinstance(x, int) or type(x).__name__ in ("int8", "int16", "int32", "int64", "uint8", "uint16",
                                                      "uint32", "uint64")


def _num(x):
    return isinstance(x, (int, float)) or hasattr(x, "__float__")


def _toint(x, what):
    if not _isint(x):
        raise TypeError("%s: incompatible constructor arguments (%r is not an int)" % (what, type(x).__name__))
    if S.sym(x):
        return core.toint(x)
    return int(x)


def _tofloat(x):
    if S.sym(x):
        return core.toreal(x)
    g = getattr(x, "__symfloat__", None)
    if g is not None:
        return g()
    return float(x)


def ifloor(x):
    if S.sym(x):
        return x.__floor__()
    if not _math.isfinite(x):
        return INT_MIN
    return _math.floor(x)


def iceil(x):
    if S.sym(x):
        return x.__ceil__()
    if not _math.isfinite(x):
        return INT_MIN
    return _math.ceil(x)


# ------------------------------------------------------------------- angles

class AngleUnit:
    __array_ufunc__ = None

    def __init__(self, val, name):
        self._val = val
        self._name = name

    def __mul__(self, o):
        if _num(o):
            return Angle(o, self)
        return NotImplemented

    __rmul__ = __mul__

    def __eq__(self, o):
        return isinstance(o, AngleUnit) and self._val == o._val

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._val)

    def __repr__(self):
        return self._name

    def __reduce__(self):
        return self._name


PI = _math.pi
TWOPI = 2 * _math.pi
HALFPI = _math.pi / 2
radians = AngleUnit(1.0, "radians")
degrees = AngleUnit(PI / 180.0, "degrees")
hours = AngleUnit(PI * 15.0 / 180.0, "hours")
arcminutes = AngleUnit(PI / 60 / 180.0, "arcminutes")
arcseconds = AngleUnit(PI / 180.0 / 3600, "arcseconds")
milliarcseconds = AngleUnit(PI / 180.0 / (3600 * 1e3), "milliarcseconds")


def degToRad(x):
    return x * (PI / 180.0)


def radToDeg(x):
    return x * (180.0 / PI)


def arcsecToRad(x):
    return x / 3600.0 * (PI / 180.0)


class Angle:
    __array_ufunc__ = None
    __slots__ = ("_v",)

    def __init__(self, val=0.0, units=radians):
        if isinstance(val, Angle):
            self._v = val._v
            return
        if not isinstance(units, AngleUnit):
            raise TypeError("Angle: units must be an AngleUnit")
        v = _tofloat(val)
        self._v = v if units._val == 1.0 else v * units._val

    def __symfloat__(self):
        return self._v

    def asAngularUnits(self, units):
        return self._v / units._val

    def asRadians(self):
        return self._v

    def asDegrees(self):
        return self._v / degrees._val

    def asHours(self):
        return self._v / hours._val

    def asArcminutes(self):
        return self._v / arcminutes._val

    def asArcseconds(self):
        return self._v / arcseconds._val

    def asMilliarcseconds(self):
        return self._v / milliarcseconds._val

    def wrap(self):
        v = self._v
        if not S.sym(v):
            if not _math.isfinite(v):
                return Angle(_math.nan)
            w = _math.fmod(v, TWOPI)
            if w < 0.0:
                w += TWOPI
            if w >= TWOPI:
                w = 0.0
            return Angle(w)
        w = S._m_fmod(v, TWOPI)
        if w < 0.0:
            w = w + TWOPI
            if w >= TWOPI:
                w = 0.0
        return Angle(w)

    def wrapCtr(self):
        w = self.wrap()._v
        if w >= PI:
            w = w - TWOPI
        return Angle(w)

    def wrapNear(self, ref):
        w = Angle(self._v - ref._v).wrapCtr()._v
        return Angle(w + ref._v)

    def separation(self, other):
        return Angle(self._v - other._v).wrapCtr()

    def __float__(self):
        return float(self._v)

    def _o(self, o):
        if isinstance(o, Angle):
            return o._v
        if _num(o):
            return _tofloat(o)
        return None

    def __add__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else Angle(self._v + v)

    __radd__ = __add__

    def __sub__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else Angle(self._v - v)

    def __rsub__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else Angle(v - self._v)

    def __mul__(self, o):
        if isinstance(o, Angle) or not _num(o):
            return NotImplemented
        return Angle(self._v * _tofloat(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Angle):
            return self._v / o._v
        if not _num(o):
            return NotImplemented
        return Angle(self._v / _tofloat(o))

    def __neg__(self):
        return Angle(-self._v)

    def __pos__(self):
        return self

    def __abs__(self):
        return Angle(abs(self._v))

    def __lt__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else self._v < v

    def __le__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else self._v <= v

    def __gt__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else self._v > v

    def __ge__(self, o):
        v = self._o(o)
        return NotImplemented if v is None else self._v >= v

    def __eq__(self, o):
        v = self._o(o)
        return False if v is None else self._v == v

    def __ne__(self, o):
        return core.NOT(self == o)

    def __hash__(self):
        return hash(self._v)

    def __str__(self):
        return "%s rad" % (self._v,)

    def __repr__(self):
        return "Angle(%s, radians)" % (self._v,)

    def __reduce__(self):
        return (Angle, (self._v,))


NullAngle = Angle(_math.nan)


def isAngle(x):
    return isinstance(x, Angle)


# --------------------------------------------------------- points and extents

class _Coord:
    _isint = False
    _n = 2
    __hash__ = None

    def __init__(self, *a, **k):
        names = "xyz"[:self._n]
        if k:
            a = a + tuple(k[c] for c in names[len(a):] if c in k)
            if len(a) != self._n:
                raise TypeError("%s: incompatible constructor arguments" % type(self).__name__)
        if len(a) == 0:
            a = (0,) * self._n
        if len(a) == 1:
            o = a[0]
            if isinstance(o, _Coord):
                if o._n != self._n:
                    raise TypeError("dimension mismatch")
                if self._isint and not o._isint:
                    if isinstance(self, _Point) and isinstance(o, _Point):
                        # rounds to the pixel that contains the position
                        self._c = [ifloor(v + 0.5) for v in o._c]
                        return
                    raise TypeError("%s: cannot convert from %s" % (type(self).__name__, type(o).__name__))
                self._c = [self._conv(v) for v in o._c]
                return
            if isinstance(o, (tuple, list)) and len(o) == self._n:
                a = tuple(o)
            elif _num(o):
                a = (o,) * self._n
            else:
                try:
                    a = tuple(o)
                except TypeError:
                    raise TypeError("%s: incompatible constructor arguments" % type(self).__name__)
        if len(a) != self._n:
            raise TypeError("%s: incompatible constructor arguments" % type(self).__name__)
        self._c = [self._conv(v) for v in a]

    def _conv(self, v):
        if self._isint:
            return _toint(v, type(self).__name__)
        if isinstance(v, (str, bytes)) or v is None:
            raise TypeError("%s: not a number" % type(self).__name__)
        return _tofloat(v)

    def getX(self):
        return self._c[0]

    def getY(self):
        return self._c[1]

    def getZ(self):
        return self._c[2]

    def setX(self, v):
        self._c[0] = self._conv(v)

    def setY(self, v):
        self._c[1] = self._conv(v)

    def setZ(self, v):
        self._c[2] = self._conv(v)

    x = property(getX, setX)
    y = property(getY, setY)

    def __getitem__(self, i):
        if S.sym(i):
            i = core.cur().fork_value(i)
        i = i.__index__()
        if i < -self._n or i >= self._n:
            raise IndexError("index out of range")
        return self._c[i]

    def __setitem__(self, i, v):
        i = i.__index__()
        if i < -self._n or i >= self._n:
            raise IndexError("index out of range")
        self._c[i] = self._conv(v)

    def __len__(self):
        return self._n

    def __iter__(self):
        return iter(list(self._c))

    def __eq__(self, o):
        if not isinstance(o, _Coord) or isinstance(o, _Point) != isinstance(self, _Point):
            return False
        return core.AND(*[a == b for a, b in zip(self._c, o._c)])

    def __ne__(self, o):
        return core.NOT(self == o)

    def __repr__(self):
        return "%s(%s)" % (type(self).__name__, ", ".join(str(c) for c in self._c))

    __str__ = __repr__

    def __copy__(self):
        return type(self)(*self._c)

    def __deepcopy__(self, memo):
        return type(self)(*self._c)

    def clone(self):
        return type(self)(*self._c)

    def asPair(self):
        return tuple(self._c)

    def _family(self, kind, isint):
        return _TYPES[kind, self._n, isint]

    def __reduce__(self):
        return (type(self), tuple(self._c))


class _Point(_Coord):
    __array_ufunc__ = None

    def __add__(self, o):
        if isinstance(o, _Extent):
            t = self._family("P", self._isint and o._isint)
            return t(*[a + b for a, b in zip(self._c, o._c)])
        if _num(o) and not isinstance(o, _Coord):
            return _TYPES["P", self._n, self._isint and _isint(o)](*[a + o for a in self._c])
        return NotImplemented

    def __sub__(self, o):
        isint = self._isint and getattr(o, "_isint", False)
        if isinstance(o, _Extent):
            return self._family("P", isint)(*[a - b for a, b in zip(self._c, o._c)])
        if isinstance(o, _Point):
            return self._family("E", isint)(*[a - b for a, b in zip(self._c, o._c)])
        if _num(o) and not isinstance(o, _Coord):
            return _TYPES["P", self._n, self._isint and _isint(o)](*[a - o for a in self._c])
        return NotImplemented

    def __iadd__(self, o):
        return self + o

    def __isub__(self, o):
        return self - o

    def shift(self, e):
        self._c = [a + b for a, b in zip(self._c, e._c)]

    def scale(self, f):
        self._c = [a * f for a in self._c]

    def distanceSquared(self, o):
        return S.s_sum((a - b) * (a - b) for a, b in zip(self._c, o._c))


class _Extent(_Coord):
    __array_ufunc__ = None

    def _ew(self, o, f):
        if isinstance(o, _Extent):
            return self._family("E", self._isint and o._isint)(*[f(a, b) for a, b in zip(self._c, o._c)])
        return None

    def __add__(self, o):
        if isinstance(o, _Point):
            return o + self
        r = self._ew(o, lambda a, b: a + b)
        return NotImplemented if r is None else r

    def __sub__(self, o):
        r = self._ew(o, lambda a, b: a - b)
        return NotImplemented if r is None else r

    def __iadd__(self, o):
        return self + o

    def __isub__(self, o):
        return self - o

    def __mul__(self, o):
        if not _num(o) or isinstance(o, _Coord):
            return NotImplemented
        return self._family("E", self._isint and _isint(o))(*[a * o for a in self._c])

    __rmul__ = __mul__

    def __imul__(self, o):
        return self * o

    def __truediv__(self, o):
        return self._family("E", False)(*[a / o for a in self._c])

    def __floordiv__(self, o):
        return self._family("E", self._isint)(*[a // o for a in self._c])

    def __neg__(self):
        return type(self)(*[-a for a in self._c])

    def computeSquaredNorm(self):
        return S.s_sum(a * a for a in self._c)

    def computeNorm(self):
        return S._m_sqrt(self.computeSquaredNorm())

    def eq(self, o):
        return tuple(a == b for a, b in zip(self._c, o._c))


class PointBase:
    pass


ExtentBase = PointBase


class Point2I(_Point):
    _isint = True


class Point2D(_Point):
    pass


class Extent2I(_Extent):
    _isint = True

    def __init__(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], _Extent) and not a[0]._isint:
            raise TypeError("Extent2I: cannot convert from Extent2D")
        super().__init__(*a, **k)


class Extent2D(_Extent):
    pass


class Point3I(_Point):
    _isint, _n = True, 3


class Point3D(_Point):
    _n = 3


class Extent3I(_Extent):
    _isint, _n = True, 3


class Extent3D(_Extent):
    _n = 3


_TYPES = {("P", 2, True): Point2I, ("P", 2, False): Point2D, ("E", 2, True): Extent2I, ("E", 2, False): Extent2D,
          ("P", 3, True): Point3I, ("P", 3, False): Point3D, ("E", 3, True): Extent3I, ("E", 3, False): Extent3D}
PointI, PointD, ExtentI, ExtentD = Point2I, Point2D, Extent2I, Extent2D


def _isfin(x):
    return True if S.sym(x) else _math.isfinite(x)


# -------------------------------------------------------------------- Box2I

class Box2I:
    EXPAND = "EXPAND"
    SHRINK = "SHRINK"

    class EdgeHandlingEnum:
        EXPAND = "EXPAND"
        SHRINK = "SHRINK"

    __hash__ = None

    def __init__(self, *a, **k):
        invert = k.pop("invert", True)
        edge = k.pop("edgeHandling", "EXPAND")
        if k:
            if "minimum" in k and "maximum" in k:
                a = (k["minimum"], k["maximum"])
            elif "corner" in k and "dimensions" in k:
                a = (k["corner"], k["dimensions"])
            elif "minimum" in k and "dimensions" in k:
                a = (k["minimum"], k["dimensions"])
            elif "other" in k:
                a = (k["other"],)
            elif "maximum" in k and len(a) == 1:
                a = (a[0], k["maximum"])
            elif "dimensions" in k and len(a) == 1:
                a = (a[0], k["dimensions"])
            else:
                raise TypeError("Box2I: incompatible constructor arguments")
        if len(a) == 3:
            invert = a[2]
            a = a[:2]
        if len(a) == 0:
            self._min, self._dim = [0, 0], [0, 0]
            return
        if len(a) == 2 and isinstance(a[1], str):
            edge = a[1]
            a = a[:1]
        if len(a) == 1:
            o = a[0]
            if isinstance(o, Box2I):
                self._min, self._dim = list(o._min), list(o._dim)
                return
            if isinstance(o, Box2D):
                if o.isEmpty():
                    self._min, self._dim = [0, 0], [0, 0]
                    return
                if not all(_isfin(v) for v in o._min + o._max):
                    raise pexexc.InvalidParameterError("Cannot convert non-finite Box2D to Box2I")
                lo = [v + 0.5 for v in o._min]
                hi = [v - 0.5 for v in o._max]
                if edge == "EXPAND":
                    self._min = [ifloor(v) for v in lo]
                    self._dim = [iceil(v) + 1 - m for v, m in zip(hi, self._min)]
                else:
                    self._min = [iceil(v) for v in lo]
                    self._dim = [ifloor(v) + 1 - m for v, m in zip(hi, self._min)]
                self._norm()
                return
            raise TypeError("Box2I: incompatible constructor arguments")
        if len(a) != 2 or not isinstance(a[0], Point2I):
            raise TypeError("Box2I: incompatible constructor arguments")
        if isinstance(a[1], Point2I):
            self._min = list(a[0]._c)
            self._dim = [b - m + 1 for b, m in zip(a[1]._c, self._min)]
            for i in range(2):
                if self._dim[i] == 0:
                    self._min, self._dim = [0, 0], [0, 0]
                    return
                if self._dim[i] < 0:
                    if not invert:
                        self._min, self._dim = [0, 0], [0, 0]
                        return
                    self._min[i] = a[1]._c[i]
                    self._dim[i] = a[0]._c[i] - a[1]._c[i] + 1
            return
        if isinstance(a[1], Extent2I):
            self._min = list(a[0]._c)
            self._dim = list(a[1]._c)
            for i in range(2):
                if self._dim[i] == 0:
                    self._min, self._dim = [0, 0], [0, 0]
                    return
                if self._dim[i] < 0:
                    if not invert:
                        self._min, self._dim = [0, 0], [0, 0]
                        return
                    self._min[i] = self._min[i] + self._dim[i] + 1
                    self._dim[i] = -self._dim[i]
            return
        raise TypeError("Box2I: incompatible constructor arguments")

    @staticmethod
    def makeCenteredBox(center, size):
        corner = Point2D(center) - Extent2D(0.5 * size.getX(), 0.5 * size.getY())
        return Box2I(Point2I(corner + Extent2D(0.5, 0.5)), size, invert=False)

    def _norm(self):
        if core.OR(self._dim[0] <= 0, self._dim[1] <= 0):
            self._min, self._dim = [0, 0], [0, 0]

    def isEmpty(self):
        r = core.AND(self._dim[0] == 0, self._dim[1] == 0)
        return bool(r)

    def getMin(self):
        return Point2I(*self._min)

    def getMinX(self):
        return self._min[0]

    def getMinY(self):
        return self._min[1]

    def getMax(self):
        return Point2I(self.getMaxX(), self.getMaxY())

    def getMaxX(self):
        return self._min[0] + self._dim[0] - 1

    def getMaxY(self):
        return self._min[1] + self._dim[1] - 1

    def getBegin(self):
        return self.getMin()

    getBeginX, getBeginY = getMinX, getMinY

    def getEnd(self):
        return Point2I(self.getEndX(), self.getEndY())

    def getEndX(self):
        return self._min[0] + self._dim[0]

    def getEndY(self):
        return self._min[1] + self._dim[1]

    def getDimensions(self):
        return Extent2I(*self._dim)

    def getWidth(self):
        return self._dim[0]

    def getHeight(self):
        return self._dim[1]

    def getArea(self):
        return self._dim[0] * self._dim[1]

    def getCenter(self):
        return Box2D(self).getCenter()

    def getCorners(self):
        return [self.getMin(), Point2I(self.getMaxX(), self.getMinY()), self.getMax(),
                Point2I(self.getMinX(), self.getMaxY())]

    minX, minY, maxX, maxY = property(getMinX), property(getMinY), property(getMaxX), property(getMaxY)
    beginX, beginY, endX, endY = property(getBeginX), property(getBeginY), property(getEndX), property(getEndY)
    width, height, area = property(getWidth), property(getHeight), property(getArea)
    dimensions = property(getDimensions)

    def _containsp(self, x, y):
        return core.AND(x >= self.getMinX(), y >= self.getMinY(), x <= self.getMaxX(), y <= self.getMaxY())

    def contains(self, *a):
        if len(a) == 2:
            return self._containsp(*a)
        o = a[0]
        if isinstance(o, Point2I):
            return self._containsp(o.getX(), o.getY())
        if isinstance(o, Box2I):
            return core.OR(o.isEmpty(), core.AND(self._containsp(o.getMinX(), o.getMinY()),
                                                 self._containsp(o.getMaxX(), o.getMaxY())))
        raise TypeError("Box2I.contains: incompatible arguments")

    def __contains__(self, o):
        return bool(self.contains(o))

    def overlaps(self, o):
        if self.isEmpty() or o.isEmpty():
            return False
        return core.NOT(core.OR(o.getMinX() > self.getMaxX(), o.getMaxX() < self.getMinX(),
                                o.getMinY() > self.getMaxY(), o.getMaxY() < self.getMinY()))

    intersects = overlaps

    def isDisjointFrom(self, o):
        return core.NOT(self.overlaps(o))

    def grow(self, b):
        if self.isEmpty():
            return
        if isinstance(b, _Extent):
            e = [_toint(v, "grow") for v in b._c]
        else:
            e = [_toint(b, "grow")] * 2
        self._min = [m - x for m, x in zip(self._min, e)]
        self._dim = [d + x * 2 for d, x in zip(self._dim, e)]
        self._norm()

    def shift(self, e):
        if self.isEmpty():
            return
        self._min = [m + x for m, x in zip(self._min, e._c)]

    def clip(self, o):
        if self.isEmpty():
            return
        if o.isEmpty():
            self._min, self._dim = [0, 0], [0, 0]
            return
        hi = [core.smin(a, b) for a, b in zip(self.getMax()._c, o.getMax()._c)]
        lo = [core.smax(a, b) for a, b in zip(self._min, o._min)]
        if core.OR(lo[0] > hi[0], lo[1] > hi[1]):
            self._min, self._dim = [0, 0], [0, 0]
            return
        self._min = lo
        self._dim = [h - m + 1 for h, m in zip(hi, lo)]

    def include(self, o):
        if isinstance(o, Point2I):
            if self.isEmpty():
                self._min, self._dim = list(o._c), [1, 1]
                return
            lo = [core.smin(a, b) for a, b in zip(self._min, o._c)]
            hi = [core.smax(a, b) for a, b in zip(self.getMax()._c, o._c)]
        else:
            if o.isEmpty():
                return
            if self.isEmpty():
                self._min, self._dim = list(o._min), list(o._dim)
                return
            lo = [core.smin(a, b) for a, b in zip(self._min, o._min)]
            hi = [core.smax(a, b) for a, b in zip(self.getMax()._c, o.getMax()._c)]
        self._min = lo
        self._dim = [h - m + 1 for h, m in zip(hi, lo)]

    def dilatedBy(self, b):
        r = Box2I(self)
        r.grow(b)
        return r

    def erodedBy(self, b):
        return self.dilatedBy(b * -1)

    def shiftedBy(self, e):
        r = Box2I(self)
        r.shift(e)
        return r

    def clippedTo(self, o):
        r = Box2I(self)
        r.clip(o)
        return r

    def expandedTo(self, o):
        r = Box2I(self)
        r.include(o)
        return r

    def __eq__(self, o):
        if not isinstance(o, Box2I):
            return False
        return core.AND(self._min[0] == o._min[0], self._min[1] == o._min[1],
                        self._dim[0] == o._dim[0], self._dim[1] == o._dim[1])

    def __ne__(self, o):
        return core.NOT(self == o)

    def __repr__(self):
        return "Box2I(minimum=%r, dimensions=%r)" % (self.getMin(), self.getDimensions())

    __str__ = __repr__

    def __copy__(self):
        return Box2I(self)

    def __deepcopy__(self, memo):
        return Box2I(self)

    def __reduce__(self):
        return (Box2I, (self.getMin(), self.getDimensions()))


# -------------------------------------------------------------------- Box2D

class Box2D:
    EPSILON = EPSILON
    INVALID = _math.nan
    __hash__ = None

    def __init__(self, *a, **k):
        invert = k.pop("invert", True)
        if k:
            if "minimum" in k and "maximum" in k:
                a = (k["minimum"], k["maximum"])
            elif "dimensions" in k and ("minimum" in k or "corner" in k):
                a = (k.get("minimum", k.get("corner")), k["dimensions"])
            elif "other" in k:
                a = (k["other"],)
            else:
                raise TypeError("Box2D: incompatible constructor arguments")
        self._min = [_math.nan, _math.nan]
        self._max = [_math.nan, _math.nan]
        self._empty = True
        if len(a) == 0:
            return
        if len(a) == 1:
            o = a[0]
            if isinstance(o, Box2D):
                self._min, self._max, self._empty = list(o._min), list(o._max), o._empty
                return
            if isinstance(o, Box2I):
                if o.isEmpty():
                    return
                self._min = [_half(v, -1) for v in o._min]
                self._max = [_half(v, +1) for v in o.getMax()._c]
                self._empty = False
                return
            raise TypeError("Box2D: incompatible constructor arguments")
        if not isinstance(a[0], _Point):
            raise TypeError("Box2D: incompatible constructor arguments")
        lo = [_tofloat(v) for v in a[0]._c]
        if isinstance(a[1], _Point):
            hi = [_tofloat(v) for v in a[1]._c]
        elif isinstance(a[1], _Extent):
            hi = [x + _tofloat(v) for x, v in zip(lo, a[1]._c)]
        else:
            raise TypeError("Box2D: incompatible constructor arguments")
        for i in range(2):
            if lo[i] == hi[i]:
                return
            if lo[i] > hi[i]:
                if not invert:
                    return
                lo[i], hi[i] = hi[i], lo[i]
        self._min, self._max, self._empty = lo, hi, False

    def isEmpty(self):
        return self._empty

    def _check(self):
        if core.OR(self._min[0] >= self._max[0], self._min[1] >= self._max[1]):
            self.__init__()

    def _tweak(self, i):
        m = self._max[i]
        if S.sym(m):
            c = core.cur()
            if c.run.fp == "ideal":
                return
            # m > 0: m*(1+eps); m < 0: m*(1-eps); 0: eps -- all slightly larger
            b = max(abs(m.lo), abs(m.hi)) * 2.0 ** -50 + EPSILON
            e = c.freshreal("tw", 0.0, b)
            m = core.toreal(m)
            nf = m.nf and (m.nf[0], m.nf[1], m.nf[2] + b)
            self._max[i] = core.SymReal(m.t + e.t, m.lo, m.hi + b, nf)
            return
        if m < 0.0:
            self._max[i] = m * (1.0 - EPSILON)
        elif m > 0.0:
            self._max[i] = m * (1.0 + EPSILON)
        else:
            self._max[i] = EPSILON

    def include(self, o):
        if isinstance(o, Box2D):
            if o.isEmpty():
                return
            if self.isEmpty():
                self.__init__(o)
                return
            self._min = [core.smin(a, b) for a, b in zip(self._min, o._min)]
            self._max = [core.smax(a, b) for a, b in zip(self._max, o._max)]
            return
        if not isinstance(o, _Point):
            raise TypeError("Box2D.include: incompatible argument")
        p = [_tofloat(v) for v in o._c]
        if self._empty:
            self._min, self._max, self._empty = list(p), list(p), False
            self._tweak(0)
            self._tweak(1)
            return
        for i in range(2):
            if S.sym(p[i]) or S.sym(self._min[i]) or S.sym(self._max[i]):
                v = core.toreal(p[i])
                grow = core.decide(v >= self._max[i])
                old = self._max[i]
                self._min[i] = core.smin(self._min[i], v)
                if grow is False:
                    continue
                self._max[i] = v
                self._tweak(i)
                self._max[i] = core.ITE(grow, self._max[i], old)
                continue
            if p[i] < self._min[i]:
                self._min[i] = p[i]
            elif p[i] >= self._max[i]:
                self._max[i] = p[i]
                self._tweak(i)

    def getMin(self):
        return Point2D(*self._min)

    def getMinX(self):
        return self._min[0]

    def getMinY(self):
        return self._min[1]

    def getMax(self):
        return Point2D(*self._max)

    def getMaxX(self):
        return self._max[0]

    def getMaxY(self):
        return self._max[1]

    def getDimensions(self):
        if self._empty:
            return Extent2D(0.0, 0.0)
        return Extent2D(self._max[0] - self._min[0], self._max[1] - self._min[1])

    def getWidth(self):
        return self.getDimensions()[0]

    def getHeight(self):
        return self.getDimensions()[1]

    def getArea(self):
        d = self.getDimensions()
        return d[0] * d[1]

    def getCenter(self):
        return Point2D((self._min[0] + self._max[0]) * 0.5, (self._min[1] + self._max[1]) * 0.5)

    def getCenterX(self):
        return self.getCenter()[0]

    def getCenterY(self):
        return self.getCenter()[1]

    def getCorners(self):
        return [self.getMin(), Point2D(self._max[0], self._min[1]), self.getMax(), Point2D(self._min[0], self._max[1])]

    minX, minY, maxX, maxY = property(getMinX), property(getMinY), property(getMaxX), property(getMaxY)
    width, height = property(getWidth), property(getHeight)
    center = property(getCenter)
    centerX, centerY = property(getCenterX), property(getCenterY)
    dimensions = property(getDimensions)

    def contains(self, *a):
        if self._empty:
            return len(a) == 1 and isinstance(a[0], Box2D) and a[0]._empty
        if len(a) == 2:
            x, y = a
        elif isinstance(a[0], _Point):
            x, y = a[0]._c
        else:
            o = a[0]
            if o.isEmpty():
                return True
            return core.AND(o._min[0] >= self._min[0], o._min[1] >= self._min[1],
                            o._max[0] <= self._max[0], o._max[1] <= self._max[1])
        return core.AND(x >= self._min[0], y >= self._min[1], x < self._max[0], y < self._max[1])

    def __contains__(self, o):
        return bool(self.contains(o))

    def overlaps(self, o):
        if self._empty or o._empty:
            return False
        return core.NOT(core.OR(o._min[0] >= self._max[0], o._max[0] <= self._min[0],
                                o._min[1] >= self._max[1], o._max[1] <= self._min[1]))

    def grow(self, b):
        if self._empty:
            return
        e = [_tofloat(v) for v in b._c] if isinstance(b, _Extent) else [_tofloat(b)] * 2
        self._min = [m - x for m, x in zip(self._min, e)]
        self._max = [m + x for m, x in zip(self._max, e)]
        self._check()

    def shift(self, e):
        if self._empty:
            return
        self._min = [m + x for m, x in zip(self._min, e._c)]
        self._max = [m + x for m, x in zip(self._max, e._c)]

    def clip(self, o):
        if self._empty:
            return
        if o._empty:
            self.__init__()
            return
        self._min = [core.smax(a, b) for a, b in zip(self._min, o._min)]
        self._max = [core.smin(a, b) for a, b in zip(self._max, o._max)]
        self._check()

    def dilatedBy(self, b):
        r = Box2D(self)
        r.grow(b)
        return r

    def erodedBy(self, b):
        return self.dilatedBy(b * -1)

    def shiftedBy(self, e):
        r = Box2D(self)
        r.shift(e)
        return r

    def clippedTo(self, o):
        r = Box2D(self)
        r.clip(o)
        return r

    def expandedTo(self, o):
        r = Box2D(self)
        r.include(o)
        return r

    def __eq__(self, o):
        if not isinstance(o, Box2D):
            return False
        if self._empty or o._empty:
            return self._empty and o._empty
        return core.AND(*[a == b for a, b in zip(self._min + self._max, o._min + o._max)])

    def __ne__(self, o):
        return core.NOT(self == o)

    def __repr__(self):
        return "Box2D(minimum=%r, maximum=%r)" % (self.getMin(), self.getMax())

    __str__ = __repr__


def _half(v, sign):
    """int +/- 0.5, exact."""
    if S.sym(v):
        return core.toreal(v) + 0.5 * sign
    return v + 0.5 * sign


BoxI, BoxD = Box2I, Box2D


# -------------------------------------------------------------- SpherePoint

class SpherePoint:
    """Subclassed by harnesses whose sky positions are abstract."""

    def __init__(self, *a, **k):
        if "units" in k:
            a = a + (k["units"],)
        if "longitude" in k:
            a = (k["longitude"], k["latitude"]) + a
        if len(a) == 0:
            self._lon = self._lat = _math.nan
            return
        if len(a) == 1:
            o = a[0]
            if isinstance(o, SpherePoint):
                self._lon, self._lat = o._lon, o._lat
                return
            x, y, z = o.x(), o.y(), o.z()
            if S.sym(x) or S.sym(y) or S.sym(z):
                raise core.Unsupported("SpherePoint of a symbolic vector")
            n = _math.sqrt(x * x + y * y + z * z)
            if n <= 0:
                raise pexexc.InvalidParameterError("Cannot normalize zero vector")
            x, y, z = x / n, y / n, z / n
            if x == 0.0 and y == 0.0:
                self._lon = 0.0
                self._lat = _math.copysign(HALFPI, z)
            else:
                self._lat = _math.atan2(z, _math.hypot(x, y))
                self._lon = Angle(_math.atan2(y, x)).wrap()._v
            return
        if len(a) == 3:
            u = a[2]
            if not isinstance(u, AngleUnit):
                raise TypeError("SpherePoint: units must be an AngleUnit")
            lon, lat = Angle(a[0], u), Angle(a[1], u)
        elif len(a) == 2:
            lon, lat = a
            if not isinstance(lon, Angle) or not isinstance(lat, Angle):
                raise TypeError("SpherePoint: incompatible constructor arguments")
        else:
            raise TypeError("SpherePoint: incompatible constructor arguments")
        if core.OR(lat._v > HALFPI, lat._v < -HALFPI):
            raise pexexc.InvalidParameterError("Angle %s is not a valid latitude." % (lat,))
        self._lon = lon.wrap()._v
        self._lat = lat._v

    def getLongitude(self):
        return Angle(self._lon)

    def getLatitude(self):
        return Angle(self._lat)

    getRa, getDec = getLongitude, getLatitude

    def __getitem__(self, i):
        return Angle((self._lon, self._lat)[i])

    def __len__(self):
        return 2

    def __iter__(self):
        return iter((self.getLongitude(), self.getLatitude()))

    def isFinite(self):
        return _isfin(self._lon) and _isfin(self._lat)

    def atPole(self):
        return core.OR(self._lat >= HALFPI, self._lat <= -HALFPI)

    def getPosition(self, units=radians):
        return Point2D(self._lon / units._val, self._lat / units._val)

    def vec(self):
        if S.sym(self._lon) or S.sym(self._lat):
            raise core.Unsupported("unit vector of a symbolic position")
        c = _math.cos(self._lat)
        return (c * _math.cos(self._lon), c * _math.sin(self._lon), _math.sin(self._lat))

    def getVector(self):
        if S.sym(self._lon) or S.sym(self._lat):
            return SPHGEOM.UnitVector3d(self)
        return SPHGEOM.UnitVector3d(*self.vec())

    def separation(self, o):
        if any(S.sym(v) for v in (self._lon, self._lat, o._lon, o._lat)):
            return SEPARATION_HOOK[0](self, o)
        dl = o._lon - self._lon
        s1, c1, s2, c2 = _math.sin(self._lat), _math.cos(self._lat), _math.sin(o._lat), _math.cos(o._lat)
        num = _math.hypot(c2 * _math.sin(dl), c1 * s2 - s1 * c2 * _math.cos(dl))
        return Angle(_math.atan2(num, s1 * s2 + c1 * c2 * _math.cos(dl)))

    def bearingTo(self, o):
        dl = o._lon - self._lon
        s1, c1, s2, c2 = _math.sin(self._lat), _math.cos(self._lat), _math.sin(o._lat), _math.cos(o._lat)
        return Angle(_math.atan2(c1 * s2 - s1 * c2 * _math.cos(dl), c2 * _math.sin(dl))).wrap()

    def offset(self, bearing, amount):
        if not isinstance(bearing, Angle) or not isinstance(amount, Angle):
            raise TypeError("SpherePoint.offset: incompatible arguments")
        if any(S.sym(v) for v in (self._lon, self._lat, bearing._v, amount._v)):
            return OffsetPoint(self, bearing, amount)
        phi = HALFPI - bearing._v
        sl, cl = _math.sin(self._lat), _math.cos(self._lat)
        sa, ca = _math.sin(amount._v), _math.cos(amount._v)
        # east and north components
        e = (-_math.sin(self._lon), _math.cos(self._lon), 0.0)
        n = (-sl * _math.cos(self._lon), -sl * _math.sin(self._lon), cl)
        v = self.vec()
        b = _math.cos(bearing._v), _math.sin(bearing._v)
        w = [ca * v[i] + sa * (b[0] * e[i] + b[1] * n[i]) for i in range(3)]
        r = SpherePoint.__new__(SpherePoint)
        r._lat = _math.atan2(w[2], _math.hypot(w[0], w[1]))
        r._lon = Angle(_math.atan2(w[1], w[0])).wrap()._v
        return r

    def rotated(self, axis, amount):
        raise core.Unsupported("rotated")

    def __eq__(self, o):
        if not isinstance(o, SpherePoint):
            return False
        return core.AND(self._lon == o._lon, self._lat == o._lat)

    def __ne__(self, o):
        return core.NOT(self == o)

    def __hash__(self):
        return 0 if S.sym(self._lon) or S.sym(self._lat) else hash((self._lon, self._lat))

    def __repr__(self):
        return "SpherePoint(%s, %s, radians)" % (self._lon, self._lat)

    __str__ = __repr__

    def __reduce__(self):
        return (SpherePoint, (Angle(self._lon), Angle(self._lat)))


class OffsetPoint(SpherePoint):
    """`base` moved by `amount` in direction `bearing`, left unevaluated."""

    def __init__(self, base, bearing, amount):
        self.base, self.bearing, self.amount = base, bearing, amount

    @property
    def _lon(self):
        raise core.Unsupported("longitude of a moved symbolic position")

    _lat = _lon

    def offset(self, bearing, amount):
        return OffsetPoint(self, bearing, amount)


def averageSpherePoint(pts):
    raise core.Unsupported("averageSpherePoint")


def _nosep(a, b):
    raise core.Unsupported("separation of symbolic positions")


SEPARATION_HOOK = [_nosep]
SPHGEOM = None          # set by the loader: the real lsst.sphgeom or its model
