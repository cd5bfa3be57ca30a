"""lsst.sphgeom for symbolic runs: values that remember how they were made.

Replays use the installed lsst.sphgeom instead.
"""
import math as _math

from symx import core
from symx import shim as S


def _f(x):
    g = getattr(x, "__symfloat__", None)
    if g is not None:
        return g()
    return x if S.sym(x) else float(x)


class Angle:
    __array_ufunc__ = None

    def __init__(self, v=0.0):
        self._v = _f(v)

    @staticmethod
    def fromDegrees(v):
        return Angle(_f(v) * (_math.pi / 180))

    @staticmethod
    def fromRadians(v):
        return Angle(v)

    def asRadians(self):
        return self._v

    def asDegrees(self):
        return self._v * (180 / _math.pi)

    def __symfloat__(self):
        return self._v

    def __eq__(self, o):
        return hasattr(o, "_v") and self._v == o._v

    __hash__ = None


class NormalizedAngle(Angle):
    def __init__(self, v=0.0):
        super().__init__(v)
        x = self._v
        self.raw = x
        # the constructor reduces to [0, 2*pi) what is outside [0, 2*pi]
        if not S.sym(x):
            if not 0 <= x <= 2 * _math.pi:
                r = _math.fmod(x, 2 * _math.pi)
                self._v = r + 2 * _math.pi if x < 0 else r
        elif not (core.AND(x >= 0, x <= 2 * _math.pi)):
            from models import geom
            self._v = geom.Angle(x).wrap()._v

    @staticmethod
    def fromDegrees(v):
        return NormalizedAngle(_f(v) * (_math.pi / 180))

    @staticmethod
    def fromRadians(v):
        return NormalizedAngle(v)


class LonLat:
    def __init__(self, lon=None, lat=None):
        if lon is None:
            lon, lat = NormalizedAngle(0.0), Angle(0.0)
        if not isinstance(lon, Angle) or not isinstance(lat, Angle):
            raise TypeError("LonLat: incompatible constructor arguments")
        self._lon = lon if isinstance(lon, NormalizedAngle) else NormalizedAngle(lon)
        self._lat = lat

    @staticmethod
    def fromRadians(lon, lat):
        return LonLat(NormalizedAngle(lon), Angle(lat))

    @staticmethod
    def fromDegrees(lon, lat):
        return LonLat(NormalizedAngle.fromDegrees(lon), Angle.fromDegrees(lat))

    def getLon(self):
        return self._lon

    def getLat(self):
        return self._lat


class Box:
    def __init__(self, point1=None, point2=None, *a, **k):
        if a or k or not isinstance(point1, LonLat) or not isinstance(point2, LonLat):
            raise core.Unsupported("sphgeom.Box form")
        self.point1, self.point2 = point1, point2

    def getLon(self):
        return Interval(self.point1._lon, self.point2._lon)

    def getLat(self):
        return Interval(self.point1._lat, self.point2._lat)


class Interval:
    def __init__(self, a, b):
        self._a, self._b = a, b

    def getA(self):
        return self._a

    def getB(self):
        return self._b


class Vector3d:
    def __init__(self, *a):
        if len(a) == 1 and hasattr(a[0], "vec3"):
            a = a[0].vec3()
        if len(a) != 3:
            raise TypeError("Vector3d: incompatible constructor arguments")
        self._v = tuple(_f(x) for x in a)

    def vec3(self):
        return self._v

    def x(self):
        return self._v[0]

    def y(self):
        return self._v[1]

    def z(self):
        return self._v[2]

    def __getitem__(self, i):
        return self._v[i]

    def __len__(self):
        return 3

    def __iter__(self):
        return iter(self._v)

    def dot(self, o):
        return S.s_sum(a * b for a, b in zip(self._v, o.vec3()))

    def __eq__(self, o):
        return isinstance(o, Vector3d) and core.AND(*[a == b for a, b in zip(self._v, o._v)])

    __hash__ = None


class UnitVector3d(Vector3d):
    """Either three components or the SpherePoint it came from."""

    def __init__(self, *a):
        self.origin = None
        if len(a) == 1 and hasattr(a[0], "getLongitude"):
            self.origin = a[0]
            self._v = None
            return
        if len(a) == 1 and isinstance(a[0], UnitVector3d):
            self.origin, self._v = a[0].origin, a[0]._v
            return
        super().__init__(*a)

    def vec3(self):
        if self._v is None:
            raise core.Unsupported("components of a symbolic direction")
        return self._v

    def x(self):
        return self.vec3()[0]

    def y(self):
        return self.vec3()[1]

    def z(self):
        return self.vec3()[2]

    def __getitem__(self, i):
        return self.vec3()[i]

    def __iter__(self):
        return iter(self.vec3())


class ConvexPolygon:
    def __init__(self, points):
        self.points = list(points)
        self.hull = False
        for p in self.points:
            if not isinstance(p, UnitVector3d):
                raise TypeError("ConvexPolygon: incompatible constructor arguments")
        if len(self.points) < 3:
            raise ValueError("not enough vertices")

    @staticmethod
    def convexHull(points):
        r = ConvexPolygon(points)
        r.hull = True
        return r

    def getVertices(self):
        return list(self.points)


class Region:
    pass
