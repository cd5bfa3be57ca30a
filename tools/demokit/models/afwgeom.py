"""lsst.afw.geom: WCS construction and the tangent-point projections."""
import copy
import math as _math

from symx import core
from symx import shim as S
from models import geom, pexexc

# Harnesses may make every WCS abstract: PIX_HOOK[0](wcs, coord) gives the
# unshifted pixel position, SKY_HOOK[0](wcs, pixel) the sky position.
PIX_HOOK = [None]
SKY_HOOK = [None]
UNIT = [1.0]


class CdMatrix:
    def __init__(self, scale, orientation, flipX):
        self.scale, self.orientation, self.flipX = scale, orientation, flipX
        s = scale.asDegrees()
        o = orientation.asRadians()
        if S.sym(s) or S.sym(o):
            self.m = None
            return
        x = 1.0 if flipX else -1.0
        c, n = _math.cos(o), _math.sin(o)
        self.m = ((c * s * x, n * s), (-n * s * x, c * s))

    def __array__(self, *a, **k):
        import numpy
        return numpy.array(self.m)


def makeCdMatrix(scale, orientation=None, flipX=False):
    if orientation is None:
        orientation = geom.Angle(0.0)
    if not isinstance(scale, geom.Angle) or not isinstance(orientation, geom.Angle):
        raise TypeError("makeCdMatrix: incompatible arguments")
    return CdMatrix(scale, orientation, flipX)


def _plus(v, d):
    if not S.sym(v) and not _math.isfinite(v):
        return v
    return v if not S.sym(d) and d == 0 else v + d


class SkyWcs:
    def __init__(self, crpix, crval, cdMatrix, projection):
        self.crpix, self.crval, self.cd, self.projection = crpix, crval, cdMatrix, projection
        self.shift = (0.0, 0.0)

    def copyAtShiftedPixelOrigin(self, shift):
        if not isinstance(shift, geom.Extent2D):
            raise TypeError("copyAtShiftedPixelOrigin: incompatible arguments")
        w = copy.copy(self)
        w.shift = (self.shift[0] + shift.getX(), self.shift[1] + shift.getY())
        return w

    def getSkyOrigin(self):
        return self.crval

    def getPixelOrigin(self):
        return geom.Point2D(self.crpix.getX() + self.shift[0], self.crpix.getY() + self.shift[1])

    def getCdMatrix(self):
        return self.cd

    def getPixelScale(self, pix=None):
        # every projection here has the CD matrix's scale at its origin
        if pix is not None and (pix[0] != self.crpix[0] + self.shift[0] or pix[1] != self.crpix[1] + self.shift[1]):
            raise core.Unsupported("pixel scale away from the origin")
        return self.cd.scale

    def skyToPixel(self, sky, *a):
        if isinstance(sky, (list, tuple)):
            return [self.skyToPixel(s) for s in sky]
        if a:
            sky = geom.SpherePoint(sky, *a)
        if not isinstance(sky, geom.SpherePoint):
            raise TypeError("skyToPixel: incompatible arguments")
        if PIX_HOOK[0] is not None:
            p = PIX_HOOK[0](self, sky)
        else:
            p = self.project(sky)
        return geom.Point2D(*[_plus(v, d) for v, d in zip(p, self.shift)])

    def pixelToSky(self, pix, *a):
        if isinstance(pix, (list, tuple)):
            return [self.pixelToSky(p) for p in pix]
        if a:
            pix = geom.Point2D(pix, *a)
        if isinstance(pix, geom.Point2I) or not isinstance(pix, geom._Point):
            raise TypeError("pixelToSky: incompatible arguments")
        if SKY_HOOK[0] is not None:
            return SKY_HOOK[0](self, pix)
        return self.deproject(pix)

    # -- concrete projections about crval
    def frame(self):
        lon, lat = self.crval._lon, self.crval._lat
        c = (_math.cos(lat) * _math.cos(lon), _math.cos(lat) * _math.sin(lon), _math.sin(lat))
        e = (-_math.sin(lon), _math.cos(lon), 0.0)
        n = (-_math.sin(lat) * _math.cos(lon), -_math.sin(lat) * _math.sin(lon), _math.cos(lat))
        return c, e, n

    def invcd(self):
        (a, b), (c, d) = self.cd.m
        det = a * d - b * c
        return ((d / det, -b / det), (-c / det, a / det))

    def project(self, sky):
        v = sky.vec()
        c, e, n = self.frame()
        dc = S.s_sum(x * y for x, y in zip(v, c))
        de = S.s_sum(x * y for x, y in zip(v, e))
        dn = S.s_sum(x * y for x, y in zip(v, n))
        if self.projection == "TAN":
            if not dc > 1e-10:
                return (_math.nan, _math.nan)
            xi, eta = de / dc, dn / dc
        elif self.projection == "STG":
            if not dc > -1 + 1e-12:
                return (_math.nan, _math.nan)
            xi, eta = 2 * de / (1 + dc), 2 * dn / (1 + dc)
        elif self.projection in ("CEA", "CAR"):
            lat = _math.atan2(v[2], _math.hypot(v[0], v[1]))
            dl = geom.Angle(sky._lon - self.crval._lon).wrapCtr()._v
            xi = dl
            eta = _math.sin(lat) - _math.sin(self.crval._lat) if self.projection == "CEA" else lat - self.crval._lat
        elif self.projection == "SIN":
            if dc < 0:
                return (_math.nan, _math.nan)
            xi, eta = de, dn
        elif self.projection == "ARC":
            r = _math.hypot(de, dn)
            t = _math.atan2(r, dc)
            k = t / r if r > 0 else 1.0
            xi, eta = de * k, dn * k
        else:
            raise core.Unsupported("projection %s" % self.projection)
        k = 180 / _math.pi
        (a, b), (cc, d) = self.invcd()
        return (self.crpix.getX() + k * (a * xi + b * eta), self.crpix.getY() + k * (cc * xi + d * eta))

    def deproject(self, pix):
        (a, b), (cc, d) = self.cd.m
        x = pix.getX() - self.shift[0] - self.crpix.getX()
        y = pix.getY() - self.shift[1] - self.crpix.getY()
        k = _math.pi / 180
        xi, eta = k * (a * x + b * y), k * (cc * x + d * y)
        c, e, n = self.frame()
        if self.projection == "TAN":
            w = (1.0, xi, eta)
        elif self.projection == "STG":
            q = (xi * xi + eta * eta) / 4
            w = ((1 - q) / (1 + q), xi / (1 + q), eta / (1 + q))
        elif self.projection in ("CEA", "CAR"):
            lat = _math.asin(max(-1.0, min(1.0, eta + _math.sin(self.crval._lat)))) if self.projection == "CEA" \
                else eta + self.crval._lat
            return geom.SpherePoint(geom.Angle(self.crval._lon + xi), geom.Angle(lat))
        elif self.projection == "SIN":
            w = (_math.sqrt(max(0.0, 1 - xi * xi - eta * eta)), xi, eta)
        elif self.projection == "ARC":
            r = _math.hypot(xi, eta)
            s = _math.sin(r) / r if r > 0 else 1.0
            w = (_math.cos(r), xi * s, eta * s)
        else:
            raise core.Unsupported("projection %s" % self.projection)
        v = [w[0] * c[i] + w[1] * e[i] + w[2] * n[i] for i in range(3)]
        r = geom.SpherePoint.__new__(geom.SpherePoint)
        r._lat = _math.atan2(v[2], _math.hypot(v[0], v[1]))
        r._lon = geom.Angle(_math.atan2(v[1], v[0])).wrap()._v
        return r

    def __eq__(self, o):
        return self is o or (isinstance(o, SkyWcs) and self.projection == o.projection and
                             core.AND(self.crval == o.crval, self.shift[0] == o.shift[0], self.shift[1] == o.shift[1]))

    __hash__ = None

    def __repr__(self):
        return "SkyWcs(%s)" % self.projection


def makeSkyWcs(*a, **k):
    names = ("crpix", "crval", "cdMatrix", "projection")
    for n, v in zip(names, a):
        k[n] = v
    k.setdefault("projection", "TAN")
    if set(k) != set(names):
        raise TypeError("makeSkyWcs: incompatible arguments")
    if not isinstance(k["crpix"], geom.Point2D) or not isinstance(k["crval"], geom.SpherePoint):
        raise TypeError("makeSkyWcs: incompatible arguments")
    return SkyWcs(**k)
