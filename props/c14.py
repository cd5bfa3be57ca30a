"""C14: the tract found for a position contains it."""
import math

from models import afwgeom, geom
from props.common import AND, IFF, NOT, OR
from props.rings import counts
from symx import core
from symx import shim as S
from symx.harness import H

HALF = math.pi / 2


def dot(a, b):
    return S.s_sum(x * y for x, y in zip(a, b))


class Place(geom.SpherePoint):
    """A position with a symbolic unit vector and symbolic coordinates.

    The coordinates are tied to the vector at chosen values only, where
    comparing a coordinate is comparing a component of the vector.
    """

    def __init__(self, v, lon=None, lat=None):
        self.v = v
        if not any(S.sym(x) for x in v):
            n = math.sqrt(dot(v, v))
            self.v = v = tuple(x / n for x in v)
            lon = geom.Angle(math.atan2(v[1], v[0])).wrap()._v
            lat = math.atan2(v[2], math.hypot(v[0], v[1]))
        self._lon, self._lat = lon, lat

    def getVector(self):
        return geom.SPHGEOM.UnitVector3d(*self.v)

    def vec(self):
        return self.v

    def separation(self, o):
        """Any quantity that grows with the separation serves: half the squared chord."""
        if not any(S.sym(x) for x in self.v):
            return geom.SpherePoint.separation(self, o)
        return geom.Angle(1.0 - dot(self.v, o.vec()))


class Band(Place):
    """A position among tracts whose centres share one declination."""

    def __init__(self, lon, lat):
        self._lon, self._lat = lon, lat
        self.v = (None, None, None)

    def separation(self, o):
        if not S.sym(self._lon):
            return geom.SpherePoint.separation(self, o)
        # grows with the separation from centres of one declination
        d = geom.Angle(self._lon - o._lon).wrapCtr()._v
        return geom.Angle(abs(d))

    def vec(self):
        if not S.sym(self._lon):
            return geom.SpherePoint.vec(self)
        raise core.Unsupported("vector of a position in a band")

    def getVector(self):
        return geom.SPHGEOM.UnitVector3d(*self.vec())


class Pixels:
    """Pixel positions tied to a position's vector at the edges of the tract's box."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.edges = {}

    def __enter__(self):
        self.sep = geom.SEPARATION_HOOK[0]
        if self.ctx.symbolic:
            afwgeom.PIX_HOOK[0] = self.pix
            geom.SEPARATION_HOOK[0] = lambda a, b: b.separation(a) if isinstance(b, Place) else self.sep(a, b)
        return self

    def __exit__(self, *a):
        afwgeom.PIX_HOOK[0] = None
        geom.SEPARATION_HOOK[0] = self.sep

    def pix(self, wcs, sky):
        if not isinstance(sky, Place):
            return wcs.project(sky)
        ctx = self.ctx
        if wcs.projection == "CEA":
            return self.fall(wcs, geom.Angle(sky._lon - wcs.crval._lon).wrapCtr()._v, sky.v[2] - math.sin(wcs.crval._lat), 1.0)
        c, e, n = wcs.frame()
        dc, de, dn = (dot(sky.vec(), d) for d in (c, e, n))
        if wcs.projection == "TAN":
            if not dc > 1e-10:
                return (math.nan, math.nan)
            den = dc
        elif wcs.projection == "STG":
            if not dc > -1 + 1e-12:
                return (math.nan, math.nan)
            den, de, dn = 1 + dc, 2 * de, 2 * dn
        else:
            raise core.Unsupported("projection %s" % wcs.projection)
        return self.fall(wcs, de, dn, den)

    def fall(self, wcs, de, dn, den):
        """The pixel at (de, dn) / den in the plane of the projection."""
        ctx = self.ctx
        k = 180 / math.pi
        self.n += 1
        r = []
        for axis, (a, b) in enumerate(wcs.invcd()):
            num = k * (a * de + b * dn)
            q = ctx.int("pix%d_%d" % (self.n, axis), -10 ** 8, 10 ** 8)
            # q is the pixel the position falls in
            for edge in self.edges[axis]:
                c0 = edge - wcs.shift[axis] - wcs.crpix[axis]
                ctx.assume(IFF(q >= int(edge + 0.5) - wcs.shift[axis], num >= c0 * den))
            r.append(core.toreal(q))
        return tuple(r)


def found(ctx, m, p, label):
    """The tract found for p contains it."""
    with Pixels(ctx) as px:
        t = m.findTract(p)
        i = ctx.concrete(t.getId())
        t = m[i]
        b = t.getBBox()
        px.edges = [(b.getMinX() - 0.5, b.getMaxX() + 0.5), (b.getMinY() - 0.5, b.getMaxY() + 0.5)]
        ctx.prove(t.contains(p), label)


def settings(c, overlap, scale, projection):
    c.tractOverlap, c.pixelScale, c.projection = overlap, scale, projection
    c.tractBuilder["legacy"].patchInnerDimensions = [50, 50]
    c.tractBuilder["legacy"].patchBorder = 5
    return c


def unit(ctx):
    v = tuple(ctx.real(n, -1.0, 1.0) for n in "xyz")
    if ctx.symbolic:
        ctx.assume(AND(dot(v, v) <= 1, dot(v, v) >= 1))
    return v


GRID = 3
M = 1e-9


def rings(ctx, lib, n, ring, overlap, scale, projection, start):
    m = lib.ringsSkyMap.RingsSkyMap(settings_rings(lib, n, overlap, scale, projection, start))
    list(m)
    size = math.pi / (n + 1)
    count = counts(lib, n)[0]
    v = unit(ctx)
    lat = ctx.real("lat", -HALF, HALF) if ctx.symbolic else 0.0
    lo, hi = max(-HALF, size * (ring + 0.5) - HALF + M), min(HALF, size * (ring + 1.5) - HALF - M)
    marks = [lo + (hi - lo) * k / GRID for k in range(GRID + 1)]
    num = count[ring] if 0 <= ring < n else 1
    j = ctx.choice("tract", list(range(num)))
    if num > 1:
        mid, half = math.radians(start) + 2 * math.pi * j / num, math.pi / num - M
        cm, sm = math.cos(mid), math.sin(mid)
        east, out = v[1] * cm - v[0] * sm, v[0] * cm + v[1] * sm
        ctx.assume(AND(out >= 0, east * math.cos(half) <= out * math.sin(half), -east * math.cos(half) <= out * math.sin(half)))
    ctx.assume(AND(v[2] >= math.sin(lo), v[2] <= math.sin(hi)))
    if ctx.symbolic:
        ctx.assume(AND(lat >= lo, lat <= hi))
        for b in marks[1:-1]:
            ctx.assume(IFF(lat >= b, v[2] >= math.sin(b)))
        if num > 1:
            dl = ctx.real("dlon", -half, half)
            for b in [half * (2 * k / GRID - 1) for k in range(1, GRID)]:
                ctx.assume(IFF(dl >= b, east * math.cos(b) >= out * math.sin(b)))
            lon = geom.Angle(dl + mid).wrap()._v
        else:
            lon = ctx.real("lon", 0.0, 2 * math.pi - 1e-9)
        p = Place(v, lon, lat)
    else:
        p = Place(v)
    found(ctx, m, p, "the tract found contains the position")


def settings_rings(lib, n, overlap, scale, projection, start):
    c = settings(lib.ringsSkyMap.RingsSkyMapConfig(), overlap, scale, projection)
    c.numRings, c.raStart = n, start
    return c


def dodeca(ctx, lib, poles, overlap, scale, projection, axis, sign):
    c = settings(lib.dodecaSkyMap.DodecaSkyMapConfig(), overlap, scale, projection)
    c.withTractsOnPoles = poles
    m = lib.dodecaSkyMap.DodecaSkyMap(c)
    v = unit(ctx)
    ctx.assume(v[axis] * sign >= 0.577)
    found(ctx, m, Place(v), "the tract found contains the position")


def equat(ctx, lib, tracts, lo, hi, overlap, scale):
    c = settings(lib.equatSkyMap.EquatSkyMapConfig(), overlap, scale, "CEA")
    c.numTracts, c.decRange = tracts, [lo, hi]
    m = lib.equatSkyMap.EquatSkyMap(c)
    lon = ctx.real("lon", 0.0, 2 * math.pi - 1e-9)
    a, b = math.radians(lo), math.radians(hi)
    z = ctx.real("sinlat", math.sin(a), math.sin(b))
    if ctx.symbolic:
        lat = ctx.real("lat", a, b)
        for k in range(1, GRID):
            g = a + (b - a) * k / GRID
            ctx.assume(IFF(lat >= g, z >= math.sin(g)))
        p = Band(lon, lat)
        p.v = (None, None, z)
    else:
        p = Band(lon, math.asin(z))
    found(ctx, m, p, "the tract found contains the position")


L = ["the tract found contains the position"]


def R(*which):
    return [dict(n=n, ring=r, overlap=o, scale=300.0, projection=p, start=s) for n, o, p, s in which for r in range(-1, n + 1)]


def D(*which):
    return [dict(poles=q, overlap=o, scale=300.0, projection=p, axis=a, sign=s)
            for o, p in which for q in (False, True) for a in range(3) for s in (1, -1)]


def E(ns, scale=600.0):
    return [dict(tracts=n, lo=lo, hi=hi, overlap=o, scale=scale)
            for n in ns for lo, hi, o in ((-1.25, 1.25, 1.0), (-30.0, 10.0, 0.3), (5.0, 40.0, 0.5))]


HARNESSES = [
    H("rings", rings, quick=R((5, 1.0, "TAN", 30.0), (6, 1.0, "STG", 0.0), (9, 1.0, "TAN", 300.0)),
      thorough=R((5, 1.0, "TAN", 30.0), (5, 1.0, "STG", 200.0), (6, 1.0, "STG", 0.0), (6, 1.0, "TAN", 17.0), (7, 1.0, "TAN", 0.0),
                 (8, 1.0, "STG", 359.0), (9, 1.0, "TAN", 300.0), (10, 1.0, "TAN", 0.0), (12, 1.0, "TAN", 0.0), (16, 1.0, "TAN", 90.0)),
      need=L, fp="ideal", bounds="every position (but 1e-9 rad off the boundaries of the tracts' ranges); 300 arcsec pixels, patches of 50 "
      "pixels; numbers of rings, overlaps, projections and starting right ascensions as listed"),
    H("dodeca", dodeca, quick=D((3.5, "STG"), (0.2, "TAN")), thorough=D((3.5, "STG"), (3.0, "STG"), (5.0, "STG"), (0.2, "TAN"), (1.0, "TAN")),
      need=L, fp="ideal", bounds="every position; 300 arcsec pixels; overlaps and projections as listed"),
    H("equat", equat, quick=E((1, 2, 3, 5)), thorough=E((1, 2, 3, 4, 5, 6, 8, 12)) + E((1, 3, 4), 40.0),
      need=L, fp="ideal", bounds="every position of the declination band; tract counts, bands, overlaps and pixel scales as listed; CEA"),
]
ASSUMES = ("a position's coordinates are tied to its direction at four values per tract; comparing a coordinate with such a value is "
           "comparing a component of the direction, and the solver decides the rest over the sphere x*x + y*y + z*z = 1",
           "comparing a pixel position with the edge of a tract's box is comparing the direction's projections",
           "rounding errors are left out; the tracts themselves are made by the code with ordinary numbers")
