"""Pieces the harnesses share: abstract sky positions, WCSs and builders."""
import math
import zlib
from fractions import Fraction

from models import afwgeom, geom
from symx import core
from symx import shim as S
from symx.core import AND, IFF, IMPLIES, NOT, OR        # noqa: F401  (re-exported)

MAXPIX = 2 ** 24


def vector(p):
    """Unit vector of a position: its place in replays, its identity otherwise."""
    if geom.SPHGEOM.__name__ == "models.sph":
        return geom.SPHGEOM.UnitVector3d(p)
    return geom.SPHGEOM.UnitVector3d(*p.vec())


def vertices(poly):
    """What a polygon's vertices are, for `same_place`."""
    if hasattr(poly, "points"):
        return [v.origin if v.origin is not None else v for v in poly.points]
    return list(poly.getVertices())


def same_place(a, b, tol=1e-5):
    """Are two positions the same?  `tol` is in pixels for pixel positions.

    b is a position; a is one of `vertices`.
    """
    if isinstance(a, PixPoint) and isinstance(b, PixPoint):
        if a.sheet != b.sheet:
            return False
        return AND(*[AND(u - v <= tol, v - u <= tol) for u, v in zip(a.pos, b.pos)])
    if isinstance(a, geom.SpherePoint):
        if a is b:
            return True
        if isinstance(a, (AbsPoint, PixPoint)) or isinstance(b, (AbsPoint, PixPoint)):
            return False
        return AND(*[AND(u - v <= 1e-9, v - u <= 1e-9) for u, v in ((a._lon, b._lon), (a._lat, b._lat))])
    v = b.vec()
    w = tuple(a.vec3()) if hasattr(a, "vec3") else (a.x(), a.y(), a.z())
    lim = PixPoint.K * tol * 1.5 + 1e-14 if isinstance(b, PixPoint) else 1e-9
    return math.dist(v, w) <= lim


def same_places(got, want, tol=1e-5):
    """Two sets of positions are equal."""
    return AND(*[OR(*[same_place(g, w, tol) for g in got]) for w in want],
               *[OR(*[same_place(g, w, tol) for w in want]) for g in got])


class AbsPoint(geom.SpherePoint):
    """A sky position known only by name; its pixel position is arbitrary."""

    def __init__(self, tag):
        self.tag = tag
        # replays need a place: all of these lie on one small circle
        a = zlib.crc32(tag.encode()) * (2 * math.pi / 2 ** 32)
        self._lon, self._lat = geom.Angle(0.1 * math.cos(a)).wrap()._v, 0.1 * math.sin(a)

    def getVector(self):
        return vector(self)

    def offset(self, bearing, amount):
        if not isinstance(bearing, geom.Angle) or not isinstance(amount, geom.Angle):
            raise TypeError("SpherePoint.offset: incompatible arguments")
        return MovedPoint(self, bearing, amount)

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__

    def separation(self, o):
        raise core.Unsupported("separation of abstract positions")


class MovedPoint(AbsPoint):
    def __init__(self, base, bearing, amount):
        self.base, self.bearing, self.amount = base, bearing, amount
        b, a = bearing.asDegrees(), amount.asDegrees()
        b = "%g" % (round(b, 6) % 360) if not S.sym(b) else "?"
        a = "%.8g" % a if not S.sym(a) else "?"
        AbsPoint.__init__(self, "%s_%s_%s" % (base.tag, b, a))


class PixPoint(geom.SpherePoint):
    """The sky position of a pixel position, left unevaluated.

    In replays it is a place on the sphere, a different one for every pixel
    position (and for every `sheet`, an attribute the WCS may have).
    """

    K = 5e-8

    def __init__(self, wcs, pixel):
        self.wcs, self.pixel = wcs, pixel
        self.pos = (pixel.getX() - wcs.shift[0], pixel.getY() - wcs.shift[1])
        self.sheet = getattr(wcs, "sheet", 0)
        self._lon = self._lat = 0.0
        if not any(S.sym(v) for v in self.pos) and all(math.isfinite(v) and abs(v) < 2.5e7 for v in self.pos):
            self._lon = geom.Angle(self.K * self.pos[0] + 0.7 * self.sheet).wrap()._v
            self._lat = self.K * self.pos[1]

    def getVector(self):
        return vector(self)


def pixreal(ctx, name, lo, hi, slack=0.4999):
    """A pixel position: an integer plus an offset of less than half a pixel.

    The pixel it rounds to is then known without asking the solver; positions
    within 1e-4 pixel of the edge between two pixels are left out.
    """
    k = ctx.int(name + "_k", int(lo), int(hi))
    if slack == 0:
        return k + 0.25
    d = ctx.real(name + "_d", -slack, slack)
    if not ctx.symbolic:
        return k + d
    r = core.toreal(k)
    return core.SymReal(r.t + d.t, r.lo - slack, r.hi + slack, (k, Fraction(0), slack))


def pix(v):
    """The pixel index a coordinate rounds to."""
    return core.cur().floor(v + 0.5) if S.sym(v) else math.floor(v + 0.5)


class AbsWcs(afwgeom.SkyWcs):
    """A WCS giving every abstract position an arbitrary pixel position."""

    def __init__(self, ctx, lo, hi, fixed=None, crval=None, grid=False, slack=0.4999):
        super().__init__(geom.Point2D(0, 0), crval or AbsPoint("crval"), None, "TAN")
        self.ctx, self.lo, self.hi, self.grid, self.slack = ctx, lo, hi, grid, slack
        self.fixed = fixed or {}

    def project(self, sky):
        if isinstance(sky, PixPoint):
            return (sky.pixel.getX() - sky.wcs.shift[0], sky.pixel.getY() - sky.wcs.shift[1])
        if sky.tag in self.fixed:
            v = self.fixed[sky.tag]
            if isinstance(v, Exception):
                raise v
            return v
        if self.grid:
            e = self.slack
            return (pixreal(self.ctx, "px_" + sky.tag, self.lo, self.hi, e),
                    pixreal(self.ctx, "py_" + sky.tag, self.lo, self.hi, e))
        return (self.ctx.real("px_" + sky.tag, self.lo, self.hi), self.ctx.real("py_" + sky.tag, self.lo, self.hi))

    def deproject(self, pix):
        return PixPoint(self, pix)


class Cfg:
    """A config section with given values."""

    def __init__(self, **k):
        self.__dict__.update(k)


def builder(lib, ctx, kind, dims, border=None, ncell=None, nborder=None, cborder=None, real=False):
    """A tract builder of the given kind.

    legacy: dims are the patch inner dimensions; cells: the cell dimensions.
    """
    tb = lib.tractBuilder
    if kind == "legacy":
        c = tb.LegacyTractBuilder.ConfigClass()
        c.patchInnerDimensions = list(dims)
        c.patchBorder = border
        c.validate()
        return tb.LegacyTractBuilder(c)
    c = tb.CellTractBuilder.ConfigClass()
    c.cellInnerDimensions = list(dims)
    c.cellBorder = cborder
    c.numCellsPerPatchInner = ncell
    c.numCellsInPatchBorder = nborder
    c.validate()
    return tb.CellTractBuilder(c)


def symbuilder(lib, ctx, kind, p, dimhi=100000):
    """A builder with symbolic settings; returns (builder, patch dims, border, settings).

    Parameter sets give "dims": None for symbolic dimensions, or numbers.
    """
    dims = p.get("dims")
    if kind == "legacy":
        if dims is None:
            dims = [ctx.int("dimx", 1, dimhi), ctx.int("dimy", 1, dimhi)]
        border = p.get("border")
        if border is None:
            border = ctx.int("border", 0, p.get("bordermax", dimhi))
        return builder(lib, ctx, kind, dims, border), dims, border, {}
    cell = dims[0] if dims is not None else ctx.int("cell", 1, dimhi)
    ncell = p.get("ncell") or ctx.fork_value(ctx.int("ncell", 1, p.get("maxcell", 3)))
    nb = p["nborder"] if "nborder" in p else ctx.fork_value(ctx.int("nborder", 0, p.get("maxborder", 2)))
    cb = ctx.int("cborder", 0, dimhi)
    b = builder(lib, ctx, kind, [cell, cell], ncell=ncell, nborder=nb, cborder=cb)
    return b, [cell * ncell, cell * ncell], nb * cell + cb, dict(cell=cell, ncell=ncell, nb=nb, cb=cb)


def inbox(box, x, y):
    """Pixel (x, y) in an integer box, from the box's own ends."""
    return AND(x >= box.getMinX(), x <= box.getMaxX(), y >= box.getMinY(), y <= box.getMaxY())


def boxes_equal(a, b):
    return AND(a.getMinX() == b.getMinX(), a.getMaxX() == b.getMaxX(),
               a.getMinY() == b.getMinY(), a.getMaxY() == b.getMaxY())


def mktract(lib, ctx, bld, lo=-1000.0, hi=1000.0, nvert=1, overlap=0.0, id=0, tag="", wcs=None):
    """A TractInfo over abstract vertices with arbitrary pixel positions.

    With overlap 0 the pixel positions of the vertices are the only inputs:
    every bounding box a tract can have is reached with two vertices.
    """
    wcs = wcs or AbsWcs(ctx, lo, hi)
    verts = [AbsPoint("v%d%s" % (i, tag)) for i in range(nvert)]
    t = lib.tractInfo.TractInfo(id=id, tractBuilder=bld, ctrCoord=AbsPoint("ctr" + tag), vertexCoordList=verts,
                                tractOverlap=geom.Angle(overlap, geom.degrees), wcs=wcs)
    return t, wcs, verts


def intbox_tract(lib, ctx, bld, w, h, x0=0, y0=0, id=0, tag="", wcs=None):
    """A TractInfo whose minimum bounding box is the given integer box.

    Two vertices at the box's pixel corners, placed 0.25 pixel inside the
    edges, so that no rounding is involved.
    """
    def q(v, d):
        return core.toreal(v) + d if S.sym(v) else v + d
    fixed = {"v0" + tag: (q(x0, -0.25), q(y0, -0.25)), "v1" + tag: (q(x0 + w, -1 + 0.25), q(y0 + h, -1 + 0.25))}
    if wcs is None:
        wcs = AbsWcs(ctx, -1e5, 1e5, fixed)
    else:
        wcs.fixed.update(fixed)
    return mktract(lib, ctx, bld, nvert=2, id=id, tag=tag, wcs=wcs)


class Rose:
    """Pixel positions for any sky map, by compass direction from the WCS reference.

    size(wcs) gives the pixel extents (west, south, east, north): a position
    in the eastern quadrant has pixel (east, 0) and so on, so that every
    tract's bounding box is whatever `size` says.  Abstract positions are
    looked up in `fixed`.
    """

    def __init__(self, size, fixed=None):
        self.size, self.fixed = size, fixed or {}

    def __enter__(self):
        afwgeom.PIX_HOOK[0] = self.pix
        afwgeom.SKY_HOOK[0] = PixPoint
        return self

    def __exit__(self, *a):
        afwgeom.PIX_HOOK[0] = afwgeom.SKY_HOOK[0] = None

    def pix(self, wcs, sky):
        if isinstance(sky, PixPoint):
            return (sky.pixel.getX() - sky.wcs.shift[0], sky.pixel.getY() - sky.wcs.shift[1])
        if isinstance(sky, AbsPoint):
            return self.fixed[sky.tag]
        w, s, e, n = self.size(wcs)
        if isinstance(sky, geom.OffsetPoint):
            b = sky.bearing.asRadians()
            de, dn = math.cos(b), math.sin(b)
        else:
            v = sky.vec()
            _, ve, vn = wcs.frame()
            de, dn = (sum(a * b for a, b in zip(v, d)) for d in (ve, vn))
            if abs(de) < 1e-9 and abs(dn) < 1e-9:
                return (0.0, 0.0)
        if abs(de) >= abs(dn):
            return (e + 0.0, 0.0) if de > 0 else (0.0 - w, 0.0)
        return (0.0, n + 0.0) if dn > 0 else (0.0, 0.0 - s)
