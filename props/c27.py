"""C27: the inner sky region of a tract is its range or the hull of its vertices."""
import math

from models import geom
from props.common import AND, IMPLIES, NOT, OR, AbsPoint, AbsWcs, PixPoint, Rose, mktract, same_places, symbuilder, vertices
from props.rings import M, TWOPI, inside, overlap, position, rastart, ringmap
from symx.harness import H

SHRINK = 0.001


def holds(box, lon, lat, m):
    """Position in a sphgeom box, `m` inside its ends (outside them for m < 0)."""
    a, b = box.getLon().getA().asRadians(), box.getLon().getB().asRadians()
    c, d = box.getLat().getA().asRadians(), box.getLat().getB().asRadians()
    if a <= b:
        inlon = AND(lon >= a + m, lon <= b - m)
    else:
        inlon = OR(lon >= a + m, lon <= b - m)
    return AND(inlon, lat >= c + m, lat <= d - m)


def ring(ctx, lib, n, version, ra="any"):
    """The box of a ring sky map's tract holds a position exactly when its range does."""
    start = rastart(ctx, ra)
    m = ringmap(lib, n, start, version, stub=False, overlap=overlap(ctx))
    k = ctx.int("k", 0, len(m) - 1)
    with Rose(lambda w: (30.0, 30.0, 30.0, 30.0)):
        t = m[k] if n < 10 else m.generateTract(k)
        box = t.getInnerSkyRegion()
        ctx.prove(hasattr(box, "getLon"), "the region is a box")
        # the rings are of equal height, and the poles' tracts half of that
        ring, _ = m.getRingIndices(k)
        size = math.pi / (n + 1)
        edge = (math.pi / 2, (ring + 0.5) * size - math.pi / 2, (ring + 1.5) * size - math.pi / 2)
        lo = ctx.ite(ring == -1, -edge[0], edge[1]) if not isinstance(ring, int) else -edge[0] if ring == -1 else edge[1]
        hi = ctx.ite(ring == n, edge[0], edge[2]) if not isinstance(ring, int) else edge[0] if ring == n else edge[2]
        c, d = box.getLat().getA().asRadians(), box.getLat().getB().asRadians()
        ctx.prove(AND(c - lo <= 1e-9, lo - c <= 1e-9, d - hi <= 1e-9, hi - d <= 1e-9), "the box has its ring's declinations")
        p = position(ctx, -math.pi / 2 + 1e-6, math.pi / 2 - 1e-6)
        lon, lat = p.getLongitude(), p.getLatitude()
        rng = m.getRaDecRange(k)
        # right at right ascension 0 the ends of a box need more room
        ctx.assume(AND(lon.asRadians() >= 2 * M, lon.asRadians() <= TWOPI - 2 * M))
        if ctx.choice("side", ["in", "out"]) == "in":
            ctx.assume(inside(lon, lat, rng, M))
            ctx.prove(holds(box, lon.asRadians(), lat.asRadians(), -M), "the box holds positions in the range")
        else:
            ctx.assume(NOT(inside(lon, lat, rng, -M)))
            ctx.prove(NOT(holds(box, lon.asRadians(), lat.asRadians(), M)), "the box holds nothing outside the range")
        b2 = t.inner_sky_region
        ctx.prove(AND(*[(getattr(getattr(box, g)(), e)() == getattr(getattr(b2, g)(), e)()) for g in ("getLon", "getLat")
                        for e in ("getA", "getB")]), "the property gives the same region")


def hull(ctx, lib, kind, nvert, overlap=0.0):
    """A tract given by vertices."""
    bld, _, _, _ = symbuilder(lib, ctx, kind, dict(dims=[40, 30] if kind == "legacy" else [10], ncell=3, nborder=1))
    t, wcs, verts = mktract(lib, ctx, bld, -60.0, 60.0, nvert=nvert, overlap=overlap)
    for r in (t.getInnerSkyRegion(), t.inner_sky_region):
        ctx.prove(same_places(vertices(r), verts), "the region is the hull of the vertices")
    got = t.getVertexList()
    ctx.prove(len(got) == nvert and all(a is b for a, b in zip(got, verts)), "the tract keeps its vertices")


class Corner(AbsWcs):
    """Pixel positions of a centre's displacements, the same each way."""

    def __init__(self, ctx):
        super().__init__(ctx, -1e5, 1e5, {}, crval=AbsPoint("ctr"))
        self.w = ctx.int("w", 3, 5000)
        self.h = ctx.int("h", 3, 5000)

    def project(self, sky):
        if isinstance(sky, PixPoint):
            return super().project(sky)
        b = sky.bearing.asRadians()
        if abs(math.cos(b)) > 0.7:
            return ((self.w + 0.25) * (1 if math.cos(b) > 0 else -1), 0.0)
        return (0.0, (self.h + 0.25) * (1 if math.sin(b) > 0 else -1))


def drawn_in(ctx, t, w, h):
    """The vertices of a tract given by centre and radius."""
    b = t.getBBox()
    x0, x1 = b.getMinX() - 0.5 + SHRINK, b.getMaxX() + 0.5 - SHRINK
    y0, y1 = b.getMinY() - 0.5 + SHRINK, b.getMaxY() + 0.5 - SHRINK
    want = [PixPoint(w, geom.Point2D(x, y)) for x, y in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]
    got = t.getVertexList()
    ctx.prove(len(got) == 4, "four vertices")
    ctx.prove(same_places(got, want), "vertices are the corners drawn in by a thousandth of a pixel")
    for v in got:
        ctx.prove(t.contains(v), "vertices lie inside the tract")


def explicit(ctx, lib, kind, **p):
    bld, _, _, _ = symbuilder(lib, ctx, kind, p)
    wcs = Corner(ctx)
    a = lib.geom.Angle(ctx.real("radius", 0.01, 3.0), lib.geom.degrees)
    t = lib.tractInfo.ExplicitTractInfo(ctx.int("id", 0, 10 ** 6), bld, AbsPoint("ctr"), a,
                                        lib.geom.Angle(0.1, lib.geom.degrees), wcs)
    drawn_in(ctx, t, t.getWcs(), None)
    for r in (t.getInnerSkyRegion(), t.inner_sky_region):
        ctx.prove(same_places(vertices(r), [PixPoint(t.getWcs(), q.pixel) for q in t.getVertexList()]),
                  "the region is the hull of the vertices")


HARNESSES = [
    H("ring", ring, quick=[dict(n=n, version=1) for n in (1, 2, 3)] + [dict(n=2, version=0), dict(n=14, version=1, ra=10.0)],
      thorough=[dict(n=n, version=v) for n in (1, 2, 3, 4, 5, 7, 10, 12) for v in (0, 1)] + [dict(n=40, version=1, ra=10.0)],
      need=["the box holds positions in the range", "the box holds nothing outside the range"],
      bounds="numbers of rings as listed, any starting right ascension, any tract, any position"),
    H("hull", hull, quick=[dict(kind=k, nvert=n) for k in ("legacy", "cells") for n in (3, 4, 5)],
      thorough=[dict(kind=k, nvert=n) for k in ("legacy", "cells") for n in (3, 4, 5, 6)],
      need=["the region is the hull of the vertices"], bounds="tracts of 3 to 5 vertices at any pixel positions within 60 pixels"),
    H("explicit", explicit, quick=[dict(kind="legacy", dims=[4000, 4000]), dict(kind="legacy", dims=[7, 100]),
                                   dict(kind="cells", dims=[150], ncell=2, nborder=1)],
      thorough=[dict(kind="legacy", dims=d) for d in ([4000, 4000], [7, 100], [1, 1], [333, 12])] +
      [dict(kind="cells", dims=[150], ncell=n, nborder=1) for n in (1, 2, 20)],
      need=["vertices lie inside the tract", "the region is the hull of the vertices"],
      bounds="half widths and heights of 3 to 5000 pixels, listed patch sizes"),
]
ASSUMES = ("positions within 1e-9 rad of the boundary of a tract's range are left out, and within 2e-9 rad of right ascension 0",
           "a WCS gives different pixel positions different sky positions, nothing more",
           "sphgeom.ConvexPolygon.convexHull is the hull of its points; sphgeom.Box runs eastwards from its first corner to its second")
