"""C26: sky regions are the sky images of the right pixel boxes."""
from models import geom
from props.common import AND, AbsPoint, AbsWcs, PixPoint, intbox_tract, same_places, symbuilder, vertices
from symx.harness import H


class Sheet(AbsWcs):
    """A WCS giving every pixel position a sky position of its own."""

    def __init__(self, ctx, sheet=0):
        super().__init__(ctx, -1e5, 1e5, {}, crval=AbsPoint("crval%d" % sheet))
        self.sheet = sheet


def corners(wcs, box):
    """Half a pixel beyond the first and last pixel of a box."""
    x0, x1 = box.getMinX() - 0.5, box.getMaxX() + 0.5
    y0, y1 = box.getMinY() - 0.5, box.getMaxY() + 0.5
    return [PixPoint(wcs, geom.Point2D(x, y)) for x, y in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]


def image(ctx, label, poly, wcs, box):
    v = vertices(poly)
    ctx.prove(len(v) == 4, "four corners")
    ctx.prove(same_places(v, corners(wcs, box)), label)


def check(ctx, what, q, wcs, other):
    """Regions of a patch or cell, with its own WCS and with another."""
    for form in ("default", "argument", "keyword"):
        w, a, k = {"default": (wcs, (), {}), "argument": (other, (other,), {}), "keyword": (other, (), {"tractWcs": other})}[form]
        image(ctx, "inner region of a " + what, q.getInnerSkyPolygon(*a, **k), w, q.getInnerBBox())
        image(ctx, "outer region of a " + what, q.getOuterSkyPolygon(*a, **k), w, q.getOuterBBox())
    image(ctx, "inner region property", q.inner_sky_polygon, wcs, q.getInnerBBox())
    image(ctx, "outer region property", q.outer_sky_polygon, wcs, q.getOuterBBox())


def tract(ctx, lib, kind, nx=3, ny=2, **p):
    bld, dims, border, s = symbuilder(lib, ctx, kind, p)
    t, wcs, _ = intbox_tract(lib, ctx, bld, dims[0] * nx, dims[1] * ny, x0=ctx.int("x0", -10 ** 5, 10 ** 5),
                             y0=ctx.int("y0", -10 ** 5, 10 ** 5), wcs=Sheet(ctx))
    image(ctx, "outer region of a tract", t.getOuterSkyPolygon(), t.getWcs(), t.getBBox())
    image(ctx, "outer region of a tract", t.outer_sky_polygon, t.getWcs(), t.getBBox())
    other = Sheet(ctx, 1).copyAtShiftedPixelOrigin(geom.Extent2D(ctx.real("sx", -100.0, 100.0), ctx.real("sy", -100.0, 100.0)))
    q = t.getPatchInfo((ctx.int("i", 0, nx - 1), ctx.int("j", 0, ny - 1)))
    if kind == "cells" and ctx.choice("which", ["patch", "cell"]) == "cell":
        n = q.getNumCells()[0]
        c = q.getCellInfo((ctx.int("x", 0, n - 1), ctx.int("y", 0, n - 1)))
        check(ctx, "cell", c, t.getWcs(), other)
    else:
        check(ctx, "patch", q, t.getWcs(), other)


HARNESSES = [
    H("tract", tract, quick=[dict(kind="legacy", dims=d) for d in (None, [4000, 4000], [1, 7])] +
      [dict(kind="cells", dims=[150], ncell=20, nborder=1), dict(kind="cells", dims=[7], ncell=2, nborder=0),
       dict(kind="cells", ncell=2, nborder=1)],
      thorough=[dict(kind="legacy", dims=d, nx=n, ny=m) for d in (None, [4000, 4000], [1, 7], [3400, 1200])
                for n, m in ((1, 1), (3, 2), (20, 30))] +
      [dict(kind="cells", dims=[d], ncell=n, nborder=b, nx=k, ny=k) for d in (150, 7) for n in (1, 2, 20)
       for b in (0, 1, 2) for k in (2, 12)] + [dict(kind="cells", maxcell=3, maxborder=2)],
      need=["outer region of a tract", "inner region of a cell", "outer region of a cell", "inner region of a patch",
            "outer region of a patch", "inner region property"],
      bounds="tracts of nx by ny patches at any position, any patch, any cell, any other WCS; symbolic or listed sizes"),
]
ASSUMES = ("a WCS gives different pixel positions different sky positions, nothing more",
           "sphgeom.ConvexPolygon is the hull of its points; four corners of a box are all on it")
