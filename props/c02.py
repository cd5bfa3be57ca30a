"""C02: the tract's box covers its region, grows minimally, stays centred."""
import math

from models import geom
from props.common import (AND, AbsPoint, AbsWcs, IMPLIES, NOT, OR, MovedPoint, builder, inbox, intbox_tract, mktract, pix,  # noqa: F401
                          symbuilder)
from symx import shim as S
from symx.harness import H


def growth(ctx, lib, kind, **p):
    """Exact number of patches, centring and WCS shift for an integer box."""
    bld, dims, border, _ = symbuilder(lib, ctx, kind, p)
    n, big = p.get("maxn"), p.get("big", 10 ** 6)
    w, h = ctx.int("w", 1, big), ctx.int("h", 1, big)
    if n is not None:
        ctx.assume(AND(w <= dims[0] * n, h <= dims[1] * n))
    x0, y0 = ctx.int("x0", -big, big), ctx.int("y0", -big, big)
    t, wcs, verts = intbox_tract(lib, ctx, bld, w, h, x0, y0)
    box, num = t.getBBox(), t.getNumPatches()
    ctx.prove(AND(box.getMinX() == 0, box.getMinY() == 0), "minimum is (0, 0)")
    v0 = t.getWcs().skyToPixel(verts[0])
    q = AbsPoint("q")
    wcs.fixed["q"] = (ctx.int("qx", -big, big), ctx.int("qy", -big, big))
    q0, q1 = wcs.fixed["q"], t.getWcs().skyToPixel(q)
    for i, (need, have, lo, org, nn) in enumerate(((w, box.getWidth(), v0[0] + 0.25, x0, num[0]),
                                                   (h, box.getHeight(), v0[1] + 0.25, y0, num[1]))):
        ax = "xy"[i]
        ctx.prove(have == nn * dims[i], "box is a whole number of patches in " + ax)
        ctx.prove(AND(have >= need, have - dims[i] < need), "smallest number of patches in " + ax)
        hi = have - need - lo
        ctx.prove(AND(lo >= 0, hi >= 0, lo - hi <= 1, hi - lo <= 1), "growth split evenly in " + ax)
        ctx.prove(q1[i] - q0[i] == lo - org, "WCS shifted with the box in " + ax)


def cover(ctx, lib, kind, nvert=2, **p):
    """Every vertex lies in the tract, wherever the vertices are."""
    bld, dims, border, _ = symbuilder(lib, ctx, kind, p)
    wcs = AbsWcs(ctx, -p.get("span", 1e5), p.get("span", 1e5), grid=True)
    t, wcs, verts = mktract(lib, ctx, bld, nvert=nvert, wcs=wcs)
    inside(ctx, t, wcs, verts)


def inside(ctx, t, wcs, points):
    box = t.getBBox()
    lows, highs = [], []
    for v in points:
        a = t.getWcs().skyToPixel(v)
        ctx.prove(inbox(box, pix(a[0]), pix(a[1])), "the point's pixel is in the box")
        lows.append([pix(a[0]), pix(a[1])])
    for i, (have, per) in enumerate(((box.getWidth(), t.getPatchInnerDimensions()[0]),
                                     (box.getHeight(), t.getPatchInnerDimensions()[1]))):
        # extent really needed, from the same pixels
        lo = hi = None
        for q in lows:
            lo = q[i] if lo is None else ctx.ite(q[i] < lo, q[i], lo)
            hi = q[i] if hi is None else ctx.ite(q[i] > hi, q[i], hi)
        ctx.prove(have - per < hi - lo + 1, "no more patches than needed in " + "xy"[i])
        a, b = lo, have - 1 - hi
        ctx.prove(AND(a - b <= 1, b - a <= 1), "centred in " + "xy"[i])


def margin(ctx, lib, kind, overlap, nvert=1, **p):
    """Points half the overlap away from each vertex lie in the tract."""
    bld, dims, border, _ = symbuilder(lib, ctx, kind, p)
    wcs = AbsWcs(ctx, -p.get("span", 1e5), p.get("span", 1e5), grid=True, slack=0)
    t, wcs, verts = mktract(lib, ctx, bld, nvert=nvert, overlap=overlap, wcs=wcs)
    pts = []
    for v in verts:
        for k in range(24):
            pts.append(v.offset(15.0 * k * geom.degrees, (overlap / 2) * geom.degrees))
    inside(ctx, t, wcs, pts)
    ctx.reach("24 bearings")


class Flat(AbsWcs):
    """Displaced points are as far off in pixels as in degrees, in a flat sky."""

    def __init__(self, ctx, span, scale):
        super().__init__(ctx, -span, span, slack=0.25)
        self.scale = scale

    def project(self, sky):
        if not isinstance(sky, MovedPoint):
            return super().project(sky)
        a = super().project(sky.base)
        b, r = sky.bearing.asRadians(), sky.amount.asDegrees() * self.scale
        return (a[0] + math.cos(b) * r, a[1] + math.sin(b) * r)


def any_overlap(ctx, lib, kind, scale, most, nvert=1, **p):
    """However small or large the overlap, points half of it away lie in the tract."""
    bld, dims, border, _ = symbuilder(lib, ctx, kind, p)
    over = ctx.real("overlap", 1e-3 * most, most)
    wcs = Flat(ctx, 1e4, scale)
    t, wcs, verts = mktract(lib, ctx, bld, nvert=nvert, overlap=over, wcs=wcs)
    b = t.getBBox()
    k = ctx.choice("bearing", list(range(24)))
    for v in verts:
        a = t.getWcs().skyToPixel(v.offset(15.0 * k * geom.degrees, (over / 2) * geom.degrees))
        ctx.prove(AND(a[0] >= -0.5 - EPS, a[1] >= -0.5 - EPS, a[0] <= b.getWidth() - 0.5 + EPS, a[1] <= b.getHeight() - 0.5 + EPS),
                  "the displaced point is in the box")


def explicit(ctx, lib, kind, radius, overlap, **p):
    """A tract given by centre and radius holds radius + overlap on each side."""
    bld, dims, border, _ = symbuilder(lib, ctx, kind, p)
    span = p.get("span", 1e5)
    wcs = AbsWcs(ctx, -span, span, grid=True)
    ctr = AbsPoint("ctr")
    if p.get("before"):
        # another tract of the same radius, elsewhere and in other patches
        other = builder(lib, ctx, kind, p["before"], 11, p.get("ncell"), p.get("nborder"), 11)
        lib.tractInfo.ExplicitTractInfo(0, other, AbsPoint("elsewhere"), radius * geom.degrees, overlap * geom.degrees,
                                        AbsWcs(ctx, -span, span, fixed={}, grid=True))
    t = lib.tractInfo.ExplicitTractInfo(0, bld, ctr, radius * geom.degrees, overlap * geom.degrees, wcs)
    pts = [ctr.offset(b * geom.degrees, (radius + overlap) * geom.degrees) for b in (0, 90, 180, 270)]
    inside(ctx, t, wcs, pts)
    ctx.prove(AND(t.getBBox().getMinX() == 0, t.getBBox().getMinY() == 0), "minimum is (0, 0)")


EPS = 1e-6          # pixels
HARNESSES = [
    H("growth", growth,
      quick=[dict(kind="legacy", maxn=4), dict(kind="cells", maxn=3), dict(kind="legacy", dims=[4000, 4000]),
             dict(kind="legacy", dims=[1, 7]), dict(kind="legacy", dims=[17, 100]),
             dict(kind="cells", dims=[150], ncell=20, nborder=1)],
      thorough=[dict(kind="legacy", maxn=12), dict(kind="cells", maxn=8, maxcell=6)] +
               [dict(kind="legacy", dims=d) for d in ([4000, 4000], [1, 7], [17, 100], [1, 1], [2000, 3999], [4096, 64])],
      need=["smallest number of patches in x", "growth split evenly in y", "WCS shifted with the box in x"],
      bounds="integer boxes with sides 1..1e6 at origins within 1e6; symbolic patch sizes with <= maxn patches per axis, "
             "or fixed sizes with any number"),
    H("cover", cover,
      quick=[dict(kind="legacy", dims=[100, 37], nvert=n) for n in (1, 2, 3)] +
            [dict(kind="cells", dims=[150], ncell=2, nborder=1, nvert=4)],
      thorough=[dict(kind="legacy", dims=[d, 37], nvert=n) for n in (1, 2, 3, 4, 5) for d in (1, 100, 4000)],
      need=["the point's pixel is in the box", "centred in x"],
      bounds="1..5 vertices at any pixel positions within 1e5; patch sizes as listed"),
    H("margin", margin,
      quick=[dict(kind="legacy", dims=[100, 37], overlap=o, nvert=1) for o in (1.0, 0.25)] +
            [dict(kind="cells", dims=[150], ncell=2, nborder=1, overlap=2.0)],
      thorough=[dict(kind="legacy", dims=[100, 37], overlap=1.0, nvert=2, _w=9)] +
               [dict(kind="legacy", dims=[d, 37], overlap=o) for o in (1.0, 0.01, 3.5) for d in (100, 4000)],
      need=["24 bearings", "centred in y"],
      bounds="1..2 vertices, 24 displaced points each, at any pixel positions within 1e5; overlaps as listed"),
    H("any_overlap", any_overlap,
      quick=[dict(kind="legacy", dims=d, border=0, scale=s, most=m) for d, s, m in (([3, 7], 3600.0, 0.02), ([20, 50], 36.0, 10.0))] +
      [dict(kind="cells", dims=[5], ncell=2, nborder=0, scale=180.0, most=1.0)],
      thorough=[dict(kind="legacy", dims=[3, 7], border=0, scale=36.0, most=10.0, nvert=n) for n in (1, 2)],
      need=["the displaced point is in the box"],
      bounds="any overlap up to those listed (pixels of 1 arcsecond to 100), flat sky around 1 or 2 vertices, small patches"),
    H("explicit", explicit,
      quick=[dict(kind="legacy", dims=[100, 37], radius=1.0, overlap=0.25), dict(kind="legacy", dims=[4000, 4000], radius=0.5, overlap=0.0),
             dict(kind="cells", dims=[150], ncell=2, nborder=1, radius=2.0, overlap=1.0),
             dict(kind="legacy", dims=[100, 37], radius=1.0, overlap=0.25, before=[100, 37])],
      thorough=[dict(kind="legacy", dims=[d, 37], radius=r, overlap=o) for d in (1, 100, 4000) for r in (0.1, 1.0, 5.0)
                for o in (0.0, 0.25)] +
               [dict(kind="legacy", dims=[100, 37], radius=1.0, overlap=0.25, before=b) for b in ([100, 37], [50, 60])] +
               [dict(kind="cells", dims=[150], ncell=2, nborder=1, radius=2.0, overlap=1.0, before=[150, 150])],
      need=["the point's pixel is in the box", "no more patches than needed in x"],
      bounds="four displaced points at any pixel positions within 1e5; radii and overlaps as listed; alone, or after a tract of the same radius elsewhere"),
]
ASSUMES = ("pixel positions within 1e-4 pixel of the edge between two pixels are left out; margin uses positions a quarter pixel off pixel centres",
           "the sky-to-pixel map is arbitrary: each displaced point has any pixel position, named by its bearing and distance")
