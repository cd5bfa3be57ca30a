"""C07: looking up the patch of a sky position."""
import math

from models import afwgeom, geom
from props.c14 import settings, settings_rings
from props.common import AND, NOT, OR, AbsPoint, AbsWcs, inbox, intbox_tract, pix, pixreal, symbuilder
from symx.harness import H, outcome


def lookup(ctx, lib, kind, maxn=None, span=10 ** 6, **p):
    bld, dims, border, _ = symbuilder(lib, ctx, kind, p)
    w, h = ctx.int("w", 1, 10 ** 5), ctx.int("h", 1, 10 ** 5)
    if maxn is not None:
        ctx.assume(AND(w <= dims[0] * maxn, h <= dims[1] * maxn))
    t, wcs, _ = intbox_tract(lib, ctx, bld, w, h, ctx.int("x0", -10 ** 5, 10 ** 5), ctx.int("y0", -10 ** 5, 10 ** 5))
    p_ = AbsPoint("p")
    wcs.fixed["p"] = (pixreal(ctx, "px", -span, span), pixreal(ctx, "py", -span, span))
    a = t.getWcs().skyToPixel(p_)
    x, y = pix(a[0]), pix(a[1])
    box = t.getBBox()
    good = inbox(box, x, y)
    c = t.contains(p_)
    k, v = outcome(t.findPatch, p_)
    ctx.prove(good == c, "contains exactly the pixels of the box")
    ctx.prove(k == "value" or isinstance(v, LookupError), "only LookupError")
    ctx.prove(good == (k == "value"), "patch found exactly in the tract")
    if k == "value":
        b = v.getInnerBBox()
        ctx.prove(inbox(b, x, y), "the patch's inner region holds the pixel")
        i = v.getIndex()
        ctx.prove(AND(b.getMinX() == i[0] * dims[0], b.getMinY() == i[1] * dims[1]), "patch is a patch of the tract")


def nopixel(ctx, lib, kind, exc, **p):
    bld, dims, border, _ = symbuilder(lib, ctx, kind, p)
    t, wcs, _ = intbox_tract(lib, ctx, bld, dims[0] * 2, dims[1] * 2)
    p_ = AbsPoint("p")
    if exc in ("nan", "inf"):
        bad = float(exc)
        wcs.fixed["p"] = {"x": (bad, 1.0), "y": (1.0, bad), "both": (bad, bad)}[ctx.choice("axis", ["x", "y", "both"])]
        ctx.prove(NOT(t.contains(p_)), "a position without a pixel is not contained")
        return
    wcs.fixed["p"] = getattr(lib.pexexc, exc)("off the projection")
    ctx.prove(NOT(t.contains(p_)), "a position without a pixel is not contained")
    k, v = outcome(t.findPatch, p_)
    ctx.prove(k == "raise" and isinstance(v, LookupError), "LookupError without a pixel")


class Spoke(geom.OffsetPoint):
    """A position at a symbolic distance from a tract's centre; its pixel moves evenly along the spoke."""

    def separation(self, o):
        if o is not self.base:
            return geom.SpherePoint.separation(self, o)
        return self.amount

    def __repr__(self):
        return "Spoke"

    __str__ = __repr__

    def __format__(self, spec):
        return "Spoke"


class Spokes:
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.sep = geom.SEPARATION_HOOK[0]
        if self.ctx.symbolic:
            afwgeom.PIX_HOOK[0] = self.pix
            geom.SEPARATION_HOOK[0] = lambda a, b: b.amount if isinstance(b, Spoke) and a is b.base else self.sep(a, b)

    def __exit__(self, *a):
        afwgeom.PIX_HOOK[0] = None
        geom.SEPARATION_HOOK[0] = self.sep

    def pix(self, wcs, sky):
        if not isinstance(sky, Spoke):
            return wcs.project(sky)
        step = 0.005
        a = wcs.project(sky.base)
        b = wcs.project(sky.base.offset(sky.bearing, step * geom.radians))
        r = sky.amount.asRadians() / step
        return tuple(u + (v - u) * r for u, v in zip(a, b))


def member(ctx, lib, kind, inner, bearing, projection="TAN", reach=6.0):
    """Real tracts, larger than their radius by being made up of large patches."""
    if kind == "discrete":
        c = settings(lib.discreteSkyMap.DiscreteSkyMapConfig(), 0.1, 60.0, projection)
        c.raList, c.decList, c.radiusList = [10.0], [20.0], [0.6]
        cls = lib.discreteSkyMap.DiscreteSkyMap
    elif kind == "rings":
        c = settings_rings(lib, 60, 0.1, 60.0, projection, 30.0)
        cls = lib.ringsSkyMap.RingsSkyMap
    else:
        c = settings(lib.equatSkyMap.EquatSkyMapConfig(), 0.1, 60.0, projection)
        c.numTracts, c.decRange = 120, [-1.0, 1.0]
        cls = lib.equatSkyMap.EquatSkyMap
    c.tractBuilder["legacy"].patchInnerDimensions = list(inner)
    m = cls(c)
    t = m[0] if kind == "discrete" else m[40]
    d = geom.Angle(ctx.real("distance", 0.0, reach), geom.degrees)
    b = geom.Angle(bearing, geom.degrees)
    p = Spoke(t.getCtrCoord(), b, d) if ctx.symbolic else t.getCtrCoord().offset(b, d)
    with Spokes(ctx):
        a = t.getWcs().skyToPixel(p)
        x, y = pix(a[0]), pix(a[1])
        for v, k in ((a[0], x), (a[1], y)):
            ctx.assume(AND(v - k <= 0.499, v - k >= -0.499))
        good = inbox(t.getBBox(), x, y)
        ctx.prove(good == t.contains(p), "contains exactly the pixels of the box")
        k, v = outcome(t.findPatch, p)
        ctx.prove(k == "value" or isinstance(v, LookupError), "only LookupError")
        ctx.prove(good == (k == "value"), "patch found exactly in the tract")
        if k == "value":
            ctx.prove(inbox(v.getInnerBBox(), x, y), "the patch's inner region holds the pixel")


SPOKES = [("discrete", (100, 100), 45.0, "TAN"), ("discrete", (150, 90), 200.0, "STG"), ("discrete", (10, 7), 90.0, "TAN"),
          ("rings", (300, 300), 135.0, "TAN"), ("rings", (200, 25), 0.0, "TAN"), ("equat", (200, 200), 225.0, "TAN")]
HARNESSES = [
    H("member", member, quick=[dict(kind=k, inner=i, bearing=b, projection=p) for k, i, b, p in SPOKES],
      thorough=[dict(kind=k, inner=i, bearing=15.0 * b, projection=p) for k, i, _, p in SPOKES for b in range(1, 24, 4)],
      need=["contains exactly the pixels of the box", "patch found exactly in the tract", "the patch's inner region holds the pixel"], fp="ideal",
      bounds="positions at any distance up to 6 degrees from the centre of a tract, in the listed directions; pixels move evenly with the distance"),
    H("lookup", lookup,
      quick=[dict(kind="legacy", maxn=3), dict(kind="cells", maxn=2, maxcell=2, maxborder=1)] +
            [dict(kind="legacy", dims=d) for d in ([4000, 4000], [1, 7], [17, 100])] +
            [dict(kind="cells", dims=[150], ncell=20, nborder=1)],
      thorough=[dict(kind="legacy", maxn=8, _w=9), dict(kind="cells", maxn=5, _w=9)] +
               [dict(kind="legacy", dims=d) for d in ([4000, 4000], [1, 7], [17, 100], [1, 1], [2000, 3999], [4096, 64])] +
               [dict(kind="cells", dims=[c], ncell=n, nborder=1) for c in (1, 3, 150) for n in (1, 20)],
      need=["the patch's inner region holds the pixel", "contains exactly the pixels of the box"],
      bounds="pixel positions within 1e6, tract sides 1..1e5 at origins within 1e5, symbolic patch sizes with <= maxn patches "
             "per axis or the listed ones"),
    H("nopixel", nopixel,
      quick=[dict(kind="legacy", exc=e) for e in ("DomainError", "RuntimeError", "nan", "inf")],
      need=["LookupError without a pixel", "a position without a pixel is not contained"],
      bounds="tracts of 2 by 2 patches of any size; both documented projection errors and non-finite pixel positions"),
]
ASSUMES = ("pixel positions within 1e-4 pixel of the edge between two pixels are left out",)
