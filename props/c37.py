"""C37: what a sky map or packer gives does not depend on others in the process."""
from models import geom
from props.common import AND, AbsPoint, PixPoint, Rose, boxes_equal, same_places, vertices
from props.configs import CLASSES, config, make
from props.packing import dataid, packer
from symx import shim as S
from symx.harness import H, outcome

E = 1e-9


def near(a, b, e=E):
    return AND(a - b <= e, b - a <= e)


class Plan(Rose):
    """Extents that tell every WCS setting and every displacement apart."""

    def __init__(self, fixed):
        super().__init__(self.extent, fixed)

    def extent(self, wcs):
        cd = wcs.getCdMatrix()
        v = 30 + cd.scale.asArcseconds() * 0.5 + cd.orientation.asDegrees() * 0.0625 + (0 if wcs.projection == "TAN" else 32)
        return (v, v, v, v)

    def pix(self, wcs, sky):
        p = Rose.pix(self, wcs, sky)
        if isinstance(sky, geom.OffsetPoint):
            k = sky.amount.asDegrees() * 4.0
            return tuple(v if not S.sym(v) and v == 0 else v + (k if c > 0 else -k) for v, c in zip(p, self.signs(sky)))
        return p

    @staticmethod
    def signs(sky):
        import math
        b = sky.bearing.asRadians()
        return math.sin(b) * 0 + math.cos(b), math.sin(b)


def place(c):
    return (c.getLongitude().asRadians(), c.getLatitude().asRadians())


def same_pos(a, b):
    d = geom.Angle(a[0] - b[0]).wrapCtr().asRadians()
    return AND(near(d, 0.0), near(a[1], b[1]))


def same_wcs(v, w):
    return AND(v.projection == w.projection, same_pos(place(v.getSkyOrigin()), place(w.getSkyOrigin())),
               near(v.getPixelOrigin()[0], w.getPixelOrigin()[0], 1e-6), near(v.getPixelOrigin()[1], w.getPixelOrigin()[1], 1e-6),
               near(v.getCdMatrix().scale.asArcseconds(), w.getCdMatrix().scale.asArcseconds(), 1e-7),
               near(v.getCdMatrix().orientation.asRadians(), w.getCdMatrix().orientation.asRadians(), 1e-7))


def same_kind(a, b):
    return a[0] == b[0] and (a[0] == "value" or type(a[1]) is type(b[1]))


def same_patch(p, q):
    n, m = p.getNumCells(), q.getNumCells()
    return AND(boxes_equal(p.getInnerBBox(), q.getInnerBBox()), boxes_equal(p.getOuterBBox(), q.getOuterBBox()),
               p.getIndex()[0] == q.getIndex()[0], p.getIndex()[1] == q.getIndex()[1],
               p.getSequentialIndex() == q.getSequentialIndex(), n[0] == m[0], n[1] == m[1])


def look(m, cls, i, q, pos):
    """What there is to see of a sky map: (what, value, how two are compared)."""
    t = m[i]
    out = [("length", len(m), lambda a, b: a == b),
           ("digest", m.getSha1(), lambda a, b: a == b),
           ("tract number", t.getId(), lambda a, b: a == b),
           ("centre", place(t.getCtrCoord()), same_pos),
           ("tract box", t.getBBox(), boxes_equal),
           ("patch count", t.getNumPatches(), lambda a, b: AND(a[0] == b[0], a[1] == b[1])),
           ("patch border", t.getPatchBorder(), lambda a, b: a == b),
           ("patch size", t.getPatchInnerDimensions(), lambda a, b: AND(a[0] == b[0], a[1] == b[1])),
           ("overlap", t.getTractOverlap().asRadians(), near),
           ("WCS", t.getWcs(), same_wcs),
           ("patch", t.getPatchInfo(0), same_patch),
           ("patch found", outcome(t.findPatch, q), lambda a, b: same_kind(a, b) and (a[0] != "value" or same_patch(a[1], b[1]))),
           ("patches found", t.findPatchList([q]), lambda a, b: len(a) == len(b) and AND(*[same_patch(x, y) for x, y in zip(a, b)])),
           ("contains", t.contains(q), lambda a, b: a == b),
           ("tract region", t.getOuterSkyPolygon(), lambda a, b: polygon(a, b)),
           ("patch region", t.getPatchInfo(0).getOuterSkyPolygon(), lambda a, b: polygon(a, b)),
           ("patch inner region", t.getPatchInfo(0).getInnerSkyPolygon(), lambda a, b: polygon(a, b))]
    p = t.getPatchInfo(0)
    c = outcome(p.getCellInfo, 0)
    out.append(("cell", c, lambda a, b: same_kind(a, b) and (a[0] != "value" or AND(
        boxes_equal(a[1].getInnerBBox(), b[1].getInnerBBox()), boxes_equal(a[1].getOuterBBox(), b[1].getOuterBBox())))))
    if pos is not None:
        out.append(("range", m.getRaDecRange(i), lambda a, b: AND(*[near(x.asRadians(), y.asRadians()) for x, y in zip(a, b)])))
        out.append(("tract found", m.findTract(pos).getId(), lambda a, b: a == b))
    return out


def polygon(a, b):
    u, v = vertices(a), vertices(b)
    if all(isinstance(x, PixPoint) for x in u + v):
        return len(u) == len(v) and same_places(u, v)
    return len(u) == len(v) and all(abs(x.x() - y.x()) + abs(x.y() - y.y()) + abs(x.z() - y.z()) < 1e-9 for x, y in zip(u, v))


def compare(ctx, one, two):
    for (what, a, how), (_, b, _) in zip(one, two):
        ctx.prove(how(a, b), "same " + what)


def pair(ctx, cls, build, other, free):
    """Settings of two sky maps that agree in all but one setting (or in none).

    Whatever the code remembers is kept under some of the settings: if a
    sky map can be confused with one that differs in several, it can be
    confused with one that differs in a single one of them.
    """
    s = dict(tractOverlap=1.0, pixelScale=0.5, projection="TAN", rotation=30.0)
    t = dict(tractOverlap=(0.05, 4.0), pixelScale=(0.05, 30.0), rotation=(-90.0, 180.0))
    if build == "legacy":
        s.update(dimx=500, dimy=300, border=20)
        t.update(dimx=(200, 5000), dimy=(200, 5000), border=(0, 900))
    else:
        s.update(cell=100, cborder=10, ninner=4, nborder=1)
        t.update(cell=(60, 900), cborder=(0, 90), ninner=(3, 9), nborder=(0, 3))
    if cls == "rings":
        s.update(numRings=2, raStart=40.0)
        t.update(raStart=(0.0, 359.0))
    elif cls == "discrete":
        s.update(count=2, ra0=10.0, dec0=-20.0, rad0=1.0, ra1=100.0, dec1=30.0, rad1=2.0)
        t.update({"ra1": (0.0, 359.0), "dec1": (-80.0, 80.0), "rad1": (0.05, 4.0)})
    elif cls == "equat":
        s.update(numTracts=3, lo=-10.0, hi=25.0)
        t.update(numTracts=(2, 4), lo=(-60.0, 0.0), hi=(0.5, 60.0))
    elif cls == "dodeca":
        s.update(poles=False)
    elif cls == "healpix":
        s.update(log2=1, nest=False)

    def value(k, tag):
        lo, hi = t[k]
        return ctx.int(k + tag, lo, hi) if isinstance(lo, int) else ctx.real(k + tag, lo, hi)
    for k in free:
        if k in t:
            s[k] = value(k, "")
    o = dict(s)
    which = ctx.choice("differs in", sorted(s))
    if which == "projection":
        o[which] = "STG"
    elif which in ("poles", "nest"):
        o[which] = True
    elif which == "numRings":
        o[which] = ctx.choice("numRingso", [1, 3])
    elif which == "log2":
        o[which] = 0
    elif which == "count":
        o.update(count=3, ra2=55.0, dec2=5.0, rad2=1.5)
    elif which in t:
        o[which] = value(which, "o")
    if other != build:
        if other == "legacy":
            o.update(dimx=400, dimy=400, border=50)
        else:
            o.update(cell=100, cborder=10, ninner=4, nborder=1)
    return s, o


def maps(ctx, lib, cls, build, other, when, free=False):
    """A sky map alone, and after (or around) another one."""
    s, o = pair(ctx, cls, build, other, free or ())
    pos = geom.SpherePoint(ctx.real("ra", 1.0, 1.5), 0.3, geom.radians) if cls == "rings" and not free else None
    q = AbsPoint("q")
    with Plan({"q": (ctx.int("qx", -500, 500) + 0.25, 2.25)}):
        alone = make(lib, cls, config(lib, cls, build, s))
        n = len(alone)
        i = ctx.choice("tract", sorted({1, n - 1} & set(range(n)))) if cls != "rings" else 1
        one = look(alone, cls, i, q, pos)
        lib.fresh()

        def busy():
            m = make(lib, cls, config(lib, cls, other, o))
            look(m, cls, min(i, len(m) - 1), q, pos)
        if when == "before":
            busy()
            mine = make(lib, cls, config(lib, cls, build, s))
        else:
            mine = make(lib, cls, config(lib, cls, build, s))
            if when == "after":
                look(mine, cls, i, q, pos)
            busy()
        compare(ctx, one, look(mine, cls, i, q, pos))


def packers(ctx, lib, how, names, others, counts):
    """A packer alone, and with another one used before it."""
    def make_one(tag, names):
        numbers = ctx.choice("numbers" + tag, [[0, 1], [1, 0], [3, 1]])
        return dict(how=how, bands=dict(zip(names, numbers)), n_bands=ctx.choice("n_bands" + tag, [4, 5]),
                    nt=ctx.choice("nt" + tag, [7000, 18938]), nx=3, ny=ctx.choice("ny" + tag, [70, 90]), counts=counts)
    mine, other = make_one("", names), make_one("o", others)
    tract, patch = ctx.int("tract", 0, 6999), ctx.int("patch", 0, 209)
    k = ctx.choice("band", [0, 1])

    def use(spec, band):
        u, p = packer(ctx, lib, **spec)
        n = p.pack(dataid(ctx, u, tract=tract, patch=patch, band=band))
        r = p.unpack(n)
        return n, r["tract"], r["patch"], r["band"], p.maxBits
    one = use(mine, names[k])
    lib.fresh()
    use(other, others[k % len(others)])
    two = use(mine, names[k])
    ctx.prove(AND(one[0] == two[0], one[4] == two[4]), "packed alike")
    ctx.prove(AND(one[1] == two[1], one[2] == two[2], one[3] == two[3]), "unpacked alike")


WHEN = ("before", "between", "after")
FREE = {"legacy": ["tractOverlap", "pixelScale", "rotation", "border"], "cells": ["tractOverlap", "pixelScale", "rotation", "cborder"]}
KEYS = ["pixelScale", "rotation"]
OWN = {"rings": ["raStart"], "discrete": ["ra1", "dec1", "rad1"], "equat": ["lo", "hi"], "dodeca": [], "healpix": []}
HARNESSES = [
    H("maps", maps,
      quick=[dict(cls=c, build=b, other=b, when=w, free=f and c == "rings" and KEYS) for c in ("rings", "dodeca")
             for b, w, f in (("legacy", "between", False), ("cells", "before", True))] +
            [dict(cls=c, build=b, other=b, when=w, free=f and c == "discrete" and FREE[b] + OWN[c]) for k, c in enumerate(("discrete", "equat", "healpix"))
             for b in ("legacy", "cells") for w, f in (("before", True), (WHEN[1 + k % 2], False))] +
            [dict(cls="discrete", build="legacy", other="cells", when="between")],
      thorough=[dict(cls=c, build=b, other=o, when=w, free=f) for c in CLASSES for b in ("legacy", "cells")
                for o in ("legacy", "cells") for w in WHEN for f in ([], FREE[b] + OWN[c])],
      need=["same tract box", "same digest", "same WCS", "same patch", "same cell", "same range", "same tract found",
            "same patch region"],
      bounds="two sky maps of one class that differ in any one setting, by any amount (up to three rings, four listed or equatorial "
             "tracts), one used before the other is made, between its making and its use, or between two uses of it; the settings "
             "they share are fixed in the quick tier and arbitrary in the thorough one", fork_mul=False, fp="ideal"),
    H("packers", packers,
      quick=[dict(how=h, names=["g", "r"], others=o, counts=c) for h in ("dims", "config") for o, c in ((["r", "g"], True), (["i", "N921"], False))],
      thorough=[dict(how=h, names=["g", "r"], others=o, counts=c) for h in ("dims", "config") for o in (["r", "g"], ["i", "N921"])
                for c in (True, False)],
      need=["packed alike", "unpacked alike"], bounds="two bands of listed numbers, up to 50 tracts of up to 12 patches"),
]
ASSUMES = ("pixel positions depend on every WCS setting and displacement through one fixed linear rule", "exact real arithmetic: the same operations on the same numbers give the same results")
