"""C38: tracts reach beyond their inner regions by the configured overlap."""
import math

from models import afwgeom, geom
from props.c14 import GRID, HALF, Band, Pixels, Place, dot, settings, settings_rings, unit
from props.c22 import cross
from props.common import AND, IFF
from symx.harness import H

KEEP = 0.98         # of half the overlap, for regions given by vertices
INSIDE = 1 - 1e-6   # of radius plus overlap, for regions given by centre and radius


def vec(p):
    lon, lat = p.getLongitude().asRadians(), p.getLatitude().asRadians()
    return (math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat))


def tight(c):
    """Patches so small that boxes are hardly larger than asked for."""
    c.tractBuilder["legacy"].patchInnerDimensions = [1, 1]
    c.tractBuilder["legacy"].patchBorder = 0
    return c


def contained(ctx, t, p, label):
    with Pixels(ctx) as px:
        b = t.getBBox()
        px.edges = [(b.getMinX() - 0.5, b.getMaxX() + 0.5), (b.getMinY() - 0.5, b.getMaxY() + 0.5)]
        ctx.prove(t.contains(p), label)


def disc(ctx, lib, kind, which, radius, overlap, projection, rotation=0.0, scale=20.0):
    """A tract given by centre and radius holds every position within radius plus overlap."""
    if kind == "discrete":
        c = tight(settings(lib.discreteSkyMap.DiscreteSkyMapConfig(), overlap, scale, projection))
        c.raList, c.decList, c.radiusList = [0.0, 77.0, 215.5, 10.0], [0.0, 41.0, -63.0, 90.0], [radius] * 4
        c.rotation = rotation
        m = lib.discreteSkyMap.DiscreteSkyMap(c)
    else:
        n = int(round(90.0 / radius)) - 1
        c = tight(settings_rings(lib, n, overlap, scale, projection, 30.0))
        c.rotation = rotation
        m = lib.ringsSkyMap.RingsSkyMap(c)
        radius = 90.0 / (n + 1)
    t = m[which if which >= 0 else len(m) + which]
    v = unit(ctx)
    ctx.assume(dot(v, vec(t.getCtrCoord())) >= math.cos(math.radians(radius + overlap) * INSIDE))
    contained(ctx, t, Place(v), "the tract holds every position within radius and overlap of its centre")


def face(ctx, lib, poles, overlap, tracts, scale=300.0):
    """A dodecahedral tract holds what lies within half the overlap of its face."""
    c = tight(settings(lib.dodecaSkyMap.DodecaSkyMapConfig(), overlap, scale, "TAN"))
    c.withTractsOnPoles = poles
    m = lib.dodecaSkyMap.DodecaSkyMap(c)
    t = m[ctx.choice("tract", tracts)]
    d = math.radians(overlap / 2) * KEEP
    v = unit(ctx)
    ctr = vec(t.getCtrCoord())
    vs = [vec(p) for p in t.getVertexList()]
    if ctx.choice("part", ["edge", "vertex"]) == "vertex":
        # around a vertex
        w = vs[ctx.choice("vertex", list(range(5)))]
        ctx.assume(dot(v, w) >= math.cos(d))
    else:
        # along an edge, outside and inside of it
        k = ctx.choice("edge", list(range(5)))
        a, b = vs[k], vs[(k + 1) % 5]
        n = cross(a, b)
        s = 1 / math.sqrt(dot(n, n))
        n = tuple(x * (s if dot(n, ctr) > 0 else -s) for x in n)
        ctx.assume(AND(dot(n, v) >= -math.sin(d), dot(n, v) <= math.sin(d)))
        e, f = cross(n, a), cross(b, n)
        e = tuple(x * (1 if dot(e, b) > 0 else -1) for x in e)
        f = tuple(x * (1 if dot(f, a) > 0 else -1) for x in f)
        ctx.assume(AND(dot(e, v) >= 0, dot(f, v) >= 0))
    contained(ctx, t, Place(v), "the tract holds every position within half the overlap of its region")


def band(ctx, lib, tracts, lo, hi, overlap, scale=600.0):
    """An equatorial tract holds what lies within half the overlap of its range."""
    c = tight(settings(lib.equatSkyMap.EquatSkyMapConfig(), overlap, scale, "CEA"))
    c.numTracts, c.decRange = tracts, [lo, hi]
    m = lib.equatSkyMap.EquatSkyMap(c)
    k = ctx.choice("tract", list(range(tracts)))
    d = math.radians(overlap / 2) * KEEP
    half = min(math.pi / tracts + d, math.pi - 1e-9)
    mid = 2 * math.pi * (k + 0.5) / tracts
    dl = ctx.real("dl", -half, half)
    a, b = math.radians(lo) - d, math.radians(hi) + d
    z = ctx.real("sinlat", math.sin(a), math.sin(b))
    if ctx.symbolic:
        p = Band(geom.Angle(dl + mid).wrap()._v, ctx.real("lat", a, b))
        p.v = (None, None, z)
    else:
        p = Band(geom.Angle(dl + mid).wrap()._v, math.asin(z))
    contained(ctx, m[k], p, "the tract holds every position within half the overlap of its region")


def DISC(which, rotations):
    return [dict(kind=k, which=i, radius=r, overlap=o, projection=p, rotation=q)
            for k, i, r, o, p in which for q in rotations]


SOME = [("discrete", 0, 1.0, 0.25, "TAN"), ("discrete", 1, 0.1, 1.0, "STG"), ("discrete", 2, 3.0, 0.5, "TAN"), ("discrete", 3, 2.0, 0.0, "STG"),
        ("rings", 0, 9.0, 1.0, "TAN"), ("rings", -1, 9.0, 0.5, "STG"), ("rings", 7, 9.0, 1.0, "TAN")]
MORE = [("discrete", i, r, o, p) for i in range(4) for r in (0.1, 1.0, 5.0) for o in (0.0, 0.3) for p in ("TAN", "STG")] + \
       [("rings", i, r, o, p) for i in (0, 1, 7, -2, -1) for r in (6.0, 15.0) for o in (0.1, 1.0) for p in ("TAN", "STG")]
HARNESSES = [
    H("disc", disc, quick=DISC(SOME, (0.0,)) + DISC(SOME[:1], (90.0, 45.0)) + DISC(SOME[4:5], (180.0, 30.0)),
      thorough=DISC(MORE, (0.0, 90.0)) + DISC(SOME[:1], (45.0,)) + DISC(SOME[4:5], (30.0,)),
      need=["the tract holds every position within radius and overlap of its centre"], fp="ideal",
      bounds="every position within radius plus overlap (less a millionth) of the centre; radii, overlaps, projections and rotations as listed"),
    H("face", face, quick=[dict(poles=p, overlap=o, tracts=t) for p in (False, True) for o, t in ((1.0, [0, 4]), (3.5, [7, 11]))],
      thorough=[dict(poles=p, overlap=o, tracts=[t], scale=s) for p in (False, True) for o, s in ((0.1, 30.0), (1.0, 100.0), (3.5, 300.0), (8.0, 300.0)) for t in range(12)],
      need=["the tract holds every position within half the overlap of its region"], fp="ideal",
      bounds="every position within 0.49 of the overlap of a face, edges and vertices; TAN; overlaps and tracts as listed"),
    H("band", band, quick=[dict(tracts=n, lo=l, hi=h, overlap=o) for n in (2, 3, 5) for l, h, o in ((-1.25, 1.25, 1.0), (-30.0, 10.0, 0.5), (5.0, 40.0, 2.0))],
      thorough=[dict(tracts=n, lo=l, hi=h, overlap=o, scale=s) for n in (2, 3, 4, 5, 8, 12) for l, h, o in ((-1.25, 1.25, 1.0), (-30.0, 10.0, 0.5), (5.0, 40.0, 2.0))
                for s in (600.0, 60.0)],
      need=["the tract holds every position within half the overlap of its region"], fp="ideal",
      bounds="every position within 0.49 of the overlap of the declination band and right ascension range; CEA; counts, bands and overlaps as listed"),
]
ASSUMES = ("comparing a pixel position with the edge of a tract's box is comparing the direction's projections",
           "rounding errors are left out; the tracts themselves are made by the code with ordinary numbers")
