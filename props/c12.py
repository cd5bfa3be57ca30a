"""C12: array look-up of tract ids agrees with one-at-a-time look-up."""
import math

from models import geom
from props.common import AND
from props.rings import BANDS, M, Stub, inside, overlap, rastart, ringmap, rows
from symx import shim as S
from symx.harness import H


def arr(ctx, xs):
    if ctx.symbolic:
        return S.np_array(list(xs))
    import numpy
    return numpy.array(xs)


def ask(ctx, m, ra, dec, degrees):
    """The ids; asking leaves the arrays alone."""
    x, y = arr(ctx, ra), arr(ctx, dec)
    ids = m.findTractIdArray(x, y, degrees=degrees)
    ctx.prove(AND(*[a == b for a, b in zip(x, ra)], *[a == b for a, b in zip(y, dec)]), "the arrays are left as they were")
    return ids


def positions(ctx, degrees, count, span, lat=None):
    k = 180 / math.pi if degrees else 1.0
    ra = [ctx.real("ra%d" % i, -span * k, span * k) for i in range(count)]
    # a little short of the poles, where radians(degrees) could pass them
    lo, hi = (-90.0, 90.0) if lat is None else BANDS[lat]
    lo, hi = max(math.radians(lo), -math.pi / 2 + 1e-9), min(math.radians(hi), math.pi / 2 - 1e-9)
    dec = [ctx.real("dec%d" % i, lo * k, hi * k) for i in range(count)]
    u = geom.degrees if degrees else geom.radians
    return ra, dec, [geom.SpherePoint(geom.Angle(a, u), geom.Angle(d, u)) for a, d in zip(ra, dec)]


def rings(ctx, lib, n, version, degrees=False, count=1, ra="any", span=7.0, lat=None):
    start = rastart(ctx, ra)
    over = overlap(ctx)
    m = ringmap(lib, n, start, version, overlap=over)
    ranges = ringmap(lib, n, start, 1, overlap=over)
    ra, dec, pts = positions(ctx, degrees, count, span, lat)
    # keep away from the edges of every tract's range
    for i, p in enumerate(pts):
        k = ctx.int("near%d" % i, *rows(lib, n, 1, lat))
        ctx.assume(inside(p.getLongitude(), p.getLatitude(), ranges.getRaDecRange(k), M))
    ids = ask(ctx, m, ra, dec, degrees)
    ctx.prove(len(ids) == count, "one id per position")
    for i, p in enumerate(pts):
        ctx.prove(ids[i] == m.findTract(p).getId(), "the id of the tract found")


def default(ctx, lib, degrees, count):
    """The loop other sky maps inherit, over an arbitrary scalar look-up."""
    class SkyMap(lib.discreteSkyMap.DiscreteSkyMap):
        def findTract(self, coord):
            return Stub(None, (coord.getLongitude().asRadians() * 100 + coord.getLatitude().asRadians()).__floor__())
    c = lib.discreteSkyMap.DiscreteSkyMapConfig()
    m = SkyMap(c)
    ra, dec, pts = positions(ctx, degrees, count, 7.0)
    ids = ask(ctx, m, ra, dec, degrees)
    ctx.prove(len(ids) == count, "one id per position")
    for i, p in enumerate(pts):
        ctx.prove(ids[i] == m.findTract(p).getId(), "the id of the tract found")


def crowd(ctx, lib, count, at=0, kind="rings", n=2, version=1, degrees=False):
    """Many positions, all but one of them fixed."""
    if kind == "rings":
        m = ringmap(lib, n, 10.0, version)
    else:
        class SkyMap(lib.discreteSkyMap.DiscreteSkyMap):
            def findTract(self, coord):
                return Stub(None, (coord.getLongitude().asRadians() * 100 + coord.getLatitude().asRadians()).__floor__())
        m = SkyMap(lib.discreteSkyMap.DiscreteSkyMapConfig())
    u = geom.degrees if degrees else geom.radians
    k = 1.0 if degrees else math.pi / 180
    ra = [(7.3 + 29.7 * i) % 360 * k for i in range(count)]
    dec = [(-71.0 + 37.3 * i % 143.0) * k for i in range(count)]
    if count:
        ra[at] = ctx.real("ra", 0.0, 3.0 * (180 / math.pi if degrees else 1.0))
        dec[at] = ctx.real("dec", 0.1 * k, 70.0 * k)
    pts = [geom.SpherePoint(geom.Angle(a, u), geom.Angle(d, u)) for a, d in zip(ra, dec)]
    if kind == "rings" and count:
        j = ctx.int("near", *rows(lib, n, 1, None))
        r = ringmap(lib, n, 10.0, 1).getRaDecRange(j)
        ctx.assume(inside(pts[at].getLongitude(), pts[at].getLatitude(), r, M))
    ids = ask(ctx, m, ra, dec, degrees)
    ctx.prove(len(ids) == count, "one id per position")
    for i, p in enumerate(pts):
        ctx.prove(ids[i] == m.findTract(p).getId(), "the id of the tract found")


HARNESSES = [
    H("rings", rings,
      quick=[dict(n=n, version=v, degrees=d) for n in (1, 2) for v, d in ((0, True), (1, False))] +
            [dict(n=n, version=v, degrees=d, ra=25.0) for n, v, d in
             ((3, 0, False), (3, 1, True), (5, 0, True), (5, 1, False), (8, 1, True))] +
            [dict(n=2, version=v, count=2, ra=r, span=3.0) for v, r in ((0, 0.0), (1, 10.0))] +
            [dict(n=n, version=v, degrees=d, ra=r, lat=b, span=6.3) for n, v, d, r, b in
             ((130, 1, True, 1.0, "north"), (120, 1, False, 0.0, "south"))],
      thorough=[dict(n=n, version=v, degrees=d) for n in (1, 2, 3, 4, 5, 6, 8, 10, 14) for v in (0, 1) for d in (False, True)] +
               [dict(n=2, version=v, count=c, ra=10.0, span=3.0) for v in (0, 1) for c in (2, 3)] +
               [dict(n=n, version=v, degrees=d, ra=r, lat=b, span=6.3) for n, r in ((120, 0.0), (130, 1.0))
                for v, d in ((0, True), (1, False), (1, True)) for b in ("south", "middle", "north")],
      need=["the id of the tract found", "one id per position"],
      bounds="numbers of rings as listed, any starting right ascension (or the listed one), arrays of one position (of two or three in the listed cases), with 120 or more "
             "rings positions within about 3 degrees of a pole (or, in the thorough tier, 1 degree of the equator), "
             "right ascensions within a turn either way"),
    H("default", default, quick=[dict(degrees=d, count=c) for d in (False, True) for c in (1, 2, 3)],
      need=["the id of the tract found"], bounds="up to three positions, an injective-like scalar look-up of both coordinates"),
    H("crowd", crowd, quick=[dict(count=0), dict(count=0, kind="default"), dict(count=21, at=0), dict(count=21, at=20, degrees=True),
                             dict(count=300, at=150, version=0), dict(count=40, at=17, kind="default"), dict(count=300, at=299, kind="default", degrees=True)],
      thorough=[dict(count=0), dict(count=0, kind="default")] +
               [dict(count=c, at=a, version=v, degrees=d) for c, a in ((21, 0), (21, 10), (21, 20), (120, 70)) for v in (0, 1) for d in (False, True)] +
               [dict(count=c, at=a, kind="default", degrees=d) for c, a in ((40, 0), (40, 17), (40, 39), (300, 0), (300, 299)) for d in (False, True)],
      need=["the id of the tract found", "one id per position"],
      bounds="arrays as long as listed (or empty), any one position in them anywhere in right ascension 0 to 3 rad and declination 0.1 to 70 degrees, the others fixed"),
]
ASSUMES = ("positions within 1e-9 rad of the boundary of a tract's range are left out",)
