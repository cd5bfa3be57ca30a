"""C20: a discrete sky map has exactly the configured tracts."""
import math

from models import afwgeom, geom
from props.common import AND, PixPoint
from symx import shim as S
from symx.harness import H, outcome

E = 1e-9
K = 100.0       # pixels per degree
DIM = 10


class Compass:
    """Pixel positions proportional to the separation from the WCS reference."""

    def __init__(self, K=K):
        self.K = K

    def __enter__(self):
        afwgeom.PIX_HOOK[0], afwgeom.SKY_HOOK[0] = self.pix, PixPoint
        return self

    def __exit__(self, *a):
        afwgeom.PIX_HOOK[0] = afwgeom.SKY_HOOK[0] = None

    def pix(self, wcs, sky):
        if isinstance(sky, PixPoint):
            return (sky.pixel.getX() - sky.wcs.shift[0], sky.pixel.getY() - sky.wcs.shift[1])
        if isinstance(sky, geom.OffsetPoint):
            if sky.base is not wcs.crval:
                raise S.core.Unsupported("position not displaced from the reference")
            b, amount = sky.bearing.asRadians(), sky.amount.asDegrees()
            de, dn = math.cos(b), math.sin(b)
        elif sky is wcs.crval:
            return (0.0, 0.0)
        else:
            b, amount = wcs.crval.bearingTo(sky).asRadians(), wcs.crval.separation(sky).asDegrees()
            de, dn = math.cos(b), math.sin(b)
        if abs(de) >= abs(dn):
            return (self.K * amount, 0.0) if de > 0 else (-self.K * amount, 0.0)
        return (0.0, self.K * amount) if dn > 0 else (0.0, -self.K * amount)


def near(a, b, e=E):
    return AND(a - b <= e, b - a <= e)


def tracts(ctx, lib, count, projection="TAN", wide=False, at=None, zoom=1):
    """zoom: radii so many times smaller, in pixels so many times smaller."""
    c = lib.discreteSkyMap.DiscreteSkyMapConfig()
    span = (-360.0, 720.0) if wide else (0.0, 359.999)
    free = range(count) if at is None else at       # the others are fixed
    ra = [ctx.real("ra%d" % i, *span) if i in free else (17.3 * i) % 360 for i in range(count)]
    dec = [ctx.real("dec%d" % i, -89.9, 89.9) if i in free else (7.9 * i) % 160 - 80 for i in range(count)]
    rad = [ctx.real("rad%d" % i, 0.05 / zoom, 3.0 / zoom) if i in free else (0.5 + 0.01 * i) / zoom for i in range(count)]
    over = ctx.real("overlap", 0.0, 2.0 / zoom)
    c.raList, c.decList, c.radiusList = list(ra), list(dec), list(rad)
    c.tractOverlap = over
    c.projection = projection
    c.tractBuilder["legacy"].patchInnerDimensions = [DIM, DIM]
    c.tractBuilder["legacy"].patchBorder = 2
    c.validate()
    with Compass(K * zoom):
        m = lib.discreteSkyMap.DiscreteSkyMap(c)
        ctx.prove(len(m) == count, "one tract per position")
        if count == 0:
            return
        k = ctx.choice("k", sorted(set(range(count)) if at is None else {*at, 0, count // 2, count - 1}))
        t = m[k]
        ctx.prove(t.getId() == k, "in the configured order")
        ctr = t.getCtrCoord()
        d = (ctr.getLongitude() - geom.Angle(ra[k], geom.degrees)).wrapCtr().asDegrees()
        ctx.prove(near(d, 0.0), "centred on the configured right ascension")
        ctx.prove(near(ctr.getLatitude().asDegrees(), dec[k]), "centred on the configured declination")
        w = t.getWcs()
        o = w.getSkyOrigin()
        ctx.prove(AND(near((o.getLongitude() - ctr.getLongitude()).wrapCtr().asDegrees(), 0.0),
                      near(o.getLatitude().asDegrees(), dec[k])), "its projection is referenced to the centre")
        ctx.prove(w.projection == projection, "the configured projection")
        ctx.prove(near(t.getTractOverlap().asDegrees(), over), "the configured overlap")
        reach = K * zoom * (rad[k] + over)
        box = t.getBBox()
        for n in (box.getWidth(), box.getHeight()):
            ctx.prove(AND(n * 1.0 >= 2 * reach - 0.01, n * 1.0 <= 2 * reach + DIM + 1.01), "reaching the radius plus the overlap")


def lengths(ctx, lib, top=3):
    a, b, r = (ctx.choice(n, list(range(top + 1))) for n in ("nra", "ndec", "nrad"))
    c = lib.discreteSkyMap.DiscreteSkyMapConfig()
    c.raList, c.decList, c.radiusList = [1.5 * i for i in range(a)], [0.5 * i for i in range(b)], [0.1] * r
    kind, e = outcome(c.validate)
    if kind == "raise":
        ctx.prove(isinstance(e, ValueError), "rejection is a ValueError")
        ctx.prove(not a == b == r, "lists of equal length are accepted")
    else:
        ctx.prove(a == b == r, "lists of different lengths are rejected")


HARNESSES = [
    H("tracts", tracts, quick=[dict(count=0), dict(count=1), dict(count=2, projection="STG"), dict(count=3), dict(count=1, wide=True), dict(count=2, zoom=1000), dict(count=1, zoom=0.05),
                                dict(count=40, at=[0]), dict(count=40, at=[39], wide=True), dict(count=150, at=[127])],
      thorough=[dict(count=n, projection=p, wide=w) for n in (1, 2, 3, 4) for p in ("TAN", "STG") for w in (False, True)] +
      [dict(count=c, at=[a], wide=w) for c in (40, 150, 600) for a in (0, c // 2, c - 1) for w in (False, True)],
      need=["one tract per position", "in the configured order", "centred on the configured right ascension",
            "centred on the configured declination", "its projection is referenced to the centre", "the configured projection",
            "reaching the radius plus the overlap"], fork_limit=2000,
      bounds="up to three tracts (four in the thorough tier; of 40 or 150 one, the others fixed), any position between declinations -89.9 and 89.9, radii 0.05 to 3, overlaps up to 2 degrees (or a thousandth, or 20 times as much); "
             "pixel positions at 100 pixels per degree of separation"),
    H("lengths", lengths, quick=[dict()], need=["rejection is a ValueError", "lists of equal length are accepted", "lists of different lengths are rejected"],
      bounds="all lengths up to three"),
]
