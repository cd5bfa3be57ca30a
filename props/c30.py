"""C30: a HEALPix sky map's tracts are the HEALPix pixels."""
import math

from models import afwgeom, geom
from props.common import AND, IMPLIES, OR, PixPoint
from symx import shim as S
from symx.harness import H

HALF = math.pi / 2
E = 1e-9


class Small:
    """Every tract small, wherever its vertices are; vertices may be symbolic."""

    def __enter__(self):
        afwgeom.PIX_HOOK[0] = self.pix
        afwgeom.SKY_HOOK[0] = PixPoint

    def __exit__(self, *a):
        afwgeom.PIX_HOOK[0] = afwgeom.SKY_HOOK[0] = None

    def pix(self, wcs, sky):
        if isinstance(sky, geom.OffsetPoint):
            b = sky.bearing.asRadians()
            return (30 * math.cos(b), 30 * math.sin(b))
        return (0.0, 0.0)


def hpgeom(lib):
    if lib.symbolic:
        from models import hp
        return hp
    import hpgeom
    return hpgeom


def skymap(lib, log2, nest):
    c = lib.healpixSkyMap.HealpixSkyMapConfig()
    c.log2NSide, c.nest = log2, nest
    c.tractOverlap = 0.1
    return lib.healpixSkyMap.HealpixSkyMap(c)


def at(p, theta, phi):
    """Is p where the pixelization says, theta counted from the south pole?"""
    d = p.getLongitude().asRadians() - phi
    lat = p.getLatitude().asRadians() - (theta - HALF)
    return AND(lat <= E, lat >= -E, OR(AND(d <= E, d >= -E), d >= 2 * math.pi - E, d <= E - 2 * math.pi))


def tracts(ctx, lib, log2, nest):
    """Centre and vertices of every tract."""
    hp = hpgeom(lib)
    with Small():
        m = skymap(lib, log2, nest)
        ctx.prove(len(m) == 12 * 4 ** log2, "one tract per pixel")
        i = ctx.int("i", 0, len(m) - 1)
        t = m.generateTract(i)
        ctx.prove(t.getId() == i, "numbered like its pixel")
        theta, phi = hp.pixel_to_angle(2 ** log2, i, nest=nest, lonlat=False)
        ctx.prove(at(t.getCtrCoord(), theta, phi), "centred on the pixel")
        ctx.prove(at(t.getWcs().getSkyOrigin(), theta, phi), "projected about the pixel's centre")
        theta, phi = hp.boundaries(2 ** log2, i, nest=nest, lonlat=False)
        vs = t.getVertexList()
        ctx.prove(len(vs) == 4, "four vertices")
        for k in range(4):
            ctx.prove(at(vs[k], theta[k], phi[k]), "the vertices are the pixel's corners")


def lookup(ctx, lib, log2, nest):
    """The tract found is the pixel of the position."""
    hp = hpgeom(lib)
    with Small():
        m = recording(lib, log2, nest)
        lon = ctx.real("lon", 0.0, 2 * math.pi - 1e-9)
        lat = ctx.real("lat", -HALF, HALF)
        p = geom.SpherePoint(lon, lat, geom.radians)
        i = m.findTract(p).getId()
        k = hp.angle_to_pixel(2 ** log2, lat + HALF, lon, nest=nest, lonlat=False)
        ctx.prove(i == k, "the tract found is the pixel holding the position")


class Numbered:
    def __init__(self, i):
        self.i = i

    def getId(self):
        return self.i

    tract_id = property(getId)


def recording(lib, log2, nest):
    """A sky map handing out tracts known by number (checked to be in range)."""
    base = type(skymap(lib, log2, nest))

    class HealpixSkyMap(base):
        def __getitem__(self, i):
            if OR(i < 0, i >= len(self)):
                raise IndexError(i)
            return Numbered(i)
    c = lib.healpixSkyMap.HealpixSkyMapConfig()
    c.log2NSide, c.nest = log2, nest
    return HealpixSkyMap(c)


def back(ctx, lib, log2, nest):
    """A tract's centre finds that tract."""
    with Small():
        m = recording(lib, log2, nest)
        i = ctx.int("i", 0, len(m) - 1)
        ctx.prove(m.findTract(m.generateTract(i).getCtrCoord()).getId() == i, "a tract's centre finds the tract")


def numbered(ctx, lib, log2, nest):
    """By number: tract i of the sky map has id i, and look-up returns the sky map's own tracts."""
    with Small():
        m = skymap(lib, log2, nest)
        i = ctx.int("i", 0, len(m) - 1)
        t = m[i]
        ctx.prove(t.getId() == i, "tract i has id i")
        f = m.findTract(t.getCtrCoord())
        ctx.prove(f is t, "look-up returns the sky map's own tract")


def P(*logs):
    return [dict(log2=k, nest=n) for k in logs for n in (False, True)]


HARNESSES = [
    H("tracts", tracts, quick=P(0, 1, 2, 3, 5, 9), thorough=P(*range(0, 10)),
      need=["centred on the pixel", "the vertices are the pixel's corners"], fp="ideal", bounds="resolutions and orderings as listed, every pixel"),
    H("lookup", lookup, quick=P(0, 1, 2, 3, 5, 9), thorough=P(*range(0, 10)), need=["the tract found is the pixel holding the position"],
      fp="ideal", bounds="resolutions and orderings as listed, every position"),
    H("back", back, quick=P(0, 1, 4, 9), thorough=P(*range(0, 10)), need=["a tract's centre finds the tract"],
      fp="ideal", bounds="resolutions and orderings as listed, every pixel"),
    H("numbered", numbered, quick=P(0), thorough=P(0, 1), need=["look-up returns the sky map's own tract"], fp="ideal", bounds="every pixel, one by one"),
]
ASSUMES = ("the pixelization itself (hpgeom) is trusted: pixel centres, corners and the pixel of a position are unknown functions, "
           "positions within 1e-9 rad of each other being in one pixel; counterexamples are replayed with the real one",)
