"""Ring sky maps over symbolic positions, shared by several properties."""
import math

from models import geom
from props.common import AND, NOT, OR
from symx import shim as S

M = 1e-9            # positions closer than this to a range boundary are left out
TWOPI = 2 * math.pi


class Stub:
    """A tract known by its number only."""

    def __init__(self, owner, i):
        self.owner, self.i = owner, i

    def getId(self):
        return self.i

    tract_id = property(getId)

    def contains(self, coord):
        return self.owner.holds(self.i)

    def findPatchList(self, coords):
        return self.owner.patches(self.i, coords)


def ringmap(lib, n, raStart=0.0, version=1, stub=True, overlap=None):
    c = lib.ringsSkyMap.RingsSkyMapConfig()
    c.numRings = n
    c.raStart = raStart
    if overlap is not None:
        c.tractOverlap = overlap
    base = lib.ringsSkyMap.RingsSkyMap
    if not stub:
        return base(c, version=version)

    class RingsSkyMap(base):
        holds = None

        def __getitem__(self, i):
            return Stub(self, i)
    return RingsSkyMap(c, version=version)


def counts(lib, n):
    """Tracts per ring, and the number of each ring's first tract."""
    m = ringmap(lib, n)
    c = [0] * n
    for i in range(1, len(m) - 1):
        c[m.getRingIndices(i)[0]] += 1
    start = [1 + sum(c[:r]) for r in range(n)]
    return c, start


def wrapped(x):
    return x.wrap().asRadians()


def ra_in(lon, raMin, raMax, m):
    """Is `lon` between the ends (eastwards), `m` inside them?  m < 0: outside."""
    w = (raMax - raMin).asRadians()
    if not S.sym(w) and abs(w) >= TWOPI - 1e-12:
        return True
    w = wrapped(raMax - raMin)
    d = wrapped(lon - raMin)
    if m >= 0:
        return AND(d >= m, d <= w - m)
    return OR(d <= w - m, d >= TWOPI + m)


def inside(lon, lat, rng, m):
    a, b, c, d = rng
    return AND(ra_in(lon, a, b, m), lat.asRadians() >= c.asRadians() + m, lat.asRadians() <= d.asRadians() - m)


def rastart(ctx, how):
    if how == "any":
        return ctx.real("raStart", 0.0, 359.99)
    return how


def overlap(ctx):
    """How far tracts reach past their ranges, in degrees."""
    return ctx.real("overlap", 0.0, 40.0)


BANDS = {"south": (-90.0, -86.9), "middle": (-0.8, 0.9), "north": (86.6, 90.0)}


def rows(lib, n, version, lat):
    """First and last tract whose declinations meet a band of latitudes."""
    m = ringmap(lib, n, 0.0, version)
    if lat is None:
        return 0, len(m) - 1
    lo, hi = [math.radians(x) for x in BANDS[lat]]
    # tracts are numbered from south to north
    a, b = 0, len(m) - 1
    while m.getRaDecRange(a)[3].asRadians() <= lo:
        a += 1
    while m.getRaDecRange(b)[2].asRadians() >= hi:
        b -= 1
    return a, b


def position(ctx, lo=-math.pi / 2, hi=math.pi / 2, tag="", lat=None):
    if lat is not None:
        lo, hi = [max(-math.pi / 2, min(math.pi / 2, math.radians(x))) for x in BANDS[lat]]
    lon = ctx.real("ra" + tag, 0.0, TWOPI - 1e-9)
    lat = ctx.real("dec" + tag, lo, hi)
    return geom.SpherePoint(lon, lat, geom.radians)
