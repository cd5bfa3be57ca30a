"""C10: ranges of a ring sky map's tracts tile the sphere; look-up agrees."""
from props.common import AND, IMPLIES, NOT, OR
from props.rings import M, counts, inside, overlap, position, rastart, ringmap, rows
from symx.harness import H


def found(ctx, lib, n, version, ra="any", lat=None):
    """The range of the tract found holds the position."""
    start = rastart(ctx, ra)
    over = overlap(ctx)
    m = ringmap(lib, n, start, version, overlap=over)
    p = position(ctx, lat=lat)
    if version == 0:
        one = ringmap(lib, n, start, 1, overlap=over)
        c, s = counts(lib, n)
        ctx.assume(NOT(inside(p.getLongitude(), p.getLatitude(), one.getRaDecRange(s[n - 1]), -M)))
    i = m.findTract(p).getId()
    ctx.prove(AND(i >= 0, i < len(m)), "a tract of the sky map")
    ctx.prove(inside(p.getLongitude(), p.getLatitude(), m.getRaDecRange(i), -M), "the found tract's range holds the position")


def unique(ctx, lib, n, version, ra="any", lat=None):
    """A position inside a tract's range finds that tract, so ranges are disjoint."""
    m = ringmap(lib, n, rastart(ctx, ra), version, overlap=overlap(ctx))
    c, s = counts(lib, n)
    p = position(ctx, lat=lat)
    k = ctx.int("k", *rows(lib, n, version, lat))
    ctx.assume(inside(p.getLongitude(), p.getLatitude(), m.getRaDecRange(k), M))
    i = m.findTract(p).getId()
    if version == 0:
        # the first tract has a duplicate at the end of its ring
        ctx.prove(OR(i == k, AND(i == 1, k == 1 + c[0])), "a position in a range finds that tract")
    else:
        ctx.prove(i == k, "a position in a range finds that tract")


def total(ctx, lib, n, version):
    """Ranges start at the south pole and end at the north pole."""
    m = ringmap(lib, n, 0.0, version)
    a, b = m.getRaDecRange(0), m.getRaDecRange(len(m) - 1)
    import math
    h = math.pi / 2
    ctx.prove(abs(a[2].asRadians() + h) < 1e-12 and abs(b[3].asRadians() - h) < 1e-12, "caps end at the poles")
    ctx.prove(abs(a[3].asRadians() + b[2].asRadians()) < 1e-12, "caps are of one size")


Q = (1, 2, 3, 5)
T = (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 30, 45)
MANY = [dict(n=120, version=1, ra=1.0, lat=b) for b in ("south", "north")] + [dict(n=130, version=0, ra=0.0, lat="north")]
MORE = [dict(n=n, version=v, ra=r, lat=b) for n, r in ((120, 0.0), (120, 1.0), (200, 90.0), (300, 300.0)) for v in (0, 1)
        for b in ("south", "middle", "north")]
HARNESSES = [
    H("found", found, quick=[dict(n=n, version=v) for n in Q for v in (0, 1)] + [dict(n=12, version=1)] + MANY,
      thorough=[dict(n=n, version=v) for n in T for v in (0, 1)] + MORE,
      need=["the found tract's range holds the position"],
      bounds="numbers of rings as listed, any starting right ascension in [0, 359.99] degrees, any position; "
             "with 120 or more rings positions within about 3 degrees of a pole (or, in the thorough tier, 1 degree of the equator)"),
    H("unique", unique, quick=[dict(n=n, version=v) for n in Q for v in (0, 1)] + [dict(n=12, version=1)] + MANY,
      thorough=[dict(n=n, version=v) for n in T for v in (0, 1)] + MORE,
      need=["a position in a range finds that tract"],
      bounds="as for found, any tract"),
    H("total", total, quick=[dict(n=n, version=v) for n in (1, 2, 3, 12, 120) for v in (0, 1)],
      need=["caps end at the poles"], bounds="numbers of rings as listed"),
]
ASSUMES = ("positions within 1e-9 rad of the boundary of a tract's range are left out",)
