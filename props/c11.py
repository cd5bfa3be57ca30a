"""C11: numbering of ring sky maps, ring indices, placement of the tracts."""
import math

from props.common import AND, IMPLIES, NOT, OR, Rose
from props.rings import TWOPI, counts, overlap, rastart, ringmap, rows, wrapped
from symx import shim as S
from symx.harness import H, outcome

E = 1e-9


def near(a, b, e=E):
    return AND(a - b <= e, b - a <= e)


def same_ra(a, b):
    """Two angles equal up to whole turns."""
    d = wrapped(a - b)
    return OR(d <= E, d >= TWOPI - E)


def order(ctx, lib, n, version, ra="any", lat=None):
    """Ring indices of consecutive tracts; ranges advance by one step."""
    start = rastart(ctx, ra)
    m = ringmap(lib, n, start, version, overlap=overlap(ctx))
    last = len(m) - 1
    ctx.prove(m.getRingIndices(0) == (-1, 0), "tract 0 is the south cap")
    ctx.prove(m.getRingIndices(last) == (n, 0), "the last tract is the north cap")
    k0, k1 = rows(lib, n, version, lat)
    k = ctx.int("k", max(1, k0), min(last - 1, k1))
    r, t = m.getRingIndices(k)
    a, b, lo, hi = m.getRaDecRange(k)
    step = wrapped(b - a)
    s, u = m.getRingIndices(k + 1)
    end = near((t + 1) * step, TWOPI)
    first = 0 if version == 1 else 1       # the historical scheme numbers later rings from one
    over = (t + 1) * step if version == 1 else t * step
    ends = near(over, TWOPI, 1e-6)
    if k + 1 == last:
        # the historical scheme leaves out the last tract of the last ring
        ctx.prove(AND(r == n - 1, near((t + 1) * step, TWOPI, 1e-6)), "the last ring ends before the north cap")
    else:
        ctx.prove(OR(AND(NOT(ends), s == r, u == t + 1), AND(ends, s == r + 1, u == first)), "the next tract is the next one east or starts the next ring")
    if k == 1:
        ctx.prove(AND(r == 0, t == 0), "tract 1 starts the first ring")
    # equal spacing from the starting right ascension
    mid = lib.geom.Angle(start, lib.geom.degrees) + (t * step) * lib.geom.radians
    ctx.prove(same_ra(a + (0.5 * step) * lib.geom.radians, mid), "centred a whole number of steps from the start")
    size = math.pi / (n + 1)
    ctx.prove(AND(near(lo.asRadians(), -math.pi / 2 + (r + 0.5) * size), near(hi.asRadians(), -math.pi / 2 + (r + 1.5) * size)),
              "rings are of equal height")


def centre(ctx, lib, n, version, ra="any", lat=None):
    start = rastart(ctx, ra)
    m = ringmap(lib, n, start, version, stub=False, overlap=overlap(ctx))
    last = len(m) - 1
    k = ctx.int("k", *rows(lib, n, version, lat))
    with Rose(lambda w: (30.0, 30.0, 30.0, 30.0)):
        t = m.generateTract(k)
    c = t.getCtrCoord()
    ctx.prove(t.getId() == k, "the tract has its own number")
    if k == 0:
        ctx.prove(near(c.getLatitude().asRadians(), -math.pi / 2), "tract 0 is at the south pole")
    elif k == last:
        ctx.prove(near(c.getLatitude().asRadians(), math.pi / 2), "the last tract is at the north pole")
    else:
        a, b, lo, hi = m.getRaDecRange(k)
        ctx.prove(near(c.getLatitude().asRadians() * 2, lo.asRadians() + hi.asRadians()), "centred in declination")
        d = wrapped(c.getLongitude() - a)
        ctx.prove(near(2 * d, wrapped(b - a)), "centred in right ascension")
        ctx.prove(t.getWcs().getSkyOrigin() == c, "projected about its centre")


def bad(ctx, lib, n, version):
    m = ringmap(lib, n, 0.0, version, stub=False)
    k = ctx.int("k", -10 ** 6, 10 ** 6)
    ctx.assume(OR(k < 0, k >= len(m)))
    for f in (m.getRingIndices, m.__getitem__):
        a, v = outcome(f, k)
        ctx.prove(a == "raise" and isinstance(v, IndexError), "an index out of range is an IndexError")


def current(ctx, lib, n, how, ra="any"):
    """A map made without naming a numbering scheme has the current one."""
    c = lib.ringsSkyMap.RingsSkyMapConfig()
    c.numRings = n
    c.raStart = rastart(ctx, ra)
    m = lib.ringsSkyMap.RingsSkyMap(c) if how == "class" else lib.skyMapRegistry.skyMapRegistry["rings"](c)
    many, start = counts(lib, n)
    ctx.prove(len(m) == sum(many) + 2, "tracts of all rings and two caps")
    ring = ctx.choice("ring", list(range(n)))
    t = ctx.int("t", 0, many[ring] - 1)
    k = start[ring] + t
    i, j = m.getRingIndices(k)
    ctx.prove(AND(i == ring, j == t), "a ring's tracts are numbered from its first")
    a, b, lo, hi = m.getRaDecRange(k)
    ctx.prove(near(wrapped(b - a), TWOPI / many[ring] % TWOPI), "an equal share of the ring")
    mid = lib.geom.Angle(c.raStart, lib.geom.degrees) + (t * (TWOPI / many[ring])) * lib.geom.radians
    ctx.prove(same_ra(a + (math.pi / many[ring]) * lib.geom.radians, mid), "centred a whole number of steps from the start, from the first tract on")


Q = (1, 2, 3, 6)
T = (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20)
MANY = [dict(n=120, version=1, lat=b) for b in ("south", "north")] + [dict(n=130, version=0, lat="north")]
MORE = [dict(n=n, version=v, lat=b) for n in (120, 130, 300) for v in (0, 1) for b in ("south", "middle", "north")]
HARNESSES = [
    H("order", order, quick=[dict(n=n, version=v) for n in Q for v in (0, 1)] + [dict(n=14, version=1, ra=10.0)] + MANY,
      thorough=[dict(n=n, version=v) for n in T for v in (0, 1)] + [dict(n=40, version=v, ra=10.0) for v in (0, 1)] + MORE,
      need=["the next tract is the next one east or starts the next ring", "the last ring ends before the north cap",
            "centred a whole number of steps from the start"],
      bounds="numbers of rings as listed, any starting right ascension, any tract (with 120 or more rings those within about 3 degrees of a pole, or 1 of the equator)"),
    H("centre", centre, quick=[dict(n=n, version=v) for n in Q for v in (0, 1)] + [dict(n=14, version=1, ra=10.0)] + MANY,
      thorough=[dict(n=n, version=v) for n in T for v in (0, 1)] + [dict(n=40, version=v, ra=10.0) for v in (0, 1)] + MORE,
      need=["centred in declination", "centred in right ascension", "tract 0 is at the south pole", "the last tract is at the north pole"],
      bounds="as for order"),
    H("current", current, quick=[dict(n=n, how=h) for n in (1, 2, 3, 6) for h in ("class", "registry")],
      thorough=[dict(n=n, how=h) for n in (1, 2, 3, 4, 5, 8, 12, 20) for h in ("class", "registry")],
      need=["a ring's tracts are numbered from its first", "centred a whole number of steps from the start, from the first tract on"],
      bounds="numbers of rings as listed, any starting right ascension; made by the class or from the registry without a version"),
    H("bad", bad, quick=[dict(n=n, version=v) for n in (1, 4) for v in (0, 1)],
      need=["an index out of range is an IndexError"], bounds="all indices within 1e6 outside the range"),
]
