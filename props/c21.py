"""C21: an equatorial sky map divides its declination band evenly in right ascension."""
from models import geom
from props.common import AND, OR, Rose
from symx.harness import H, raises

E = 1e-9


def near(a, b, e=E):
    return AND(a - b <= e, b - a <= e)


def same_ra(a, deg):
    return near((a - geom.Angle(deg, geom.degrees)).wrapCtr().asDegrees(), 0.0)


def tracts(ctx, lib, n, projection=None, at=None):
    c = lib.equatSkyMap.EquatSkyMapConfig()
    lo = ctx.real("lo", -89.9, 80.0)
    hi = lo + ctx.real("width", 0.01, 169.0)
    ctx.assume(hi <= 89.9)
    over = ctx.real("overlap", 0.01, 5.0)
    c.numTracts = n
    c.decRange = [lo, hi]
    c.tractOverlap = over
    if projection:
        c.projection = projection
    c.validate()
    with Rose(lambda w: (30.0, 30.0, 30.0, 30.0)):
        m = lib.equatSkyMap.EquatSkyMap(c)
        ctx.prove(len(m) == n, "the configured number of tracts")
        ctx.prove([t.getId() for t in m] == list(range(n)), "numbered in order")
        k = ctx.choice("k", list(at or range(n)))
        t = m[k]
        ctx.prove(t.getId() == k, "numbered in order")
        beg, end = 360.0 * k / n, 360.0 * (k + 1) / n
        v = t.getVertexList()
        ctx.prove(len(v) == 4, "four vertices")
        for ra in (beg, end):
            for dec in (lo, hi):
                ctx.prove(OR(*[AND(same_ra(p.getLongitude(), ra), near(p.getLatitude().asDegrees(), dec)) for p in v]),
                          "a vertex at every corner of the range")
        for i, p in enumerate(v):
            q = v[(i + 1) % 4]
            ctx.prove(OR(AND(same_ra(p.getLongitude(), q.getLongitude().asDegrees())),
                         near(p.getLatitude().asDegrees(), q.getLatitude().asDegrees())), "vertices in order around the range")
        ctr = t.getCtrCoord()
        ctx.prove(same_ra(ctr.getLongitude(), (beg + end) / 2), "centred in right ascension")
        ctx.prove(near(ctr.getLatitude().asDegrees(), 0.5 * (lo + hi)), "centred in declination")
        o = t.getWcs().getSkyOrigin()
        ctx.prove(AND(same_ra(o.getLongitude(), (beg + end) / 2), near(o.getLatitude().asDegrees(), 0.0)),
                  "referenced to the equator at the central right ascension")
        ctx.prove(t.getWcs().projection == (projection or "CEA"), "the configured projection, CEA by default")
        ctx.prove(near(t.getTractOverlap().asDegrees(), over), "the configured overlap")
        ctx.prove(raises(IndexError, m.__getitem__, n), "no tract past the last")


MANY = [dict(n=97, at=(0, 53, 96)), dict(n=360, at=(1, 359)), dict(n=1000, at=(998,))]
QUICK = (1, 2, 3, 4, 5, 8, 13)
HARNESSES = [
    H("tracts", tracts, quick=[dict(n=n) for n in QUICK] + [dict(n=3, projection="TAN")] + MANY,
      thorough=[dict(n=n) for n in range(1, 31)] + [dict(n=n, projection="TAN") for n in (3, 7)] + MANY,
      need=["the configured number of tracts", "numbered in order", "a vertex at every corner of the range", "vertices in order around the range",
            "centred in right ascension", "centred in declination", "referenced to the equator at the central right ascension"],
      bounds="tract counts as listed (1 to 30 in the thorough tier; one to three of the tracts of 97, 360 and 1000), any declination range at least 0.01 degree wide between -89.9 and 89.9, any overlap up to 5 degrees"),
]
