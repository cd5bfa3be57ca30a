"""C15: without a faster method, look-up returns the tract with the nearest centre."""
from models import geom
from props.common import AbsPoint, Rose
from symx.harness import H


class SepPoint(AbsPoint):
    """A position at an arbitrary separation from every other one."""

    def __init__(self, ctx, tag, table):
        super().__init__(tag)
        self.ctx, self.table = ctx, table

    def separation(self, o):
        return self.table[round(o.getLongitude().asDegrees(), 6), round(o.getLatitude().asDegrees(), 6)]


def skymap(lib, kind, n):
    if kind == "discrete":
        c = lib.discreteSkyMap.DiscreteSkyMapConfig()
        c.raList = [10.0 + 17.0 * i for i in range(n)]
        c.decList = [-40.0 + 11.0 * (i % 10) for i in range(n)]
        c.radiusList = [0.1] * n
        return lib.discreteSkyMap.DiscreteSkyMap(c)
    c = lib.equatSkyMap.EquatSkyMapConfig()
    c.numTracts = n
    return lib.equatSkyMap.EquatSkyMap(c)


def nearest(ctx, lib, kind, n, free=None):
    """free: the tracts at any separation; the others' are fixed, those of a later tract no smaller."""
    with Rose(lambda w: (30.0, 30.0, 30.0, 30.0)):
        m = skymap(lib, kind, n)
        sep, table = [], {}
        hook = geom.SEPARATION_HOOK[0]
        for i in range(n):
            v = ctx.real("sep%d" % i, 0.0, 3.14159) if free is None or i in free else ctx.real("sep%d" % i, 1.0 + 0.01 * (i // 2), 1.0 + 0.01 * (i // 2))
            s = geom.Angle(v, geom.radians)
            sep.append(s)
        for i, t in enumerate(m):
            c = t.getCtrCoord()
            table[round(c.getLongitude().asDegrees(), 6), round(c.getLatitude().asDegrees(), 6)] = sep[i]
        p = SepPoint(ctx, "p", table)
        geom.SEPARATION_HOOK[0] = lambda a, b: b.separation(a) if isinstance(b, SepPoint) else hook(a, b)
        try:
            t = m.findTract(p)
        finally:
            geom.SEPARATION_HOOK[0] = hook
        k = t.getId()
        ctx.prove(t is m[k], "the sky map's own tract")
        for i in range(n):
            a, b = sep[k].asRadians(), sep[i].asRadians()
            # neighbouring doubles may coincide after a change of unit
            ctx.prove(a <= b + 1e-12, "no centre is nearer")
            if i < k:
                ctx.prove(a < b, "the lowest numbered of equals")


HARNESSES = [
    H("nearest", nearest, quick=[dict(kind=k, n=n) for k in ("discrete", "equat") for n in (1, 2, 3, 4)] +
      [dict(kind=k, n=n, free=f) for k, n, f in (("discrete", 20, [0, 19]), ("equat", 70, [33]), ("discrete", 130, [129]))],
      thorough=[dict(kind=k, n=n) for k in ("discrete", "equat") for n in (1, 2, 3, 4, 5)] +
      [dict(kind=k, n=n, free=f) for k in ("discrete", "equat") for n, f in ((30, [0, 29]), (70, [33]), (300, [257]))],
      need=["no centre is nearer", "the lowest numbered of equals"], fp="ideal",
      bounds="one to four tracts (five in the thorough tier), any separations; or 20, 70 or 130 tracts (30, 70, 300), any separations of one or two of them; the discrete and the equatorial sky map, which use the generic look-up"),
]
ASSUMES = ("separations are compared exactly, as the code does after a change of unit (rounding of that change is left out)",)
