"""C17: sky maps are equal, with equal hashes, exactly when configured alike."""
from props.common import AND, IFF, IMPLIES, NOT
from props.configs import CLASSES, config, flat, make, same, settings
from symx.harness import H, outcome


def pair(ctx, lib, cls, build, other=None, obuild=None, count=2, ocount=None):
    """Two sky maps with any settings."""
    other, obuild = other or cls, obuild or build
    a = settings(ctx, cls, build, "_a", count)
    b = settings(ctx, other, obuild, "_b", count if ocount is None else ocount)
    with flat():
        m, n = make(lib, cls, config(lib, cls, build, a)), make(lib, other, config(lib, other, obuild, b))
        alike = same(a, b) if (cls, build) == (other, obuild) else False
        d, e = m.getSha1(), n.getSha1()
        ctx.prove(isinstance(d, bytes) and len(d) == 20, "the digest is 20 bytes")
        ctx.prove(IMPLIES(alike, d == e), "the same configuration gives the same digest")
        ctx.prove(IMPLIES(d == e, alike), "different configurations give different digests")
        ctx.prove(IFF(m == n, alike), "equal exactly when configured alike")
        ctx.prove(IFF(m != n, NOT(alike)), "unequal exactly when not configured alike")
        if d == e:
            ctx.prove(hash(m) == hash(n), "equal sky maps have equal hashes")
            ctx.reach("alike")
        else:
            ctx.reach("not alike")


def alone(ctx, lib, cls, build):
    """The digest stays the same while the sky map is used; comparison with other objects."""
    a = settings(ctx, cls, build, "_a")
    with flat():
        m = make(lib, cls, config(lib, cls, build, a))
        twin = make(lib, cls, config(lib, cls, build, a))
        d = m.getSha1()
        if cls not in ("healpix", "rings"):
            for t in m:
                t.getId()
        ctx.prove(m.getSha1() == d, "the digest does not change in use")
        ctx.prove(AND(m == m, m == twin, twin == m), "equal to itself and its twin")
        ctx.prove(NOT(m != twin), "equal to itself and its twin")
        for o in (None, 3, 2.5, "RingsSkyMap", b"x", [m], (m,), {}, object(), type(m)):
            for f in (lambda: m == o, lambda: o == m):
                kind, v = outcome(f)
                if o is type(m):
                    # a class has the method but not the digest
                    continue
                ctx.prove(kind == "value" and v is False, "comparison with other objects is false")
            kind, v = outcome(lambda: m != o)
            if o is not type(m):
                ctx.prove(kind == "value" and v is True, "comparison with other objects is false")


def version(ctx, lib, n):
    """Ring sky maps whose tracts are numbered differently."""
    r = lib.ringsSkyMap
    ra = ctx.real("raStart", 0.0, 359.9)
    ms = []
    for v in (0, 1):
        c = r.RingsSkyMapConfig()
        c.numRings, c.raStart = n, ra
        ms.append(r.RingsSkyMap(c, version=v))
    ctx.prove(NOT(ms[0].getSha1() == ms[1].getSha1()), "the two numbering schemes give different digests")


ALL = list(CLASSES)
QUICK = [dict(cls=c, build=b) for c in ALL for b in ("legacy", "cells")] + [
    dict(cls="discrete", build="legacy", count=a, ocount=b) for a, b in ((0, 0), (1, 1), (1, 2), (0, 1), (3, 3), (40, 40), (40, 41), (150, 150))] + [
    dict(cls="discrete", build="legacy", obuild="cells", count=a, ocount=b) for a, b in ((0, 0), (1, 0), (1, 1))] + [
    dict(cls=c, build="legacy", obuild="cells") for c in ALL if c != "discrete"] + [
    dict(cls=ALL[i], build=x, other=ALL[j], obuild=y) for i in range(5) for j in range(i)
    for x, y in (("legacy", "legacy"), ("cells", "legacy"))]
HARNESSES = [
    H("pair", pair, quick=QUICK,
      thorough=QUICK + [dict(cls=ALL[i], build=x, other=ALL[j], obuild=y) for i in range(5) for j in range(i)
                        for x, y in (("legacy", "cells"), ("cells", "cells"))] +
      [dict(cls="discrete", build=x, obuild=y, count=a, ocount=b) for x in ("legacy", "cells") for y in ("legacy", "cells")
       for a in range(5) for b in range(5)],
      need=["the digest is 20 bytes", "the same configuration gives the same digest", "different configurations give different digests",
            "equal exactly when configured alike", "unequal exactly when not configured alike", "equal sky maps have equal hashes"],
      bounds="any pair of settings within the ranges of props/configs.py, for every pair of classes; discrete sky maps of up to three tracts, or of as many as listed", fork_mul=False),
    H("alone", alone, quick=[dict(cls=c, build=b) for c in ALL for b in ("legacy", "cells")],
      need=["the digest does not change in use", "equal to itself and its twin", "comparison with other objects is false"],
      bounds="any settings; ten kinds of other object", fork_mul=False),
    H("version", version, quick=[dict(n=2)], thorough=[dict(n=n) for n in (1, 2, 3)],
      need=["the two numbering schemes give different digests"], bounds="any starting right ascension"),
]
ASSUMES = ("different messages have different SHA-1 digests", "settings are compared as numbers: the two zeros of floating point count as one")
