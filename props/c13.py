"""C13: tracts listed for a position contain it; none nearby is missed."""
from props.common import AND, IMPLIES, OR
from props.rings import M, counts, inside, position, ra_in, rastart, ringmap, rows
from symx.harness import H


def index(version, c, s, ring, t):
    """Number of tract t of a ring; None for the historical scheme's missing one."""
    if version == 0 and ring > 0:
        return s[ring] + c[ring] if t == 0 and ring < len(c) - 1 else (None if t == 0 else s[ring] + t)
    return s[ring] + t


def beside(lib, m, n, lat):
    """The tracts of a band of latitudes and of the rings next to it."""
    k, l = rows(lib, n, 1, lat)
    r, t = m.getRingIndices(k)[0] - 1, m.getRingIndices(l)[0] + 1
    k = [i for i in range(1, len(m) - 1) if r <= m.getRingIndices(i)[0] <= t]
    return k[0], k[-1]


def listed(ctx, lib, n, version, ra="any", mode="pair", lat=None):
    start = rastart(ctx, ra)
    m = ringmap(lib, n, start, version)
    one = ringmap(lib, n, start, 1)
    c, s = counts(lib, n)
    last = len(m) - 1
    p = position(ctx, lat=lat)
    # the position is well inside the range of some tract
    k = ctx.int("k", *rows(lib, n, 1, lat))
    rng = one.getRaDecRange(k)
    ctx.assume(inside(p.getLongitude(), p.getLatitude(), rng, M))
    ring = one.getRingIndices(k)[0]
    # a tract of that ring or an adjacent one whose right ascensions hold it
    must = ctx.choice("must", ["south", "north", -1, 0, 1])
    if must == "south":
        want = 0
    elif must == "north":
        want = last
    else:
        r = ring + ctx.choice("ring", [-1, 0, 1])
        ctx.assume(AND(r >= 0, r < n))
        j = ctx.int("j", 1, last - 1) if lat is None else ctx.int("j", *beside(lib, one, n, lat))
        r2, t = one.getRingIndices(j)
        ctx.assume(r2 == r)
        a, b, _, _ = one.getRaDecRange(j)
        ctx.assume(ra_in(p.getLongitude(), a, b, M))
        r = ctx.concrete(r)
        want = index(version, c, s, r, ctx.concrete((t + must) % c[r]))
        ctx.assume(want is not None)
    other = ctx.int("other", 0, last) if mode == "pair" else None
    asked = []

    def holds(i):
        asked.append(i)
        if mode == "all":
            return True
        return OR(i == want, i == other) if mode == "pair" else i == want
    m.holds = holds
    got = [x.getId() for x in m.findAllTracts(p)]
    ctx.prove(OR(*[g == want for g in got]), "a tract nearby containing the position is listed")
    for g in got:
        ctx.prove(AND(g >= 0, g <= last), "only tracts of the sky map are listed")
        if mode == "pair":
            ctx.prove(OR(g == want, g == other), "only tracts containing the position are listed")
        elif mode == "one":
            ctx.prove(g == want, "only tracts containing the position are listed")
    if version == 1 and min(c) >= 3:
        for i in range(len(got)):
            for l in range(i):
                ctx.prove(got[i] != got[l], "no tract is listed twice")


HARNESSES = [
    H("listed", listed,
      quick=[dict(n=1, version=1, ra=20.0, mode="pair"), dict(n=2, version=0, ra=0.0, mode="pair"),
             dict(n=1, version=1, mode="all")] +
            [dict(n=n, version=v, ra=r, mode=m) for n, v, r in ((2, 1, 350.0), (3, 1, 0.0), (3, 0, 10.0)) for m in ("one", "all")],
      thorough=[dict(n=n, version=v, ra=r, mode=mode) for n in (1, 2, 3, 4, 5, 7) for v in (0, 1) for r in (0.0, 10.0, "any")
                for mode in ("pair", "one", "all")] +
               [dict(n=120, version=1, ra=1.0, mode="one", lat=b) for b in ("south", "north")],
      need=["a tract nearby containing the position is listed", "only tracts containing the position are listed",
            "no tract is listed twice"],
      bounds="numbers of rings and starting right ascensions as listed, any position; any one, two or all tracts containing it"),
]
ASSUMES = ("positions within 1e-9 rad of the boundary of a tract's range, or of the right ascensions of the tract asked for, are left out",
           "whether a tract contains the position is arbitrary here (C07 decides it)")
