"""C16: tracts and patches found for a list of positions."""
from props.common import AbsPoint, OR, Rose
from symx.harness import H


class Patch:
    """A patch made anew by every search, equal to the others like it (also of other tracts)."""

    def __init__(self, owner, *what):
        self.owner, self.what = owner, what

    def __eq__(self, o):
        return isinstance(o, Patch) and self.what == o.what

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class Free(list):
    """The positions that are free, and tracts that hold every position."""
    solid = ()


def holds(ctx, i, tag, free):
    """Is a position in a tract?  Those that are not free are in the solid ones only."""
    if free is not None and i in free.solid:
        return True
    return ctx.bool("in%d_%s" % (i, tag)) if free is None or tag in free else False


def nearest(ctx, n, tag, free):
    """The tract nearest a position: of those that are not free, the first."""
    return ctx.choice("near_" + tag, list(range(n))) if free is None or tag in free else 0


class Tract:
    def __init__(self, ctx, i, coords, has, free):
        self.ctx, self.i, self.coords, self.has, self.free = ctx, i, coords, has, free

    def getId(self):
        return self.i

    tract_id = property(getId)

    def contains(self, c):
        return holds(self.ctx, self.i, c.tag, self.free)

    def findPatchList(self, coords):
        """Patches for the whole list; for any other list, other patches."""
        tags = tuple(c.tag for c in coords)
        if tags == tuple(c.tag for c in self.coords):
            n = 1 if self.has[self.i] else 0
            if n and self.i % 2:
                n = 2
            return tuple(Patch(self.i, j) for j in range(n))
        return (Patch(self.i, 0, tags),)


def skymap(lib, ctx, kind, n, coords, has, free=None):
    if kind == "rings":
        mod, cls = lib.ringsSkyMap, "RingsSkyMap"
        c = mod.RingsSkyMapConfig()
        c.numRings = 1 if n < 7 else 4
    else:
        mod, cls = lib.discreteSkyMap, "DiscreteSkyMap"
        c = mod.DiscreteSkyMapConfig()
        c.raList, c.decList, c.radiusList = [10.0 * i for i in range(n)], [0.0] * n, [0.1] * n
    base = getattr(mod, cls)

    class SkyMap(base):
        def generateTract(self, i):
            return Tract(ctx, i, coords, has, free)

        def findTract(self, coord):
            return self[nearest(ctx, n, coord.tag, free)]

    if kind == "rings":
        def findAllTracts(self, coord):
            r = [self[i] for i in range(n) if holds(ctx, i, coord.tag, free)]
            if r and (free is None or coord.tag in free) and ctx.bool("twice_" + coord.tag):
                r.append(r[0])
            return r
        SkyMap.findAllTracts = findAllTracts
    return SkyMap(c)


def search(ctx, lib, kind, n, count, at=None, tracts=None, solid=(), again=()):
    """at: which positions are free (all), tracts: which may have patches (any), solid: tracts holding every position,
    again: positions the list has once more at its end."""
    free = None if at is None else Free("p%d" % i for i in at)
    if free is not None:
        free.solid = solid
    coords = [AbsPoint("p%d" % i) for i in range(count)]
    coords += [coords[i] for i in again]
    has = [ctx.bool("has%d" % i) if tracts is None or i in tracts else True for i in range(n)] + [False] * 20
    has = [bool(x) for x in has]
    given = list(coords)
    m = skymap(lib, ctx, "discrete" if kind == "closest" else kind, n, coords, has, free)
    if kind == "closest":
        got = m.findClosestTractPatchList(coords)
        near = [nearest(ctx, n, c.tag, free) for c in coords]
        want = {k for k in near if has[k]}
    else:
        got = m.findTractPatchList(coords)
        if kind == "rings":
            want = {i for i in range(n) if has[i] and any(bool(holds(ctx, i, c.tag, free)) for c in coords)}
        else:
            want = {i for i in range(n) if has[i]}
    ctx.prove(len(coords) == len(given) and all(a is b for a, b in zip(coords, given)), "the list is left as it was")
    ids = [t.getId() for t, _ in got]
    ctx.prove(len(set(ids)) == len(ids), "no tract is repeated")
    ctx.prove(set(ids) == want, "exactly the tracts with patches there")
    for t, ps in got:
        k = t.getId()
        ctx.prove(t is m[k], "the sky map's own tracts")
        ctx.prove([p.what for p in ps] == [(j,) for j in range(2 if k % 2 else 1)] and
                  all(p.owner == k for p in ps), "the patches the tract finds for the whole list")
    if kind == "all":
        ctx.prove(ids == sorted(ids), "in tract order")


def real(ctx, lib, kind, count=2, alike=False):
    """Real tracts and patches of a discrete sky map of two tracts of 3 by 3 patches."""
    pts = [AbsPoint("q%d" % i) for i in range(count)]
    fixed = {}
    for p in pts:
        x = ctx.int("x_" + p.tag, -40, 70)
        fixed[p.tag] = (x + 0.25 if not ctx.symbolic else x + 0.25, 0.25)
    c = lib.discreteSkyMap.DiscreteSkyMapConfig()
    c.raList, c.decList, c.radiusList = [10.0, 50.0], [0.0, 5.0], [0.1, 0.1]
    c.tractBuilder["legacy"].patchInnerDimensions = [20, 20]
    c.tractBuilder["legacy"].patchBorder = 3
    base = lib.discreteSkyMap.DiscreteSkyMap

    class DiscreteSkyMap(base):
        def findTract(self, coord):
            return self[ctx.choice("near_" + coord.tag, [0, 1])]

    def size(w):
        return (29.0, 29.0, 30.0, 30.0) if alike or abs(w.getSkyOrigin().getLongitude().asDegrees() - 10) < 1 else (10.0, 9.0, 9.0, 10.0)
    with Rose(size, fixed):
        m = DiscreteSkyMap(c)
        got = m.findTractPatchList(pts) if kind == "all" else m.findClosestTractPatchList(pts)
        asked = [0, 1] if kind == "all" else sorted({ctx.choice("near_" + p.tag, [0, 1]) for p in pts})
        want = []
        for i in asked:
            ps = m[i].findPatchList(pts)
            if len(ps) > 0:
                want.append((i, [tuple(q.getIndex()) for q in ps]))
        have = [(t.getId(), [tuple(q.getIndex()) for q in ps]) for t, ps in got]
        ctx.prove(sorted(have) == want, "each tract once with the patches it finds")
        if kind == "all":
            ctx.prove(have == want, "in tract order")


HARNESSES = [
    H("search", search, quick=[dict(kind="all", n=n, count=c) for n, c in ((1, 1), (3, 2), (4, 3), (2, 0))] +
      [dict(kind="closest", n=n, count=c) for n, c in ((1, 2), (3, 2), (3, 3), (2, 0))] +
      [dict(kind="rings", n=n, count=c) for n, c in ((3, 1), (3, 2), (2, 3), (2, 0))] +
      [dict(kind=k, n=2, count=2, again=[i]) for k in ("all", "closest", "rings") for i in (0, 1)] +
      [dict(kind="all", n=40, count=30, at=[0], tracts=[0, 1, 17, 38, 39])] +
      [dict(kind="closest", n=5, count=30, at=[a, 29], tracts=[0, 4]) for a in (0, 13)] +
      [dict(kind="rings", n=3, count=30, at=[a, 29], tracts=[2]) for a in (0, 13)] +
      [dict(kind="rings", n=24, count=3, at=[1], tracts=[0, 23], solid=list(range(2, 22)))],
      thorough=[dict(kind=k, n=n, count=c) for k in ("all", "closest", "rings") for n in (1, 2, 3) for c in (0, 1, 2, 3)] +
               [dict(kind=k, n=4, count=3) for k in ("all", "closest")],
      need=["no tract is repeated", "exactly the tracts with patches there", "the sky map's own tracts",
            "the patches the tract finds for the whole list", "in tract order"], budget_s=500,
      bounds="up to four tracts and three positions, or two of which one is in the list twice (of 30 positions two are free in the listed cases, of 40 tracts five, or of 24 four, 20 holding every position); which tracts contain a position, are nearest to it and have patches for the list is arbitrary"),
    H("real", real, quick=[dict(kind=k, alike=a) for k in ("all", "closest") for a in (False, True)],
      thorough=[dict(kind=k, count=c, alike=a) for k in ("all", "closest") for c in (1, 2, 3) for a in (False, True)],
      need=["each tract once with the patches it finds"],
      bounds="two tracts of 3x3 and 1x1 patches (or both of 3x3), two positions along a line through both tracts and beyond"),
]
