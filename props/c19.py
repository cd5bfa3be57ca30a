"""C19: a sky map is a sequence of tracts that keeps returning the same ones."""
from props.common import AND, NOT, OR, AbsPoint, Rose
from symx.harness import H, outcome


class Tract:
    def __init__(self, i):
        self.i = i

    def getId(self):
        return self.i

    tract_id = property(getId)

    def contains(self, coord):
        return False

    def findPatchList(self, coords):
        return ()


def skymap(lib, kind, n):
    if kind == "rings":
        c = lib.ringsSkyMap.RingsSkyMapConfig()
        c.numRings = 1
        return lib.ringsSkyMap.RingsSkyMap(c)
    c = lib.discreteSkyMap.DiscreteSkyMapConfig()
    c.raList, c.decList, c.radiusList = [10.0 * i for i in range(n)], [0.5] * n, [0.1] * n
    if kind == "discrete":
        return lib.discreteSkyMap.DiscreteSkyMap(c)
    base = lib.cachingSkyMap.CachingSkyMap

    class SkyMap(base):
        ConfigClass = lib.discreteSkyMap.DiscreteSkyMapConfig

        def generateTract(self, index):
            return Tract(index)
    return SkyMap(n, c)


def accesses(ctx, lib, kind, n=None, steps=3):
    with Rose(lambda w: (30.0, 30.0, 30.0, 30.0)):
        m = skymap(lib, kind, n)
        size = len(m)
        if n is not None:
            ctx.prove(size == n, "length is the number of tracts")
        seen = {}
        it = None

        def check(i, t):
            i = ctx.concrete(i)
            ctx.prove(t.getId() == i, "indexing gives the tract with that id")
            if i in seen:
                ctx.prove(t is seen[i], "the same tract every time")
            seen[i] = t
        for s in range(steps):
            what = ctx.choice("step%d" % s, ["index", "iterate", "next"])
            if what == "index":
                i = ctx.int("i%d" % s, -3, size + 3)
                kind_, t = outcome(m.__getitem__, i)
                if kind_ == "raise":
                    ctx.prove(isinstance(t, IndexError), "an index out of range is an IndexError")
                    ctx.prove(OR(i < 0, i >= size), "only indices out of range are refused")
                else:
                    ctx.prove(AND(i >= 0, i < size), "an index out of range is refused")
                    check(i, t)
            elif what == "iterate":
                got = list(m)
                ctx.prove([t.getId() for t in got] == list(range(size)), "iteration yields every tract in order")
                for i, t in enumerate(got):
                    check(i, t)
            else:
                # one step of an iteration kept open across other accesses
                if it is None:
                    it, at = iter(m), 0
                t = next(it, None)
                if at < size:
                    ctx.prove(t is not None and t.getId() == at, "iteration yields every tract in order")
                    if t is not None:
                        check(at, t)
                    at += 1
                else:
                    ctx.prove(t is None, "iteration yields every tract in order")
        ctx.prove(len(m) == size, "length stays the same")
        got = list(m)
        ctx.prove(len(got) == size, "iteration yields every tract in order")
        for i, t in enumerate(got):
            check(i, t)


def bulk(ctx, lib, n, lo, hi, ways=("iterate", "index", "backwards")):
    """Many tracts, all made before any of a stretch of them is asked for again."""
    m = skymap(lib, "stub", n)
    first = ctx.choice("first", list(ways))
    i = ctx.int("i", lo, hi)
    if first == "iterate":
        got = list(m)
    elif first == "index":
        got = [m[k] for k in range(n)]
    else:
        got = [m[k] for k in range(n - 1, -1, -1)][::-1]
    ctx.prove([t.getId() for t in got] == list(range(n)), "iteration yields every tract in order")
    kind, t = outcome(m.__getitem__, i)
    if kind == "raise":
        ctx.prove(isinstance(t, IndexError), "an index out of range is an IndexError")
        ctx.prove(OR(i < 0, i >= n), "only indices out of range are refused")
        return
    ctx.prove(AND(i >= 0, i < n), "an index out of range is refused")
    i = ctx.concrete(i)
    ctx.prove(t.getId() == i, "indexing gives the tract with that id")
    ctx.prove(t is got[i], "the same tract every time")
    ctx.prove(all(a is b for a, b in zip(got, m)), "the same tract every time")


HARNESSES = [
    H("accesses", accesses, quick=[dict(kind="stub", n=n, steps=3) for n in (1, 2, 3)] + [dict(kind="stub", n=0, steps=2)] +
      [dict(kind="discrete", n=2, steps=3), dict(kind="rings", steps=2)],
      thorough=[dict(kind="stub", n=n, steps=4) for n in (1, 2, 3, 5)] + [dict(kind="stub", n=0, steps=3)] +
               [dict(kind="discrete", n=n, steps=3) for n in (1, 2, 3)] + [dict(kind="rings", steps=3)],
      need=["length is the number of tracts", "indexing gives the tract with that id", "the same tract every time",
            "an index out of range is an IndexError", "only indices out of range are refused", "an index out of range is refused",
            "iteration yields every tract in order"], budget_s=400,
      bounds="sky maps of 0 to 3 tracts (5 in the thorough tier) and a ring sky map; up to three accesses (four): any index from -3 to 3 past the end, "
             "a whole iteration or a step of one left open"),
    H("bulk", bulk, quick=[dict(n=150, lo=-3, hi=152), dict(n=1500, lo=-2, hi=9), dict(n=1500, lo=1490, hi=1502),
                          dict(n=30000, lo=-1, hi=1, ways=["iterate"])],
      thorough=[dict(n=180, lo=-3, hi=185)] + [dict(n=n, lo=a, hi=b) for n in (1500, 20000) for a, b in ((-2, 9), (n // 2, n // 2 + 9), (n - 10, n + 2))],
      need=["the same tract every time", "indexing gives the tract with that id", "only indices out of range are refused",
            "iteration yields every tract in order"],
      bounds="150 tracts and any index, 1500 tracts and indices near either end, 30000 and the first two (20000, and near the middle, in the thorough tier)"),
]
