"""C33: patches and cells are equal exactly when they are the same pieces of a tract."""
from models import geom
from props.common import AND, IFF, NOT, intbox_tract, symbuilder
from symx.harness import H


def box(ctx, tag, lo=-50, hi=50, size=20):
    return geom.Box2I(geom.Point2I(ctx.int("x" + tag, lo, hi), ctx.int("y" + tag, lo, hi)),
                      geom.Extent2I(ctx.int("w" + tag, 1, size), ctx.int("h" + tag, 1, size)))


def grown(ctx, b, tag):
    x0, y0 = b.getMinX() - ctx.int("l" + tag, 0, 5), b.getMinY() - ctx.int("b" + tag, 0, 5)
    x1, y1 = b.getMaxX() + ctx.int("r" + tag, 0, 5), b.getMaxY() + ctx.int("t" + tag, 0, 5)
    return geom.Box2I(geom.Point2I(x0, y0), geom.Point2I(x1, y1))


def numbers(b):
    return [b.getMinX(), b.getMinY(), b.getMaxX(), b.getMaxY()]


def piece(ctx, lib, kind, tag, inner, outer):
    """A patch or cell made directly, and the numbers that identify it."""
    I2 = lib.detail.Index2D
    idx = I2(x=ctx.int("i" + tag, 0, 5), y=ctx.int("j" + tag, 0, 5))
    what = [idx.x, idx.y] + numbers(inner) + numbers(outer)
    seq = ctx.int("seq" + tag, 0, 100)
    if kind == "cell":
        return lib.cellInfo.CellInfo(index=idx, innerBBox=inner, outerBBox=outer, sequentialIndex=seq, tractWcs=None), what
    kw = {}
    if kind == "cells":
        n, k = ctx.int("n" + tag, 0, 4), ctx.int("k" + tag, 0, 2)
        kw = dict(cellInnerDimensions=(7, 7), cellBorder=ctx.int("cb" + tag, 0, 4), numCellsPerPatchInner=n, numCellsInPatchBorder=k)
        num = 0 if n == 0 else n + 2 * k
        what += [num, kw["cellBorder"]]
    return lib.patchInfo.PatchInfo(index=idx, innerBBox=inner, outerBBox=outer, sequentialIndex=seq, tractWcs=None, **kw), what


def direct(ctx, lib, kind, vary):
    """Two pieces with any index, regions and cells."""
    ia = box(ctx, "_a")
    oa = grown(ctx, ia, "_a")
    if vary == "inner":
        ib = box(ctx, "_b")
        ob = geom.Box2I(oa)
        ctx.assume(ob.contains(ib))
    elif vary == "outer":
        ib, ob = geom.Box2I(ia), grown(ctx, ia, "_b")
    else:
        ib, ob = geom.Box2I(ia), geom.Box2I(oa)
    a, wa = piece(ctx, lib, kind, "_a", ia, oa)
    b, wb = piece(ctx, lib, kind, "_b", ib, ob)
    same = AND(*[u == v for u, v in zip(wa, wb)])
    eq = a == b
    ctx.prove(IFF(eq, same), "equal exactly when index, regions and cells agree")
    ctx.prove(IFF(a != b, NOT(same)), "unequal exactly when not equal")
    ctx.prove(IFF(b == a, same), "equality is symmetric")
    ctx.reach("compared")


def fetched(ctx, lib, kind, nx=3, ny=2, **p):
    """Patches and cells of one tract: equal exactly when they have the same index."""
    bld, dims, border, s = symbuilder(lib, ctx, kind, p)
    t, wcs, _ = intbox_tract(lib, ctx, bld, dims[0] * nx, dims[1] * ny)
    a, b = [(ctx.int("i" + k, 0, nx - 1), ctx.int("j" + k, 0, ny - 1)) for k in "ab"]
    p, q = t.getPatchInfo(a), t.getPatchInfo(b)
    same = AND(a[0] == b[0], a[1] == b[1])
    ctx.prove(IFF(p == q, same), "patches of a tract are equal exactly when their indices are")
    ctx.prove(IFF(p != q, NOT(same)), "patches of a tract are equal exactly when their indices are")
    if kind == "cells":
        n = p.getNumCells()[0]
        a, b = [(ctx.int("x" + k, 0, n - 1), ctx.int("y" + k, 0, n - 1)) for k in "ab"]
        c, d = p.getCellInfo(a), p.getCellInfo(b)
        same = AND(a[0] == b[0], a[1] == b[1])
        ctx.prove(IFF(c == d, same), "cells of a patch are equal exactly when their indices are")
        ctx.prove(IFF(c != d, NOT(same)), "cells of a patch are equal exactly when their indices are")


HARNESSES = [
    H("direct", direct, quick=[dict(kind=k, vary=v) for k in ("legacy", "cells", "cell") for v in ("inner", "outer", "rest")],
      need=["equal exactly when index, regions and cells agree", "unequal exactly when not equal", "equality is symmetric", "compared"],
      bounds="any two pieces with coordinates up to 100, up to 4 inner cells, 2 border cells and a cell border of 4"),
    H("fetched", fetched, quick=[dict(kind="legacy", dims=d) for d in (None, [1, 7])] +
      [dict(kind="cells", dims=[7], ncell=2, nborder=b) for b in (0, 1)],
      thorough=[dict(kind="legacy", dims=d, nx=n, ny=m) for d in (None, [1, 7], [4000, 4000]) for n, m in ((1, 1), (3, 2), (20, 30))] +
      [dict(kind="cells", dims=[d], ncell=n, nborder=b) for d in (7, 150) for n in (1, 2, 20) for b in (0, 1, 2)],
      need=["patches of a tract are equal exactly when their indices are", "cells of a patch are equal exactly when their indices are"],
      bounds="tracts of nx by ny patches, any two patches and cells, symbolic or listed sizes"),
]
ASSUMES = ()
