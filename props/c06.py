"""C06: cell indices."""
from props.common import AND, OR, boxes_equal, intbox_tract, symbuilder
from props.c05 import cellgrid
from symx.harness import H, outcome, raises


def patch(ctx, lib, **p):
    t, s = cellgrid(ctx, lib, 2, 3, **p)
    return t.getPatchInfo((1, 2)), s["ncell"] + 2 * s["nb"]


def valid(ctx, lib, **p):
    q, n = patch(ctx, lib, **p)
    ctx.prove(len(q) == n * n, "length")
    ctx.prove(AND(q.getNumCells()[0] == n, q.getNumCells()[1] == n, q.num_cells.x == n), "cells per side")
    x, y = ctx.int("x", 0, n - 1), ctx.int("y", 0, n - 1)
    s = n * y + x
    I2 = lib.utils.Index2D
    ref = q.getCellInfo(I2(x=x, y=y))
    ctx.prove(AND(ref.getIndex()[0] == x, ref.getIndex()[1] == y, ref.index.x == x), "cell reports its pair")
    ctx.prove(AND(ref.getSequentialIndex() == s, ref.sequential_index == s), "cell reports its sequential index")
    ctx.prove(q.getSequentialCellIndex(ref) == s, "sequential index of a cell")
    ctx.prove(q.getSequentialCellIndexFromPair(I2(x=x, y=y)) == s, "sequential index of an Index2D")
    ctx.prove(q.getSequentialCellIndexFromPair((x, y)) == s, "sequential index of a tuple")
    b = q.getCellIndexPair(s)
    ctx.prove(AND(b.x == x, b.y == y), "sequential index to pair")
    for name, c in (("tuple", q.getCellInfo((x, y))), ("sequential", q.getCellInfo(s)), ("subscript pair", q[x, y]),
                    ("subscript sequential", q[s])):
        ctx.prove(AND(boxes_equal(c.getInnerBBox(), ref.getInnerBBox()), boxes_equal(c.getOuterBBox(), ref.getOuterBBox()),
                      c.getIndex()[0] == x, c.getIndex()[1] == y, c.getSequentialIndex() == s), "fetched by " + name)


def invalid(ctx, lib, **p):
    q, n = patch(ctx, lib, **p)
    x, y = ctx.int("x", -3 * n - 50, 3 * n + 50), ctx.int("y", -3 * n - 50, 3 * n + 50)
    good = AND(x >= 0, x < n, y >= 0, y < n)
    which = ctx.choice("form", ["Index2D", "tuple", "subscript"])
    f = dict(Index2D=lambda: q.getCellInfo(lib.utils.Index2D(x=x, y=y)), tuple=lambda: q.getCellInfo((x, y)),
             subscript=lambda: q[x, y])[which]
    ctx.prove(good == (not raises(IndexError, f)), "pair accepted exactly in range")


def badseq(ctx, lib, **p):
    q, n = patch(ctx, lib, **p)
    s = ctx.int("s", -3 * n * n - 50, 3 * n * n + 50)
    which = ctx.choice("form", ["method", "subscript"])
    k, v = outcome((lambda: q.getCellInfo(s)) if which == "method" else (lambda: q[s]))
    ctx.prove(k == "value" or isinstance(v, IndexError), "only IndexError")
    ctx.prove(AND(s >= 0, s < n * n) == (k == "value"), "sequential index accepted exactly in range")
    if k == "value":
        ctx.prove(v.getSequentialIndex() == s, "cell with that sequential index")


def nocells(ctx, lib, **p):
    bld, dims, border, _ = symbuilder(lib, ctx, "legacy", p)
    t, wcs, _ = intbox_tract(lib, ctx, bld, dims[0] * 2, dims[1])
    q = t.getPatchInfo((1, 0))
    ctx.prove(len(q) == 0, "length zero without cells")
    ctx.prove(AND(q.getNumCells()[0] == 0, q.getNumCells()[1] == 0), "no cells")
    x, y = ctx.int("x", -5, 5), ctx.int("y", -5, 5)
    ctx.prove(raises(IndexError, q.getCellInfo, (x, y)), "fetching by pair raises")
    ctx.prove(raises(IndexError, q.getCellInfo, x), "fetching by sequential index raises")
    ctx.prove(raises(IndexError, lambda: q[x]), "subscript raises")
    ctx.prove(raises(IndexError, q.getCellIndexPair, x), "index conversion raises")
    ctx.prove(list(q) == [], "iteration is empty")


def order(ctx, lib, **p):
    q, n = patch(ctx, lib, **p)
    k = 0
    for c in q:
        ctx.prove(AND(c.getSequentialIndex() == k, c.getIndex()[0] == k % n, c.getIndex()[1] == k // n),
                  "iteration in sequential order")
        k += 1
    ctx.prove(k == n * n, "iteration is complete")


BIG = [dict(dims=[150], ncell=20, nborder=1), dict(dims=[3], ncell=40, nborder=0), dict(dims=[3], ncell=1, nborder=5)]
HARNESSES = [
    H("valid", valid, quick=[dict(maxcell=4, maxborder=2)] + BIG, thorough=[dict(maxcell=12, maxborder=4)] + BIG,
      need=["fetched by sequential", "sequential index to pair"],
      bounds="<= maxcell inner and <= maxborder border cells per side, or as listed; symbolic cell size, border and index"),
    H("invalid", invalid, quick=[dict(maxcell=3, maxborder=1)] + BIG, thorough=[dict(maxcell=8, maxborder=3)] + BIG,
      need=["pair accepted exactly in range"], bounds="pairs from 3n+50 below to 3n+50 above the range"),
    H("badseq", badseq, quick=[dict(maxcell=3, maxborder=1)] + BIG, thorough=[dict(maxcell=8, maxborder=3)] + BIG,
      need=["sequential index accepted exactly in range"], bounds="sequential indices from 3nn+50 below to as far above"),
    H("nocells", nocells, quick=[dict()], need=["fetching by pair raises"], bounds="any legacy patch size and border"),
    H("order", order, quick=[dict(maxcell=2, maxborder=1)] + BIG, thorough=[dict(maxcell=5, maxborder=2)] + BIG,
      need=["iteration is complete"], bounds="as listed"),
]
