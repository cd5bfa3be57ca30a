"""C05: cells tile their patch and line up with the neighbours' cells."""
from props.common import AND, IMPLIES, NOT, OR, boxes_equal, inbox, intbox_tract, symbuilder
from symx.harness import H


def cellgrid(ctx, lib, nx=3, ny=3, **p):
    bld, dims, border, s = symbuilder(lib, ctx, "cells", p)
    t, wcs, _ = intbox_tract(lib, ctx, bld, dims[0] * nx, dims[1] * ny)
    return t, s


def pair(ctx, a, b, nx, ny, axis):
    """An index pair; with an axis given only that coordinate varies."""
    return (ctx.int(a, 0, nx - 1) if axis != "y" else 0, ctx.int(b, 0, ny - 1) if axis != "x" else ny - 1)


def tile(ctx, lib, nx=3, ny=3, axis=None, **p):
    t, s = cellgrid(ctx, lib, nx, ny, **p)
    cell, ncell, nb, cb = s["cell"], s["ncell"], s["nb"], s["cb"]
    i, j = pair(ctx, "i", "j", nx, ny, axis)
    q = t.getPatchInfo((i, j))
    n = ncell + 2 * nb
    got = q.getNumCells()
    ctx.prove(AND(got[0] == n, got[1] == n), "number of cells")
    d = q.getCellInnerDimensions()
    ctx.prove(AND(d[0] == cell, d[1] == cell, q.getCellBorder() == cb), "patch reports cell size and border")
    a, o = q.getInnerBBox(), q.getOuterBBox()
    x, y = pair(ctx, "x", "y", n, n, axis)
    c = q.getCellInfo((x, y))
    ci, co = c.getInnerBBox(), c.getOuterBBox()
    ctx.prove(AND(ci.getWidth() == cell, ci.getHeight() == cell), "cells have the configured size")
    ctx.prove(AND(ci.getMinX() == a.getMinX() + (x - nb) * cell, ci.getMinY() == a.getMinY() + (y - nb) * cell),
              "cell sits at its index")
    ctx.prove(AND(IMPLIES(x == 0, ci.getMinX() == a.getMinX() - nb * cell),
                  IMPLIES(x == n - 1, ci.getMaxX() == a.getMaxX() + nb * cell),
                  IMPLIES(y == 0, ci.getMinY() == a.getMinY() - nb * cell),
                  IMPLIES(y == n - 1, ci.getMaxY() == a.getMaxY() + nb * cell)), "cells end with the extended region")
    ctx.prove(AND(co.getMinX() == ci.getMinX() - cb, co.getMaxX() == ci.getMaxX() + cb,
                  co.getMinY() == ci.getMinY() - cb, co.getMaxY() == ci.getMaxY() + cb), "outer region of a cell")
    ctx.prove(AND(co.getMinX() >= o.getMinX(), co.getMaxX() <= o.getMaxX(), co.getMinY() >= o.getMinY(),
                  co.getMaxY() <= o.getMaxY()), "outer region inside the patch's")
    ctx.prove(AND(c.getIndex()[0] == x, c.getIndex()[1] == y), "cell knows its index")


def disjoint(ctx, lib, nx=3, ny=3, axis=None, **p):
    t, s = cellgrid(ctx, lib, nx, ny, **p)
    n = s["ncell"] + 2 * s["nb"]
    q = t.getPatchInfo((1, 1))
    x, y = pair(ctx, "x", "y", n, n, axis)
    x2, y2 = pair(ctx, "x2", "y2", n, n, axis)
    ctx.assume(OR(x2 != x, y2 != y))
    ci = q.getCellInfo((x, y)).getInnerBBox()
    b = q.getCellInfo((x2, y2)).getInnerBBox()
    ctx.prove(OR(b.getMaxX() < ci.getMinX(), b.getMinX() > ci.getMaxX(), b.getMaxY() < ci.getMinY(),
                 b.getMinY() > ci.getMaxY()), "two cells are disjoint")


def align(ctx, lib, nx=3, ny=3, axis=None, **p):
    """Cells of two patches coincide wherever both patches have them."""
    t, s = cellgrid(ctx, lib, nx, ny, **p)
    cell, ncell, nb, cb = s["cell"], s["ncell"], s["nb"], s["cb"]
    n = ncell + 2 * nb
    i, j = pair(ctx, "i", "j", nx, ny, axis)
    k, m = pair(ctx, "k", "m", nx, ny, axis)
    p1, p2 = t.getPatchInfo((i, j)), t.getPatchInfo((k, m))
    x, y = pair(ctx, "x", "y", n, n, axis)
    c = p1.getCellInfo((x, y))
    ci = c.getInnerBBox()
    b = p2.getInnerBBox()
    e = nb * cell
    within = AND(ci.getMinX() >= b.getMinX() - e, ci.getMaxX() <= b.getMaxX() + e,
                 ci.getMinY() >= b.getMinY() - e, ci.getMaxY() <= b.getMaxY() + e)
    ctx.assume(within)
    # the index the same pixels have in the other patch
    x2, y2 = x + (i - k) * ncell, y + (j - m) * ncell
    ctx.prove(AND(x2 >= 0, x2 < n, y2 >= 0, y2 < n), "the other patch has a cell there")
    d = p2.getCellInfo((x2, y2))
    ctx.prove(boxes_equal(d.getInnerBBox(), ci), "shared cells have the same inner region")
    ctx.prove(boxes_equal(d.getOuterBBox(), c.getOuterBBox()), "shared cells have the same outer region")


def both(**p):
    return [dict(axis=a, **p) for a in "xy"]


BIG = [dict(dims=[150], ncell=20, nborder=1, nx=30, ny=30), dict(dims=[7], ncell=20, nborder=3)]
HARNESSES = [
    H("tile", tile, quick=both(maxcell=3, maxborder=2) + BIG + [dict(dims=[1], ncell=1, nborder=0)],
      thorough=both(maxcell=8, maxborder=4) + BIG + [dict(dims=[150], ncell=20, nborder=1, nx=100, ny=100),
                                                     dict(dims=[7], ncell=40, nborder=3), dict(dims=[1], ncell=1, nborder=0)],
      need=["cells end with the extended region", "outer region inside the patch's"],
      bounds="cell size 1..1e5 and border 0..1e5 symbolic with <= maxcell cells per patch and <= maxborder border cells, "
             "one axis at a time; both axes at once for the listed sizes"),
    H("disjoint", disjoint, quick=both(maxcell=3, maxborder=2) + BIG,
      thorough=both(maxcell=8, maxborder=3) + BIG + [dict(dims=[7], ncell=40, nborder=3)],
      need=["two cells are disjoint"], bounds="any two cells of a patch; as for tile"),
    H("align", align, quick=both(maxcell=2, maxborder=1) + both(ncell=1, nborder=2) +
      [dict(dims=[150], ncell=20, nborder=1), dict(dims=[7], ncell=2, nborder=5, nx=6, ny=6)],
      thorough=both(maxcell=4, maxborder=2) + [dict(dims=[150], ncell=20, nborder=1, nx=20, ny=20),
                                               dict(dims=[7], ncell=2, nborder=5, nx=12, ny=12)],
      need=["shared cells have the same inner region"],
      bounds="any two patches of an nx by ny tract, any cell; as for tile"),
]
