"""C35: changing what a tract has returned changes nothing it returns later."""
from models import geom
from props.common import AND, intbox_tract, symbuilder
from symx.harness import H


def numbers(b):
    return (b.getMinX(), b.getMinY(), b.getWidth(), b.getHeight())


def spoil(ctx, b, tag):
    """Change a box in one of the ways there are."""
    how = ctx.choice("change" + tag, ["grow", "shift", "clip", "include"])
    n = ctx.int("by" + tag, 1, 50)
    if how == "grow":
        b.grow(n)
    elif how == "shift":
        b.shift(geom.Extent2I(n, -n))
    elif how == "clip":
        b.clip(geom.Box2I(geom.Point2I(1, 1), geom.Extent2I(n, n)))
    else:
        b.include(geom.Point2I(-n, -n))


def stretch(ctx, d, tag):
    """Change dimensions in one of the ways there are."""
    how = ctx.choice("change" + tag, ["x", "y", "item", "add", "times"])
    n = ctx.int("by" + tag, 2, 50)
    if how == "x":
        d.x = n
    elif how == "y":
        d.setY(n)
    elif how == "item":
        d[0] = n
    elif how == "add":
        d += geom.Extent2I(n, n)
    else:
        d *= 2


def tract(ctx, lib, kind, what, nx=3, ny=2, **p):
    bld, dims, border, s = symbuilder(lib, ctx, kind, p)
    t, wcs, _ = intbox_tract(lib, ctx, bld, dims[0] * nx, dims[1] * ny)
    later = dims[0] * nx, dims[1] * ny
    ij = (ctx.int("i", 0, nx - 1), ctx.int("j", 0, ny - 1))

    def state():
        q = t.getPatchInfo(ij)
        v = numbers(t.getBBox()) + tuple(t.getNumPatches()) + numbers(q.getInnerBBox()) + numbers(q.getOuterBBox())
        v += numbers(t.getPatchInfo((0, 0)).getOuterBBox()) + tuple(t.getPatchInnerDimensions())
        if kind == "cells":
            n = q.getNumCells()[0]
            for k in (0, n - 1):
                c = q.getCellInfo((k, k))
                v += numbers(c.getInnerBBox()) + numbers(c.getOuterBBox())
            v += tuple(q.getCellInnerDimensions())
        return v
    before = state()
    q = t.getPatchInfo(ij)
    if what == "tract":
        spoil(ctx, t.getBBox(), "_t")
        spoil(ctx, t.bbox, "_u")
    elif what == "patch":
        spoil(ctx, q.getOuterBBox(), "_o")
        spoil(ctx, q.getInnerBBox(), "_i")
    elif what == "cell":
        c = q.getCellInfo((ctx.int("x", 0, q.getNumCells()[0] - 1), 0))
        spoil(ctx, c.getInnerBBox(), "_i")
        spoil(ctx, c.getOuterBBox(), "_o")
    elif what == "dimensions":
        stretch(ctx, t.getPatchInnerDimensions(), "_d")
        stretch(ctx, t.patch_inner_dimensions, "_e")
        stretch(ctx, q.getCellInnerDimensions(), "_c")
    after = state()
    ctx.prove(AND(*[u == v for u, v in zip(before, after)]), "what the tract returns is unchanged")
    if what == "dimensions":
        u = intbox_tract(lib, ctx, bld, *later)[0]
        ctx.prove(AND(*[a == b for a, b in zip(u.getNumPatches(), t.getNumPatches())], *[a == b for a, b in zip(u.getPatchInnerDimensions(), dims)]),
                  "tracts made later are divided alike")
    if what == "tract":
        x, y = q.getInnerBBox().getMinX(), q.getInnerBBox().getMinY()
        ctx.prove(AND(x == ij[0] * dims[0], y == ij[1] * dims[1]), "patches fetched before are unchanged")


LEG, CELL = dict(kind="legacy", dims=[40, 30]), dict(kind="cells", dims=[7], ncell=2, nborder=1)
HARNESSES = [
    H("tract", tract, quick=[dict(LEG, what=w) for w in ("tract", "patch", "dimensions")] + [dict(CELL, what=w) for w in ("tract", "patch", "cell", "dimensions")],
      thorough=[dict(k, what=w, nx=n, ny=m) for k in (LEG, CELL) for w in ("tract", "patch", "cell", "dimensions") if k is CELL or w != "cell"
                for n, m in ((1, 1), (3, 2), (20, 30))],
      need=["what the tract returns is unchanged", "patches fetched before are unchanged", "tracts made later are divided alike"], fork_mul=False,
      bounds="tracts of nx by ny patches, any patch and any of its first row of cells, four kinds of change by up to 50 pixels to boxes, five to dimensions"),
]
ASSUMES = ()
