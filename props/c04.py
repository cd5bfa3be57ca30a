"""C04: patch indices."""
from props.common import AND, NOT, OR, boxes_equal, intbox_tract, symbuilder
from symx.harness import H, outcome, raises


def grid(ctx, lib, kind, nx=None, ny=None, maxn=4, **p):
    """A tract of nx by ny patches (symbolic up to maxn when not given)."""
    bld, dims, border, _ = symbuilder(lib, ctx, kind, p)
    nx = nx or ctx.fork_value(ctx.int("nx", 1, maxn))
    ny = ny or ctx.fork_value(ctx.int("ny", 1, maxn))
    t, wcs, _ = intbox_tract(lib, ctx, bld, dims[0] * nx, dims[1] * ny)
    return t, nx, ny


def valid(ctx, lib, kind, **p):
    t, nx, ny = grid(ctx, lib, kind, **p)
    got = t.getNumPatches()
    ctx.prove(AND(got[0] == nx, got[1] == ny), "patch counts")
    ctx.prove(len(t) == nx * ny, "length")
    x, y = ctx.int("x", 0, nx - 1), ctx.int("y", 0, ny - 1)
    s = nx * y + x
    I2 = lib.utils.Index2D
    ref = t.getPatchInfo(I2(x=x, y=y))
    ctx.prove(AND(ref.getIndex()[0] == x, ref.getIndex()[1] == y), "patch reports its pair")
    ctx.prove(ref.getSequentialIndex() == s, "patch reports its sequential index")
    ctx.prove(AND(ref.index.x == x, ref.index.y == y, ref.sequential_index == s), "properties agree")
    ctx.prove(t.getSequentialPatchIndex(ref) == s, "sequential index of a patch")
    ctx.prove(t.getSequentialPatchIndexFromPair(I2(x=x, y=y)) == s, "sequential index of an Index2D")
    ctx.prove(t.getSequentialPatchIndexFromPair((x, y)) == s, "sequential index of a tuple")
    back = t.getPatchIndexPair(s)
    ctx.prove(AND(back.x == x, back.y == y), "sequential index to pair")
    for name, q in (("tuple", t.getPatchInfo((x, y))), ("list", t.getPatchInfo([x, y])), ("sequential", t.getPatchInfo(s)),
                    ("subscript pair", t[x, y]), ("subscript sequential", t[s])):
        ctx.prove(AND(boxes_equal(q.getInnerBBox(), ref.getInnerBBox()), boxes_equal(q.getOuterBBox(), ref.getOuterBBox()),
                      q.getIndex()[0] == x, q.getIndex()[1] == y, q.getSequentialIndex() == s), "fetched by " + name)


def invalid(ctx, lib, kind, **p):
    t, nx, ny = grid(ctx, lib, kind, **p)
    x, y = ctx.int("x", -3 * nx - 50, 3 * nx + 50), ctx.int("y", -3 * ny - 50, 3 * ny + 50)
    good = AND(x >= 0, x < nx, y >= 0, y < ny)
    I2 = lib.utils.Index2D
    which = ctx.choice("form", ["Index2D", "tuple", "subscript"])
    if which == "Index2D":
        bad = raises(IndexError, t.getPatchInfo, I2(x=x, y=y))
    elif which == "tuple":
        bad = raises(IndexError, t.getPatchInfo, (x, y))
    else:
        bad = raises(IndexError, lambda: t[x, y])
    ctx.prove(good == (not bad), "pair accepted exactly in range")


def badseq(ctx, lib, kind, **p):
    t, nx, ny = grid(ctx, lib, kind, **p)
    s = ctx.int("s", -5 * nx * ny - 50, 5 * nx * ny + 50)
    good = AND(s >= 0, s < nx * ny)
    which = ctx.choice("form", ["method", "subscript"])
    if which == "method":
        k, v = outcome(t.getPatchInfo, s)
    else:
        k, v = outcome(lambda: t[s])
    ctx.prove(k == "value" or isinstance(v, IndexError), "only IndexError")
    ctx.prove(good == (k == "value"), "sequential index accepted exactly in range")
    if k == "value":
        ctx.prove(v.getSequentialIndex() == s, "patch with that sequential index")


def order(ctx, lib, kind, **p):
    t, nx, ny = grid(ctx, lib, kind, **p)
    n = 0
    for q in t:
        ctx.prove(q.getSequentialIndex() == n, "iteration in sequential order")
        ctx.prove(AND(q.getIndex()[0] == n % nx, q.getIndex()[1] == n // nx), "pair of the n-th patch")
        n += 1
    ctx.prove(n == nx * ny, "iteration is complete")


BIG = [dict(kind="legacy", dims=[4000, 4000], nx=36, ny=11), dict(kind="legacy", dims=[7, 4000], nx=1, ny=200),
       dict(kind="cells", dims=[150], ncell=20, nborder=1, nx=13, ny=29)]
HARNESSES = [
    H("valid", valid, quick=[dict(kind="legacy", maxn=5), dict(kind="cells", maxn=3, maxcell=2, maxborder=1)] + BIG,
      thorough=[dict(kind="legacy", maxn=12), dict(kind="cells", maxn=6)] + BIG,
      need=["fetched by sequential", "sequential index to pair"],
      bounds="1..maxn patches per axis or the listed counts; symbolic patch sizes and border, symbolic index"),
    H("invalid", invalid, quick=[dict(kind="legacy", maxn=3), dict(kind="cells", maxn=2, maxcell=2, maxborder=1)] + BIG,
      thorough=[dict(kind="legacy", maxn=8), dict(kind="cells", maxn=5)] + BIG,
      need=["pair accepted exactly in range"], bounds="pairs from 3n+50 below to 3n+50 above the range"),
    H("badseq", badseq, quick=[dict(kind="legacy", maxn=3), dict(kind="cells", maxn=2, maxcell=2, maxborder=1)] + BIG,
      thorough=[dict(kind="legacy", maxn=8), dict(kind="cells", maxn=5)] + BIG,
      need=["sequential index accepted exactly in range", "patch with that sequential index"],
      bounds="sequential indices from 5 nx ny + 50 below to as far above"),
    H("order", order, quick=[dict(kind="legacy", maxn=3), dict(kind="cells", maxn=2, maxcell=1, maxborder=1)] + BIG,
      thorough=[dict(kind="legacy", maxn=6), dict(kind="cells", maxn=4, maxcell=2)] + BIG,
      need=["iteration is complete"], bounds="1..maxn patches per axis, or the listed counts"),
]
