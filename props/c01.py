"""C01: the inner regions of the patches tile the tract exactly."""
from models import geom
from props.common import AND, IMPLIES, NOT, OR, boxes_equal, inbox, intbox_tract, symbuilder
from symx.harness import H


def make(ctx, lib, kind, p):
    """A tract over an arbitrary box, at most `maxn` patches wide and high."""
    bld, dims, border, _ = symbuilder(lib, ctx, kind, p)
    n = p.get("maxn")
    big = p.get("big", 10 ** 6)
    w, h = ctx.int("w", 1, big), ctx.int("h", 1, big)
    if "grid" in p:
        for v, d, k in zip((w, h), dims, p["grid"]):
            ctx.assume(AND(v > d * (k - 1), v <= d * k))
    elif n is not None:
        ctx.assume(AND(w <= dims[0] * n, h <= dims[1] * n))
    x0, y0 = ctx.int("x0", -big, big), ctx.int("y0", -big, big)
    t, wcs, _ = intbox_tract(lib, ctx, bld, w, h, x0, y0)
    return t, dims, border


def tiling(ctx, lib, kind, **p):
    t, dims, border = make(ctx, lib, kind, p)
    box = t.getBBox()
    nx, ny = t.getNumPatches()
    ctx.prove(AND(nx >= 1, ny >= 1), "at least one patch")
    ctx.prove(AND(box.getMinX() == 0, box.getMinY() == 0), "tract starts at the origin")
    # any pixel of the tract is in the patch at its own grid position ...
    i, j = ctx.int("i", 0, 10 ** 6), ctx.int("j", 0, 10 ** 6)
    ctx.assume(AND(i < nx, j < ny))
    a = t.getPatchInfo((i, j))
    ai = a.getInnerBBox()
    ctx.prove(AND(ai.getWidth() == dims[0], ai.getHeight() == dims[1]), "all inner regions have the same size")
    ctx.prove(AND(ai.getMinX() == i * dims[0], ai.getMinY() == j * dims[1]), "patch sits at its index")
    ctx.prove(AND(ai.getMinX() >= 0, ai.getMinY() >= 0, ai.getMaxX() <= box.getMaxX(),
                  ai.getMaxY() <= box.getMaxY()), "inner region inside the tract")
    ctx.prove(AND(IMPLIES(i == nx - 1, ai.getMaxX() == box.getMaxX()),
                  IMPLIES(j == ny - 1, ai.getMaxY() == box.getMaxY())), "last patches end with the tract")
    pi = a.getIndex()
    ctx.prove(AND(pi[0] == i, pi[1] == j), "patch knows its index")
    d = t.getPatchInnerDimensions()
    ctx.prove(AND(d[0] == dims[0], d[1] == dims[1]), "tract reports the patch size")


def partition(ctx, lib, kind, **p):
    """Two patches share no pixel; a pixel of the tract is in some patch."""
    t, dims, border = make(ctx, lib, kind, p)
    box = t.getBBox()
    nx, ny = t.getNumPatches()
    x, y = ctx.int("x", 0, 10 ** 7), ctx.int("y", 0, 10 ** 7)
    ctx.assume(inbox(box, x, y))
    hits = 0
    for b in range(ctx.fork_value(ny)):
        for a in range(ctx.fork_value(nx)):
            hits = hits + ctx.ite(inbox(t.getPatchInfo((a, b)).getInnerBBox(), x, y), 1, 0)
    ctx.prove(hits == 1, "each pixel of the tract is in exactly one inner region")


def iteration(ctx, lib, kind, **p):
    t, dims, border = make(ctx, lib, kind, p)
    nx, ny = [ctx.fork_value(v) for v in t.getNumPatches()]
    ctx.prove(len(t) == nx * ny, "len is the number of patches")
    got = []
    for q in t:
        got.append(q)
    ctx.prove(len(got) == nx * ny, "iteration yields every patch once")
    idx = set()
    for q in got:
        a, b = q.getIndex()
        idx.add((ctx.fork_value(a), ctx.fork_value(b)))
        ctx.prove(boxes_equal(q.getInnerBBox(), t.getPatchInfo((a, b)).getInnerBBox()), "iterated patch is the indexed one")
    ctx.prove(idx == {(a, b) for a in range(nx) for b in range(ny)}, "iteration covers every index")


GRID = [dict(kind="legacy", dims=[400, 300], grid=[23, 17]), dict(kind="cells", dims=[150], ncell=20, nborder=1, grid=[9, 40]),
        dict(kind="legacy", dims=[40, 30], grid=[101, 3])]
HARNESSES = [
    H("tiling", tiling,
      quick=[dict(kind="legacy", maxn=4), dict(kind="cells", maxn=3),
             dict(kind="legacy", dims=[4000, 4000]), dict(kind="legacy", dims=[1, 7]), dict(kind="legacy", dims=[17, 100]),
             dict(kind="cells", dims=[150], ncell=20, nborder=1), dict(kind="cells", dims=[3], ncell=2, nborder=0)],
      thorough=[dict(kind="legacy", maxn=9, _w=5), dict(kind="cells", maxn=6, maxcell=5, _w=5)] +
               [dict(kind="legacy", dims=d) for d in ([4000, 4000], [1, 7], [17, 100], [1, 1], [2000, 3999], [4096, 64])] +
               [dict(kind="cells", dims=[c], ncell=n, nborder=b) for c in (1, 3, 150) for n in (1, 2, 20)
                for b in (0, 1, 3)],
      need=["patch sits at its index", "last patches end with the tract"],
      bounds="box sides 1..1e6 px at any origin within 1e6; patch sizes symbolic up to 1e5 with <= maxn patches per "
             "axis, or the listed fixed sizes with any number of patches; patch index symbolic"),
    H("partition", partition,
      quick=[dict(kind="legacy", maxn=3), dict(kind="cells", maxn=2)],
      thorough=[dict(kind="legacy", maxn=5), dict(kind="cells", maxn=4)],
      need=["each pixel of the tract is in exactly one inner region"],
      bounds="<= maxn patches per axis, symbolic sizes, symbolic pixel"),
    H("iteration", iteration,
      quick=[dict(kind="legacy", maxn=2), dict(kind="cells", maxn=2, maxcell=1, maxborder=1)] + GRID[:2],
      thorough=[dict(kind="legacy", maxn=4), dict(kind="cells", maxn=3)] + GRID,
      need=["iteration covers every index"], bounds="<= maxn patches per axis, symbolic sizes; or boxes needing exactly the listed grid of patches of the listed size"),
]
