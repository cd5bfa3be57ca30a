"""C03: a patch's outer region."""
from props.common import AND, IMPLIES, inbox, intbox_tract, symbuilder   # noqa: F401
from symx.harness import H
from props.c01 import make


def outer(ctx, lib, kind, **p):
    t, dims, border = make(ctx, lib, kind, p)
    box = t.getBBox()
    nx, ny = t.getNumPatches()
    i, j = ctx.int("i", 0, 10 ** 6), ctx.int("j", 0, 10 ** 6)
    ctx.assume(AND(i < nx, j < ny))
    ctx.prove(t.getPatchBorder() == border, "tract reports the border")
    q = t.getPatchInfo((i, j))
    a, o = q.getInnerBBox(), q.getOuterBBox()
    want = [a.getMinX() - border, a.getMinY() - border, a.getMaxX() + border, a.getMaxY() + border]
    if kind == "legacy":
        lim = [box.getMinX(), box.getMinY(), box.getMaxX(), box.getMaxY()]
        for k in range(4):
            out = (want[k] < lim[k]) if k < 2 else (want[k] > lim[k])
            want[k] = ctx.ite(out, lim[k], want[k])
        ctx.prove(AND(o.getMinX() >= box.getMinX(), o.getMinY() >= box.getMinY(), o.getMaxX() <= box.getMaxX(),
                      o.getMaxY() <= box.getMaxY()), "outer region inside the tract")
    got = [o.getMinX(), o.getMinY(), o.getMaxX(), o.getMaxY()]
    for k, name in enumerate(("low x", "low y", "high x", "high y")):
        ctx.prove(got[k] == want[k], "outer region: " + name)
    ctx.prove(AND(o.getMinX() <= a.getMinX(), o.getMaxX() >= a.getMaxX(), o.getMinY() <= a.getMinY(),
                  o.getMaxY() >= a.getMaxY()), "outer region contains the inner one")
    o2 = q.outer_bbox
    ctx.prove(AND(o2.getMinX() == got[0], o2.getMaxY() == got[3]), "property agrees with the method")


HARNESSES = [
    H("outer", outer,
      quick=[dict(kind="legacy", maxn=4), dict(kind="cells", maxn=3)] +
            [dict(kind="legacy", dims=d) for d in ([4000, 4000], [1, 7], [17, 100])] +
            [dict(kind="legacy", dims=[100, 30], border=b) for b in (0, 1, 100)] +
            [dict(kind="cells", dims=[150], ncell=20, nborder=1), dict(kind="cells", dims=[3], ncell=2, nborder=0)],
      thorough=[dict(kind="legacy", maxn=10, _w=9), dict(kind="cells", maxn=6, maxcell=5, maxborder=4, _w=9)] +
               [dict(kind="legacy", dims=d) for d in ([4000, 4000], [1, 7], [17, 100], [1, 1], [2000, 3999], [4096, 64])] +
               [dict(kind="cells", dims=[c], ncell=n, nborder=b) for c in (1, 3, 150) for n in (1, 2, 20)
                for b in (0, 1, 3)],
      need=["outer region: low x", "outer region: high y", "outer region inside the tract"],
      bounds="tract sides 1..1e6 px, borders 0..1e5, patch index symbolic; patch sizes symbolic with <= maxn patches per axis, "
             "or the listed sizes with any number of patches"),
]
