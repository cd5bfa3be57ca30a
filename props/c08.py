"""C08: the patches found for a list of positions."""
from props.common import AND, NOT, OR, AbsPoint, inbox, intbox_tract, pix, pixreal, symbuilder
from symx.harness import H


def search(ctx, lib, kind, npt, maxn=2, nx=None, ny=None, fail=(), span=10 ** 6, slack=0.4999, more=(0, 0), **p):
    """more: how many further positions, all in one place, come before and after."""
    bld, dims, border, _ = symbuilder(lib, ctx, kind, p)
    nx = nx or ctx.fork_value(ctx.int("nx", 1, maxn))
    ny = ny or ctx.fork_value(ctx.int("ny", 1, maxn))
    t, wcs, _ = intbox_tract(lib, ctx, bld, dims[0] * nx, dims[1] * ny)
    pts, pos = [], []
    if sum(more):
        fixed = pixreal(ctx, "qx", -span, span, slack), pixreal(ctx, "qy", -span, span, slack)
        pos.append((pix(fixed[0]), pix(fixed[1])))

    def others(tag, n):
        for k in range(n):
            q = AbsPoint("%s%d" % (tag, k))
            wcs.fixed[q.tag] = fixed
            pts.append(q)
    others("a", more[0])
    for k in range(npt):
        q = AbsPoint("p%d" % k)
        if k in fail:
            wcs.fixed[q.tag] = (lib.pexexc.DomainError if k % 2 else lib.pexexc.RuntimeError)("off the projection")
        else:
            wcs.fixed[q.tag] = (pixreal(ctx, "px%d" % k, -span, span, slack), pixreal(ctx, "py%d" % k, -span, span, slack))
            a = t.getWcs().skyToPixel(q)
            pos.append((pix(a[0]), pix(a[1])))
        pts.append(q)
    others("b", more[1])
    given = list(pts)
    got = t.findPatchList(pts)
    ctx.prove(len(pts) == len(given) and all(a is b for a, b in zip(pts, given)), "the list is left as it was")
    found = {}
    for q in got:
        i = q.getIndex()
        i = (ctx.fork_value(i[0]), ctx.fork_value(i[1]))
        found[i] = found.get(i, 0) + 1
    ctx.prove(all(n == 1 for n in found.values()), "no patch is listed twice")
    if not pos:
        ctx.prove(len(got) == 0, "nothing without pixel positions")
        return
    lo, hi = [None, None], [None, None]
    for a in pos:
        for d in range(2):
            lo[d] = a[d] if lo[d] is None else ctx.ite(a[d] < lo[d], a[d], lo[d])
            hi[d] = a[d] if hi[d] is None else ctx.ite(a[d] > hi[d], a[d], hi[d])
    b = t.getPatchBorder()
    box = t.getBBox()
    meets = AND(lo[0] - b <= box.getMaxX(), hi[0] + b >= box.getMinX(), lo[1] - b <= box.getMaxY(), hi[1] + b >= box.getMinY())
    ctx.prove(meets == (len(got) > 0), "empty exactly when the grown box misses the tract")
    for i in range(nx):
        for j in range(ny):
            q = t.getPatchInfo((i, j))
            a = q.getInnerBBox()
            # the clipped, grown box meets the inner region
            hit = AND(lo[0] - b <= a.getMaxX(), hi[0] + b >= a.getMinX(), lo[1] - b <= a.getMaxY(), hi[1] + b >= a.getMinY())
            ctx.prove(hit == ((i, j) in found), "listed exactly when the grown box touches it")
            o = q.getOuterBBox()
            for x, y in pos:
                if (i, j) not in found:
                    ctx.prove(NOT(inbox(o, x, y)), "a patch whose outer region holds a pixel is listed")


LONG = [dict(kind="legacy", npt=1, nx=2, ny=2, dims=[100, 37], border=10, slack=0, more=[a, b]) for a, b in ((40, 0), (0, 40), (13, 87))] + [
    dict(kind="legacy", npt=1, nx=60, ny=1, dims=[100, 37], border=10), dict(kind="legacy", npt=1, nx=1, ny=60, dims=[100, 37], border=10)]
HARNESSES = [
    H("search", search,
      quick=[dict(kind="legacy", npt=1, maxn=3), dict(kind="legacy", npt=2, maxn=2, _w=3),
             dict(kind="legacy", npt=2, nx=3, ny=2, dims=[100, 37], border=10), dict(kind="legacy", npt=1, nx=7, ny=5, dims=[4000, 4000], border=100),
             dict(kind="legacy", npt=3, nx=2, ny=3, dims=[100, 37], border=10, slack=0),
             dict(kind="cells", npt=2, nx=2, ny=2, dims=[150], ncell=2, nborder=1),
             dict(kind="legacy", npt=2, maxn=2, fail=[0]), dict(kind="legacy", npt=2, maxn=2, fail=[0, 1]),
             dict(kind="legacy", npt=2, maxn=2, fail=[1]), dict(kind="legacy", npt=0, maxn=2),
             dict(kind="legacy", npt=3, nx=2, ny=2, dims=[100, 37], border=10, fail=[1])] + LONG,
      thorough=[dict(kind="legacy", npt=1, maxn=6), dict(kind="legacy", npt=2, maxn=3, _w=9), dict(kind="legacy", npt=3, maxn=2, _w=9),
                dict(kind="legacy", npt=3, nx=4, ny=3, dims=[100, 37], _w=9), dict(kind="cells", npt=2, maxn=3, _w=9),
                dict(kind="legacy", npt=1, nx=12, ny=9, dims=[4000, 4000], border=100),
                dict(kind="legacy", npt=2, maxn=2, fail=[0]), dict(kind="legacy", npt=2, maxn=2, fail=[0, 1]),
                dict(kind="legacy", npt=3, maxn=2, fail=[0, 2]), dict(kind="legacy", npt=0, maxn=2)] + LONG,
      need=["listed exactly when the grown box touches it", "empty exactly when the grown box misses the tract",
            "a patch whose outer region holds a pixel is listed", "nothing without pixel positions"],
      bounds="0..3 positions anywhere within 1e6 px, or one in a list of 41 or 101 whose others share any other place; tracts of up to maxn by maxn patches of symbolic size and border, or as listed"),
]
ASSUMES = ("pixel positions within 1e-4 pixel of the edge between two pixels are left out",)
