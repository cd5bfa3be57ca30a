"""C09: a tract is the same whatever other tracts were made before or after."""
from props.common import AND, AbsPoint, Rose, boxes_equal, pixreal
from symx import shim as S
from symx.harness import H, outcome


def config(lib, cls, kind, dims, border, n, **p):
    if cls == "discrete":
        c = lib.discreteSkyMap.DiscreteSkyMapConfig()
        c.raList = [10.0 * k for k in range(n)]
        c.decList = [-5.0 + 3 * k for k in range(n)]
        c.radiusList = [1.0 + k for k in range(n)]
        make = lib.discreteSkyMap.DiscreteSkyMap
    elif cls == "rings":
        c = lib.ringsSkyMap.RingsSkyMapConfig()
        c.numRings = 1
        make = lib.ringsSkyMap.RingsSkyMap
    elif cls == "equat":
        c = lib.equatSkyMap.EquatSkyMapConfig()
        c.numTracts = n
        make = lib.equatSkyMap.EquatSkyMap
    c.tractBuilder.name = kind
    b = c.tractBuilder[kind]
    if kind == "legacy":
        b.patchInnerDimensions = list(dims)
        b.patchBorder = border
    else:
        b.cellInnerDimensions = [dims[0], dims[0]]
        b.cellBorder = border
        b.numCellsPerPatchInner = 2
        b.numCellsInPatchBorder = 1
    return make(c)


def same_patch(p, q):
    return AND(boxes_equal(p.getInnerBBox(), q.getInnerBBox()), boxes_equal(p.getOuterBBox(), q.getOuterBBox()),
               p.getIndex()[0] == q.getIndex()[0], p.getIndex()[1] == q.getIndex()[1],
               p.getSequentialIndex() == q.getSequentialIndex())


def history(ctx, lib, cls, kind, dims, border=None, n=3, maxn=3, who=0, use="index", **p):
    if border is None:
        border = ctx.int("border", 0, 1000)
    per = dims[0] * (2 if kind == "cells" else 1), dims[-1] * (2 if kind == "cells" else 1)
    keys = {}

    def size(wcs):
        c = wcs.getSkyOrigin()
        k = keys.setdefault((round(c.getLongitude().asDegrees(), 6), round(c.getLatitude().asDegrees(), 6)), len(keys))
        e = ctx.int("e%d" % k, 0, per[0] * maxn - 2)
        # with three tracts only the first varies in both directions
        m = ctx.int("n%d" % k, 0, per[1] * maxn - 2) if k == 0 or n < 3 else (per[1] * (maxn - 1) if k == 1 else 3)
        return 1.25, 1.25, e + 0.25, m + 0.25
    q = AbsPoint("q")
    lim = 4 * max(per) * maxn
    with Rose(size, {"q": (pixreal(ctx, "qx", -lim, lim, 0), pixreal(ctx, "qy", -lim, lim, 0))}):
        alone = config(lib, cls, kind, dims, border, n)
        total = len(alone)
        who = who % total
        ref = alone[who]
        # another sky map, with other tracts made before and after this one
        other = config(lib, cls, kind, dims, border, n)
        rest = [i for i in range(total) if i != who][:2]
        orders = [rest[:k] + [who] + rest[k:] for k in range(len(rest) + 1)]
        order = ctx.choice("order", orders)
        early = None
        for i in order:
            t = other[i]
            if i == who:
                early = outcome(t.getPatchInfo, (0, 0))
            else:
                outcome(t.getPatchInfo, (0, 0))
        t = other[who]
        ctx.prove(AND(boxes_equal(t.getBBox(), ref.getBBox()), t.getNumPatches()[0] == ref.getNumPatches()[0],
                      t.getNumPatches()[1] == ref.getNumPatches()[1]), "same box and patch count")
        a, b = t.getWcs().skyToPixel(q), ref.getWcs().skyToPixel(q)
        ctx.prove(AND(a[0] == b[0], a[1] == b[1]), "same pixel positions")
        ctx.prove(early[0] == "value" and same_patch(early[1], t.getPatchInfo((0, 0))), "an earlier patch is still right")
        if use == "index":
            by_index(ctx, t, ref, maxn)
        else:
            by_position(ctx, t, ref, q)


def by_index(ctx, t, ref, maxn):
    i, j = ctx.int("i", 0, maxn - 1), ctx.int("j", 0, maxn - 1)
    k, v = outcome(ref.getPatchInfo, (i, j))
    k2, v2 = outcome(t.getPatchInfo, (i, j))
    ctx.prove(k == k2 and (k == "value" or type(v) is type(v2)), "same patches exist")
    if k == "value":
        ctx.prove(same_patch(v, v2), "same patch")
        s = ref.getSequentialPatchIndexFromPair((i, j))
        ctx.prove(t.getSequentialPatchIndexFromPair((i, j)) == s, "same sequential index")
        ctx.prove(same_patch(t.getPatchInfo(s), v), "same patch by sequential index")
    ctx.prove(len(list(iter(t))) == len(list(iter(ref))), "same number of patches iterated")


def by_position(ctx, t, ref, q):
    k, v = outcome(ref.findPatch, q)
    k2, v2 = outcome(t.findPatch, q)
    ctx.prove(k == k2 and (same_patch(v, v2) if k == "value" else type(v) is type(v2)), "same patch found")
    v, v2 = ref.findPatchList([q]), t.findPatchList([q])
    ctx.prove(len(v) == len(v2) and AND(*[same_patch(x, y) for x, y in zip(v, v2)]), "same patches found")


HARNESSES = [
    H("history", history,
      quick=[dict(cls="discrete", kind="legacy", dims=[100, 37], border=b, n=n, maxn=2, who=w, use=u)
             for n, w in ((2, 0), (2, 1), (3, 1)) for b, u in ((0, "index"), (30, "position"))] +
            [dict(cls="rings", kind="legacy", dims=[100, 37], border=30, maxn=2, who=w, use=u)
             for w, u in ((0, "index"), (2, "position"), (4, "index"))] +
            [dict(cls="equat", kind="cells", dims=[50], border=10, n=2, maxn=2, who=1)],
      thorough=[dict(cls=c, kind=k, dims=[100, 37], n=3, maxn=3, border=30, who=w, use=u)
                for c in ("discrete", "rings", "equat") for k in ("legacy", "cells") for w in (0, 1, 2)
                for u in ("index", "position")],
      need=["same patch", "same patch found", "an earlier patch is still right"],
      bounds="three tracts of independent symbolic sizes of up to maxn patches a side, (of three, two vary in one direction only), one of them observed, made first, last or between the others"),
]
