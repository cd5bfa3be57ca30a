"""C39: tracts, patches and cells tell what they are, by getter and by attribute alike."""
from models import geom
from props.common import AND, AbsPoint, AbsWcs, boxes_equal, intbox_tract, same_places, symbuilder, vertices
from symx.harness import H, outcome


def like(ctx, x, y, what):
    """Equal answers of one kind."""
    if hasattr(x, "getMinX"):
        ok = boxes_equal(x, y)
    elif hasattr(x, "getVertices"):
        ok = same_places(vertices(x), vertices(y)) if ctx.symbolic else x == y
    elif hasattr(x, "asRadians"):
        ok = x.asRadians() == y.asRadians()
    elif hasattr(x, "skyToPixel"):
        a, b = x.getPixelOrigin(), y.getPixelOrigin()
        ok = AND(x is y or (a[0] == b[0]), x is y or (a[1] == b[1]))
    elif isinstance(x, (tuple, geom.Extent2I)) or hasattr(x, "x") and not callable(getattr(x, "x")):
        ok = AND(x[0] == y[0], x[1] == y[1])
    elif isinstance(x, list):
        ok = len(x) == len(y) and all(a is b for a, b in zip(x, y))
    elif isinstance(x, geom.SpherePoint):
        ok = x is y
    else:
        ok = x == y
    ctx.prove(ok, "attribute " + what)


TRACT = dict(getBBox="bbox", getCtrCoord="ctr_coord", getId="tract_id", getNumPatches="num_patches", getPatchBorder="patch_border",
             getPatchInnerDimensions="patch_inner_dimensions", getTractOverlap="tract_overlap", getVertexList="vertex_list",
             getOuterSkyPolygon="outer_sky_polygon", getWcs="wcs")
PATCH = dict(getIndex="index", getSequentialIndex="sequential_index", getWcs="wcs", getInnerBBox="inner_bbox", getOuterBBox="outer_bbox",
             getNumCells="num_cells", getCellBorder="cell_border", getCellInnerDimensions="cell_inner_dimensions",
             getInnerSkyPolygon="inner_sky_polygon", getOuterSkyPolygon="outer_sky_polygon")
CELL = dict(getIndex="index", getSequentialIndex="sequential_index", getWcs="wcs", getInnerBBox="inner_bbox", getOuterBBox="outer_bbox",
            getInnerSkyPolygon="inner_sky_polygon", getOuterSkyPolygon="outer_sky_polygon")


def told(ctx, lib, kind, **p):
    """What is told by getters and attributes, and what was asked for."""
    bld, dims, border, s = symbuilder(lib, ctx, kind, p)
    n = ctx.int("id", 0, 10 ** 6)
    over = ctx.real("overlap", 0.0, 10.0)
    w, h = ctx.int("w", 1, 10 ** 5), ctx.int("h", 1, 10 ** 5)
    most = p.get("maxn", 3)
    ctx.assume(AND(w <= dims[0] * most, h <= dims[1] * most))
    t, wcs, verts = intbox_tract(lib, ctx, bld, w, h, id=n)
    ctr = AbsPoint("ctr")
    # again with an overlap: the vertices' own displacements do not matter here
    if ctx.choice("overlap", [False, True]):
        class Still(AbsPoint):
            def offset(self, bearing, amount):
                return self
        vs = [Still(v.tag) for v in verts]
        t = lib.tractInfo.TractInfo(id=n, tractBuilder=bld, ctrCoord=ctr, vertexCoordList=vs,
                                    tractOverlap=geom.Angle(over, geom.degrees), wcs=wcs)
        d = t.getTractOverlap().asDegrees() - over
        ctx.prove(AND(d <= 1e-9, d >= -1e-9), "the overlap given")
        ctx.prove(t.getCtrCoord() is ctr, "the centre given")
        ctx.prove(all(a is b for a, b in zip(t.getVertexList(), vs)), "the vertices given")
    ctx.prove(t.getId() == n, "the number given")
    ctx.prove(AND(t.getPatchInnerDimensions()[0] == dims[0], t.getPatchInnerDimensions()[1] == dims[1]), "the patch size configured")
    ctx.prove(t.getPatchBorder() == border, "the patch border configured")
    for g, a in TRACT.items():
        like(ctx, getattr(t, g)(), getattr(t, a), a)
    nx, ny = t.getNumPatches()
    nx, ny = ctx.concrete(nx), ctx.concrete(ny)
    i = ctx.choice("patch", sorted({0, nx * ny - 1, nx - 1}))
    q = t.getPatchInfo(i)
    ctx.prove(q.getSequentialIndex() == i, "the patch asked for")
    ctx.prove(AND(q.getIndex()[0] == i % nx, q.getIndex()[1] == i // nx), "the patch asked for")
    ctx.prove(q.getWcs() is t.getWcs(), "a patch has the tract's WCS")
    for g, a in PATCH.items():
        kind1, x = outcome(getattr(q, g))
        kind2, y = outcome(getattr, q, a)
        ctx.prove(kind1 == kind2, "attribute " + a)
        if kind1 == "value":
            like(ctx, x, y, a)
    if kind == "cells":
        ctx.prove(q.getCellBorder() == s["cb"], "the cell border configured")
        ctx.prove(AND(*[d == s["cell"] for d in q.getCellInnerDimensions()]), "the cell size configured")
        num = s["ncell"] + 2 * s["nb"]
        ctx.prove(AND(q.getNumCells()[0] == num, q.getNumCells()[1] == num), "the number of cells configured")
        j = ctx.choice("cell", sorted({0, num - 1, num * num - 1}))
        c = q.getCellInfo(j)
        ctx.prove(c.getSequentialIndex() == j, "the cell asked for")
        ctx.prove(AND(c.getIndex()[0] == j % num, c.getIndex()[1] == j // num), "the cell asked for")
        ctx.prove(c.getWcs() is t.getWcs(), "a cell has the tract's WCS")
        for g, a in CELL.items():
            like(ctx, getattr(c, g)(), getattr(c, a), a)
    else:
        ctx.prove(AND(*[v == 0 for v in q.getNumCells()]), "no cells without a cell layout")


def company(ctx, lib, kind, build, **p):
    """Two tracts, of the same size perhaps: each one's patches and cells tell of it."""
    bld, dims, border, s = symbuilder(lib, ctx, kind, p)
    wcs = AbsWcs(ctx, -1e5, 1e5)
    ts = []
    for k in (0, 1):
        w, h = ctx.int("w%d" % k, 1, 10 ** 5), ctx.int("h%d" % k, 1, 10 ** 5)
        ctx.assume(AND(w <= dims[0] * 2, h <= dims[1] * p.get("rows", 1)))
        if k and build == "other":
            # a builder of its own, with the same settings
            bld = type(bld)(bld.config)
        ts.append(intbox_tract(lib, ctx, bld, w, h, x0=1000 * k, id=k, tag="_%d" % k)[0])
    first, second = ts if ctx.choice("order", [0, 1]) else ts[::-1]
    if ctx.choice("asked", ["ahead", "not"]) == "ahead":
        # the first tract's patches and cells
        for q in first:
            if kind == "cells":
                q.getCellInfo(0)
    t = second
    i = ctx.choice("patch", [0, 1])
    nx, ny = t.getNumPatches()
    if not i < nx * ny:
        return
    q = t.getPatchInfo(i)
    ctx.prove(same_wcs(q.getWcs(), t.getWcs()), "a patch has its own tract's WCS")
    ctx.prove(q.getSequentialIndex() == i, "the patch asked for in company")
    o = q.getInnerBBox()
    nx = ctx.concrete(nx)
    ctx.prove(AND(o.getWidth() == dims[0], o.getHeight() == dims[1], o.getMinX() == (i % nx) * dims[0], o.getMinY() == (i // nx) * dims[1]),
              "a patch has its own place")
    if kind == "cells":
        num = s["ncell"] + 2 * s["nb"]
        j = ctx.choice("cell", sorted({0, num * num - 1}))
        c = q.getCellInfo(j)
        ctx.prove(same_wcs(c.getWcs(), t.getWcs()), "a cell has its own tract's WCS")
        b, cell = c.getInnerBBox(), s["cell"]
        ctx.prove(AND(b.getMinX() == o.getMinX() + (j % num - s["nb"]) * cell, b.getMinY() == o.getMinY() + (j // num - s["nb"]) * cell,
                      b.getWidth() == cell, b.getHeight() == cell), "a cell has its own place")
        ctx.prove(c.getSequentialIndex() == j, "the cell asked for in company")


def same_wcs(a, b):
    """The same object, or the same sky at every pixel."""
    if a is b:
        return True
    return AND(a.getSkyOrigin() is b.getSkyOrigin(), *[u - v <= 1e-9 for u, v in zip(a.getPixelOrigin(), b.getPixelOrigin())],
               *[v - u <= 1e-9 for u, v in zip(a.getPixelOrigin(), b.getPixelOrigin())])


ATTRS = ["attribute " + a for a in sorted(set(TRACT.values()) | set(PATCH.values()))]
HARNESSES = [
    H("told", told, quick=[dict(kind="legacy", maxn=2)] + [dict(kind="cells", ncell=c, nborder=b, maxn=2) for c, b in ((1, 0), (2, 1))],
      thorough=[dict(kind="legacy", maxn=4)] + [dict(kind="cells", ncell=c, nborder=b, maxn=3) for c in (1, 2, 5) for b in (0, 1, 3)],
      need=ATTRS + ["a patch has the tract's WCS", "a cell has the tract's WCS", "the number of cells configured", "the overlap given",
                    "no cells without a cell layout", "the patch asked for", "the cell asked for"],
      bounds="up to two (three or four) patches a side of any size and border; cell layouts as listed, of any cell size and border"),
    H("company", company, quick=[dict(kind="legacy", build=b) for b in ("same", "other")] +
      [dict(kind="cells", build=b, ncell=c, nborder=n) for b in ("same", "other") for c, n in ((2, 1),)],
      thorough=[dict(kind="legacy", build=b, rows=2) for b in ("same", "other")] +
      [dict(kind="cells", build=b, ncell=c, nborder=n, rows=2) for b in ("same", "other") for c, n in ((1, 0), (3, 2))],
      need=["a patch has its own tract's WCS", "a cell has its own tract's WCS", "a patch has its own place", "a cell has its own place"],
      bounds="two tracts of up to two by one (thorough: two) patches, of any size (equal ones too) at different places, with one builder or two of the same settings"),
]
