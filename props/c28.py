"""C28: configuration short-cuts, validation and freezing."""
from props.common import AND, IFF, NOT, OR
from props.configs import CLASSES, config, flat, make, settings
from symx.harness import H, outcome


def cfgclass(lib, cls):
    mod, name = CLASSES[cls]
    return getattr(getattr(lib, mod), name).ConfigClass


def shortcuts(ctx, lib, cls):
    """The short-cuts are the legacy builder's settings."""
    C = cfgclass(lib, cls)
    x, y, b = ctx.int("x", 1, 10 ** 6), ctx.int("y", 1, 10 ** 6), ctx.int("b", 0, 10 ** 6)
    u, v, d = ctx.int("u", 1, 10 ** 6), ctx.int("v", 1, 10 ** 6), ctx.int("d", 0, 10 ** 6)
    c = C()
    cells = c.tractBuilder["cells"]
    before = (list(cells.cellInnerDimensions), cells.cellBorder, cells.numCellsPerPatchInner, cells.numCellsInPatchBorder)
    how = ctx.choice("set", ["property", "method", "builder"])
    if how == "property":
        c.patchInnerDimensions, c.patchBorder = [x, y], b
    elif how == "method":
        c.setPatchInnerDimensions([x, y])
        c.setPatchBorder(b)
    else:
        c.tractBuilder["legacy"].patchInnerDimensions, c.tractBuilder["legacy"].patchBorder = [x, y], b
    if ctx.choice("builder", ["legacy", "cells"]) == "cells":
        c.tractBuilder = "cells"
    other = C()
    other.patchInnerDimensions, other.patchBorder = [u, v], d
    for dims, border in ((c.patchInnerDimensions, c.patchBorder), (c.getPatchInnerDimensions(), c.getPatchBorder()),
                         (c.tractBuilder["legacy"].patchInnerDimensions, c.tractBuilder["legacy"].patchBorder)):
        ctx.prove(AND(len(dims) == 2, dims[0] == x, dims[1] == y), "patch dimensions read back through every way")
        ctx.prove(border == b, "border read back through every way")
    ctx.prove((list(cells.cellInnerDimensions), cells.cellBorder, cells.numCellsPerPatchInner, cells.numCellsInPatchBorder) == before,
              "the cell layout is untouched")


def cellshape(ctx, lib, cls):
    """A cell layout is accepted exactly when its cells are square."""
    C = cfgclass(lib, cls) if cls else lib.tractBuilder.CellTractBuilder.ConfigClass
    c = C()
    x, y = ctx.int("x", 1, 10 ** 6), ctx.int("y", 1, 10 ** 6)
    if cls == "rings":
        c.numRings = 3
    if cls:
        c.tractBuilder = "cells"
        c.tractBuilder["cells"].cellInnerDimensions = [x, y]
    else:
        c.cellInnerDimensions = [x, y]
    k, e = outcome(c.validate)
    ctx.prove(IFF(k == "value", x == y), "accepted exactly when square")
    if k == "raise":
        ctx.prove(isinstance(e, ValueError), "refused with ValueError")


def lengths(ctx, lib, n):
    """Dimensions that are not two numbers are refused."""
    for kind in ("legacy", "cells"):
        c = (lib.tractBuilder.LegacyTractBuilder if kind == "legacy" else lib.tractBuilder.CellTractBuilder).ConfigClass()
        d = [ctx.int("%s%d" % (kind[0], 0), 1, 10 ** 5)] * n

        def go():
            if kind == "legacy":
                c.patchInnerDimensions = d
            else:
                c.cellInnerDimensions = d
            c.validate()
        k, e = outcome(go)
        ctx.prove((k == "value") == (n == 2), "two dimensions are wanted")


def ringcheck(ctx, lib):
    c = lib.ringsSkyMap.RingsSkyMapConfig()
    n, ra = ctx.int("n", -1000, 1000), ctx.real("ra", -1000.0, 1000.0)

    def go():
        c.numRings = n
        c.raStart = ra
        c.validate()
    k, e = outcome(go)
    ctx.prove(IFF(k == "value", AND(n > 0, ra >= 0, ra < 360)), "accepted exactly for rings and right ascensions that exist")
    if k == "raise":
        ctx.prove(isinstance(e, ValueError), "refused with ValueError")


def setl(l, i, v):
    l[i] = v


def frozen(ctx, lib, cls, build):
    """No setting can be changed once the sky map exists."""
    s = settings(ctx, cls, build)
    with flat():
        c = config(lib, cls, build, s)
        m = make(lib, cls, c)
        d = m.getSha1() if ctx.choice("digest", [True, False]) else None
        x, v = ctx.int("x", 1, 10 ** 6), ctx.real("v", 0.0, 300.0)
        leg, cel = c.tractBuilder["legacy"], c.tractBuilder["cells"]
        tries = [lambda k=k: setattr(c, k, v) for k in ("tractOverlap", "pixelScale", "rotation")] + [
            lambda: setattr(c, "projection", "CEA"), lambda: setattr(c, "patchBorder", x), lambda: setattr(c, "patchInnerDimensions", [x, x]),
            lambda: c.setPatchBorder(x), lambda: c.setPatchInnerDimensions([x, x]),
            lambda: setattr(c, "tractBuilder", "cells"), lambda: setattr(c, "tractBuilder", "legacy"),
            lambda: setattr(c.tractBuilder, "name", "cells"), lambda: setattr(leg, "patchBorder", x),
            lambda: setattr(leg, "patchInnerDimensions", [x, x]), lambda: setl(leg.patchInnerDimensions, 0, x),
            lambda: setattr(cel, "cellBorder", x), lambda: setattr(cel, "cellInnerDimensions", [x, x]),
            lambda: setl(cel.cellInnerDimensions, 1, x), lambda: setattr(cel, "numCellsPerPatchInner", x),
            lambda: setattr(cel, "numCellsInPatchBorder", x)]
        tries += {"rings": [lambda: setattr(c, "numRings", x), lambda: setattr(c, "raStart", v)],
                  "discrete": [lambda: setattr(c, "raList", [v]), lambda: setl(c.raList, 0, v), lambda: c.decList.append(v),
                               lambda: setl(c.radiusList, 0, v)],
                  "equat": [lambda: setattr(c, "numTracts", x), lambda: setattr(c, "decRange", [v, v]), lambda: setl(c.decRange, 0, v)],
                  "dodeca": [lambda: setattr(c, "withTractsOnPoles", True)],
                  "healpix": [lambda: setattr(c, "log2NSide", x), lambda: setattr(c, "nest", True)]}[cls]
        for f in tries:
            k, e = outcome(f)
            ctx.prove(k == "raise", "a change of setting is refused")
        twin = make(lib, cls, config(lib, cls, build, s))
        ctx.prove(AND(m == twin, len(m) == len(twin)), "the sky map stays the same")
        if d is not None:
            ctx.prove(m.getSha1() == d, "the digest stays the same")


def default(ctx, lib, cls):
    """A sky map made without configuration has the default one, frozen."""
    mod, name = CLASSES[cls]
    with flat():
        m = getattr(getattr(lib, mod), name)()
        C = cfgclass(lib, cls)
        ctx.prove(type(m.config) is C, "default configuration of its class")
        k, e = outcome(lambda: setattr(m.config, "tractOverlap", ctx.real("v", 0.0, 9.0)))
        ctx.prove(k == "raise", "a change of setting is refused")
        ctx.prove(m == make(lib, cls, C()), "the same as with the default configuration given")


HARNESSES = [
    H("shortcuts", shortcuts, quick=[dict(cls=c) for c in CLASSES],
      need=["patch dimensions read back through every way", "border read back through every way"],
      bounds="any dimensions and border, every class, set in every way"),
    H("cellshape", cellshape, quick=[dict(cls=c) for c in (None,) + tuple(CLASSES)],
      need=["accepted exactly when square"], bounds="cell dimensions of 1 to 1e6 pixels"),
    H("lengths", lengths, quick=[dict(n=n) for n in (0, 1, 2, 3)], need=["two dimensions are wanted"], bounds="up to three dimensions"),
    H("ringcheck", ringcheck, quick=[dict()], need=["accepted exactly for rings and right ascensions that exist"],
      bounds="ring counts and starting right ascensions between -1000 and 1000"),
    H("frozen", frozen, quick=[dict(cls=c, build=b) for c in CLASSES for b in ("legacy", "cells")],
      need=["a change of setting is refused", "the sky map stays the same", "the digest stays the same"],
      bounds="every setting of every class, any values", fork_mul=False),
    H("default", default, quick=[dict(cls=c) for c in ("equat", "dodeca")], need=["default configuration of its class"],
      bounds="the classes whose configuration is optional", fork_mul=False),
]
ASSUMES = ("the installed pex_config runs; its fields take symbolic numbers as they take numbers",)
