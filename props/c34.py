"""C34: sky maps and layouts made by name from the registries are those made directly."""
from props.configs import CLASSES, config, flat, make, same, settings
from props.common import AND, IFF
from symx.harness import H, outcome


def byname(ctx, lib, cls, build, how):
    """A sky map chosen by name in a configuration."""
    from lsst.pex.config import Config
    reg = lib.skyMapRegistry.skyMapRegistry
    s = settings(ctx, cls, build, "")
    mod, name = CLASSES[cls]
    klass = getattr(getattr(lib, mod), name)
    with flat():
        direct = make(lib, cls, config(lib, cls, build, s))
        ctx.prove(cls in reg and reg[cls] is not None, "every class is registered under its name")
        if how == "registry":
            m = reg[cls](config(lib, cls, build, s))
        else:
            class C(Config):
                skyMap = reg.makeField(doc="sky map", default=cls)
            c = C()
            # the field is filled in as a user does
            fill(c.skyMap[cls], cls, build, s)
            m = c.skyMap.apply()
        ctx.prove(type(m) is klass, "the class registered under the name")
        ctx.prove(m == direct, "equal to the sky map made directly")
        ctx.prove(m.getSha1() == direct.getSha1(), "equal to the sky map made directly")
        ctx.prove(len(m) == len(direct), "with as many tracts")


def fill(c, cls, build, s):
    for k in ("tractOverlap", "pixelScale", "projection", "rotation"):
        setattr(c, k, s[k])
    c.tractBuilder = build
    b = c.tractBuilder[build]
    if build == "legacy":
        b.patchInnerDimensions, b.patchBorder = [s["dimx"], s["dimy"]], s["border"]
    else:
        b.cellInnerDimensions = [s["cell"], s["cell"]]
        b.cellBorder, b.numCellsPerPatchInner, b.numCellsInPatchBorder = s["cborder"], s["ninner"], s["nborder"]
    if cls == "rings":
        c.numRings, c.raStart = s["numRings"], s["raStart"]
    elif cls == "discrete":
        n = s["count"]
        c.raList, c.decList, c.radiusList = [[s["%s%d" % (k, i)] for i in range(n)] for k in ("ra", "dec", "rad")]
    elif cls == "equat":
        c.numTracts, c.decRange = s["numTracts"], [s["lo"], s["hi"]]
    elif cls == "dodeca":
        c.withTractsOnPoles = s["poles"]
    elif cls == "healpix":
        c.log2NSide, c.nest = s["log2"], s["nest"]


def layout(ctx, lib, build):
    """The layout chosen by name is the one used, whatever the other one's settings are."""
    s = settings(ctx, "discrete", build, "", 1)
    other = settings(ctx, "discrete", "cells" if build == "legacy" else "legacy", "_o", 1)
    c = config(lib, "discrete", build, s)
    o = c.tractBuilder["cells" if build == "legacy" else "legacy"]
    if build == "legacy":
        o.cellInnerDimensions = [other["cell"], other["cell"]]
        o.cellBorder, o.numCellsPerPatchInner, o.numCellsInPatchBorder = other["cborder"], other["ninner"], other["nborder"]
    else:
        o.patchInnerDimensions, o.patchBorder = [other["dimx"], other["dimy"]], other["border"]
    with flat():
        m = make(lib, "discrete", c)
        plain = make(lib, "discrete", config(lib, "discrete", build, s))
        t = m[0]
        d = t.getPatchInnerDimensions()
        if build == "legacy":
            ctx.prove(AND(d[0] == s["dimx"], d[1] == s["dimy"], t.getPatchBorder() == s["border"]), "the chosen layout is used")
        else:
            n = s["cell"] * s["ninner"]
            ctx.prove(AND(d[0] == n, d[1] == n, t.getPatchBorder() == s["cell"] * s["nborder"] + s["cborder"]), "the chosen layout is used")
        ctx.prove(m == plain, "the other layout's settings do not matter")


def defaults(ctx, lib):
    """What an untouched configuration chooses."""
    for cls, (mod, name) in CLASSES.items():
        c = getattr(getattr(lib, mod), name).ConfigClass()
        ctx.prove(c.tractBuilder.name == "legacy", "patches are laid out without cells unless asked")
    kind, v = outcome(lambda: lib.skyMapRegistry.skyMapRegistry["nothing"])
    ctx.prove(kind == "raise" and isinstance(v, KeyError), "an unknown name is a KeyError")
    ctx.prove(ctx.int("any", 0, 1) >= 0, "patches are laid out without cells unless asked")


QUICK = [dict(cls=c, build=b, how=h) for c in CLASSES for b in ("legacy", "cells") for h in ("registry", "field")]
HARNESSES = [
    H("byname", byname, quick=QUICK, fork_mul=False,
      need=["the class registered under the name", "equal to the sky map made directly", "with as many tracts"],
      bounds="any settings within the ranges of props/configs.py, for every class and both layouts"),
    H("layout", layout, quick=[dict(build=b) for b in ("legacy", "cells")], fork_mul=False,
      need=["the chosen layout is used", "the other layout's settings do not matter"], bounds="any settings of both layouts"),
    H("defaults", defaults, quick=[dict()], need=["patches are laid out without cells unless asked", "an unknown name is a KeyError"],
      bounds="the default configuration of every class"),
]
ASSUMES = ("different messages have different SHA-1 digests",)
