"""Sky maps of every class with symbolic settings, shared by several properties."""
from props.common import AND, Rose

CLASSES = {"rings": ("ringsSkyMap", "RingsSkyMap"), "discrete": ("discreteSkyMap", "DiscreteSkyMap"),
           "equat": ("equatSkyMap", "EquatSkyMap"), "dodeca": ("dodecaSkyMap", "DodecaSkyMap"),
           "healpix": ("healpixSkyMap", "HealpixSkyMap")}


def flat():
    """Every tract the same small size."""
    return Rose(lambda w: (30.0, 30.0, 30.0, 30.0))


def settings(ctx, cls, build, tag="", count=2):
    """Values for every setting, as a dict; equal dicts mean equal configurations."""
    s = dict(tractOverlap=ctx.real("overlap" + tag, 0.01, 5.0), pixelScale=ctx.real("scale" + tag, 0.01, 50.0),
             projection=ctx.choice("projection" + tag, ["TAN", "STG"]), rotation=ctx.real("rotation" + tag, -180.0, 360.0))
    if build == "legacy":
        s.update(dimx=ctx.int("dimx" + tag, 100, 10 ** 6), dimy=ctx.int("dimy" + tag, 100, 10 ** 6),
                 border=ctx.int("border" + tag, 0, 10 ** 5))
    else:
        s.update(cell=ctx.int("cell" + tag, 100, 10 ** 5), cborder=ctx.int("cborder" + tag, 0, 10 ** 4),
                 ninner=ctx.int("ninner" + tag, 1, 40), nborder=ctx.int("nborder" + tag, 0, 5))
    if cls == "rings":
        s.update(numRings=ctx.choice("rings" + tag, [1, 2]), raStart=ctx.real("raStart" + tag, 0.0, 359.9))
    elif cls == "discrete":
        s.update(count=count)
        for i in range(count):
            s.update({"ra%d" % i: ctx.real("ra%d%s" % (i, tag), 0.0, 359.9), "dec%d" % i: ctx.real("dec%d%s" % (i, tag), -89.0, 89.0),
                      "rad%d" % i: ctx.real("rad%d%s" % (i, tag), 0.01, 5.0)})
    elif cls == "equat":
        s.update(numTracts=ctx.int("tracts" + tag, 1, 3), lo=ctx.real("lo" + tag, -60.0, 0.0), hi=ctx.real("hi" + tag, 0.5, 60.0))
    elif cls == "dodeca":
        s.update(poles=ctx.choice("poles" + tag, [False, True]))
    elif cls == "healpix":
        s.update(log2=ctx.choice("log2" + tag, [0, 1]), nest=ctx.choice("nest" + tag, [False, True]))
    return s


def config(lib, cls, build, s):
    mod, name = CLASSES[cls]
    c = getattr(getattr(lib, mod), name).ConfigClass()
    for k in ("tractOverlap", "pixelScale", "projection", "rotation"):
        setattr(c, k, s[k])
    c.tractBuilder = build
    b = c.tractBuilder[build]
    if build == "legacy":
        b.patchInnerDimensions = [s["dimx"], s["dimy"]]
        b.patchBorder = s["border"]
    else:
        b.cellInnerDimensions = [s["cell"], s["cell"]]
        b.cellBorder, b.numCellsPerPatchInner, b.numCellsInPatchBorder = s["cborder"], s["ninner"], s["nborder"]
    if cls == "rings":
        c.numRings, c.raStart = s["numRings"], s["raStart"]
    elif cls == "discrete":
        n = s["count"]
        c.raList, c.decList, c.radiusList = [[s["%s%d" % (k, i)] for i in range(n)] for k in ("ra", "dec", "rad")]
    elif cls == "equat":
        c.numTracts, c.decRange = s["numTracts"], [s["lo"], s["hi"]]
    elif cls == "dodeca":
        c.withTractsOnPoles = s["poles"]
    elif cls == "healpix":
        c.log2NSide, c.nest = s["log2"], s["nest"]
    return c


def make(lib, cls, c, **k):
    mod, name = CLASSES[cls]
    return getattr(getattr(lib, mod), name)(c, **k)


def same(a, b):
    """All settings equal."""
    if set(a) != set(b):
        return False
    return AND(*[a[k] == b[k] for k in a])
