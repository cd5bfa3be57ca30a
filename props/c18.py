"""C18: an unpickled sky map is the same sky map."""
import copy
import math
import pickle

from props.common import AND, IFF, NOT, boxes_equal
from props.configs import CLASSES, config, flat, make, settings
from symx import core
from symx.harness import H, outcome

E = 1e-9


def near(a, b, e=E):
    return AND(a - b <= e, b - a <= e)


def same_pos(a, b):
    d = (a.getLongitude() - b.getLongitude()).wrapCtr().asRadians()
    return AND(near(d, 0.0), near(a.getLatitude().asRadians(), b.getLatitude().asRadians()))


WAYS = {"pickle0": lambda m: pickle.loads(pickle.dumps(m, 0)), "pickle2": lambda m: pickle.loads(pickle.dumps(m, 2)),
        "pickle": lambda m: pickle.loads(pickle.dumps(m)), "pickle5": lambda m: pickle.loads(pickle.dumps(m, 5)),
        "twice": lambda m: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(m)))),
        "copy": copy.copy, "deepcopy": copy.deepcopy}


def kept(ctx, cls, build, s, c):
    """Every setting of the configuration is the one chosen."""
    b = c.tractBuilder[build]
    ok = [c.tractOverlap == s["tractOverlap"], c.pixelScale == s["pixelScale"], c.projection == s["projection"],
          c.rotation == s["rotation"], c.tractBuilder.name == build]
    if build == "legacy":
        ok += [b.patchInnerDimensions[0] == s["dimx"], b.patchInnerDimensions[1] == s["dimy"], b.patchBorder == s["border"]]
    else:
        ok += [b.cellInnerDimensions[0] == s["cell"], b.cellInnerDimensions[1] == s["cell"], b.cellBorder == s["cborder"],
               b.numCellsPerPatchInner == s["ninner"], b.numCellsInPatchBorder == s["nborder"]]
    if cls == "rings":
        ok += [c.numRings == s["numRings"], c.raStart == s["raStart"]]
    elif cls == "discrete":
        n = s["count"]
        for k, l in (("ra", c.raList), ("dec", c.decList), ("rad", c.radiusList)):
            ok += [len(l) == n] + [l[i] == s["%s%d" % (k, i)] for i in range(n)]
    elif cls == "equat":
        ok += [c.numTracts == s["numTracts"], c.decRange[0] == s["lo"], c.decRange[1] == s["hi"]]
    elif cls == "dodeca":
        ok += [c.withTractsOnPoles == s["poles"]]
    elif cls == "healpix":
        ok += [c.log2NSide == s["log2"], c.nest == s["nest"]]
    return AND(*ok)


def same_tract(ctx, a, b):
    ctx.prove(AND(a.getId() == b.getId(), same_pos(a.getCtrCoord(), b.getCtrCoord())), "tracts are numbered and placed alike")
    p, q = a.getNumPatches(), b.getNumPatches()
    ctx.prove(AND(boxes_equal(a.getBBox(), b.getBBox()), p[0] == q[0], p[1] == q[1],
                  a.getPatchBorder() == b.getPatchBorder(),
                  near(a.getTractOverlap().asRadians(), b.getTractOverlap().asRadians())), "tracts are divided alike")
    v, w = a.getWcs(), b.getWcs()
    ctx.prove(AND(v.projection == w.projection, same_pos(v.getSkyOrigin(), w.getSkyOrigin()),
                  near(v.getCdMatrix().scale.asArcseconds(), w.getCdMatrix().scale.asArcseconds(), 1e-7),
                  near(v.getCdMatrix().orientation.asRadians(), w.getCdMatrix().orientation.asRadians())), "tracts are projected alike")
    u, x = a.getPatchInfo(0), b.getPatchInfo(0)
    ctx.prove(AND(boxes_equal(u.getInnerBBox(), x.getInnerBBox()), boxes_equal(u.getOuterBBox(), x.getOuterBBox())),
              "patches are alike")


def roundtrip(ctx, lib, cls, build, version=None, count=2, ways=("pickle", "copy", "deepcopy"), sample=4):
    s = settings(ctx, cls, build, "", count)
    with flat(), core.storable():
        k = {} if version is None else dict(version=version)
        m = make(lib, cls, config(lib, cls, build, s), **k)
        n = len(m)
        used = ctx.choice("used", [False, True])
        if used:
            m.getSha1()
            for i in range(min(n, 2)):
                m[i].getId()
        w = ctx.choice("way", list(ways))
        r = WAYS[w](m)
        ctx.prove(type(r) is type(m), "same class")
        ctx.prove(len(r) == n, "same number of tracts")
        ctx.prove(kept(ctx, cls, build, s, r.config), "same configuration")
        ctx.prove(AND(r == m, m == r, r.getSha1() == m.getSha1()), "equal to the original")
        ctx.prove(hash(r) == hash(m), "same hash")
        if hasattr(m, "getVersion"):
            ctx.prove(r.getVersion() == m.getVersion(), "same version")
        if cls == "rings":
            for i in range(n):
                ctx.prove(AND(*[a == b for a, b in zip(r.getRingIndices(i), m.getRingIndices(i))]), "same ring indices")
                ctx.prove(AND(*[near(a.asRadians(), b.asRadians()) for a, b in zip(r.getRaDecRange(i), m.getRaDecRange(i))]),
                          "same ranges")
        if n:
            i = ctx.choice("tract", sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))[:sample])
            same_tract(ctx, m[i], r[i])


def future(ctx, lib, cls):
    """States of a later major version are refused, others accepted."""
    s = settings(ctx, cls, "legacy")
    with flat():
        m = make(lib, cls, config(lib, cls, "legacy", s))
        state = dict(m.__getstate__())
        ctx.prove(tuple(state["version"]) == tuple(m.getVersion()), "the state tells the version")
        v = (ctx.int("major", 0, 9), ctx.int("minor", 0, 9))
        state["version"] = v
        r = type(m).__new__(type(m))
        kind, e = outcome(r.__setstate__, state)
        ctx.prove(IFF(v[0] >= 2, kind == "raise"), "only later major versions are refused")
        if kind == "raise":
            ctx.prove(isinstance(e, RuntimeError), "refused with RuntimeError")
        else:
            ctx.prove(r == m, "an accepted state gives the same sky map")


ALL = [dict(cls=c, build=b) for c in CLASSES for b in ("legacy", "cells")]
HARNESSES = [
    H("roundtrip", roundtrip, quick=ALL + [dict(cls="rings", build=b, version=0) for b in ("legacy", "cells")] +
      [dict(cls="discrete", build="legacy", count=c) for c in (0, 1, 3)] + [dict(cls="healpix", build="legacy", version=1)] +
      [dict(cls="discrete", build="legacy", count=40, ways=["pickle"], sample=2)],
      thorough=[dict(sample=5, ways=list(WAYS), **a) for a in ALL] +
      [dict(cls="rings", build=b, version=0, ways=list(WAYS)) for b in ("legacy", "cells")] +
      [dict(cls="discrete", build="legacy", count=c, version=v) for c in (0, 1, 3, 4) for v in (0, 1)] +
      [dict(cls="healpix", build="legacy", version=1)],
      need=["same configuration", "same ring indices", "tracts are numbered and placed alike", "same version"],
      bounds="all five classes and both patch layouts, any settings, both numberings of ring sky maps; up to two rings, three "
             "equatorial and three (or 40) listed tracts, HEALPix up to nside 2; pickled, copied and deep-copied, before and after use",
      fork_mul=False),
    H("future", future, quick=[dict(cls=c) for c in ("equat", "dodeca")],
      need=["only later major versions are refused", "an accepted state gives the same sky map"],
      bounds="versions (0, 0) to (9, 9)", fork_mul=False),
]
ASSUMES = ("pex_config writes and reads back numbers exactly (floats by their shortest decimal form); the real pickle and pex_config run, "
           "symbolic numbers being carried past the text by reference",)
