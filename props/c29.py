"""C29: every tract's WCS has the configured scale, projection, rotation and centre."""
import math

from props.common import AND, IMPLIES, NOT, OR
from props.configs import CLASSES, config, flat, make, settings
from symx.harness import H

E = 1e-9


def near(a, b, e=E):
    return AND(a - b <= e, b - a <= e)


def same_pos(a, b):
    d = (a.getLongitude() - b.getLongitude()).wrapCtr().asRadians()
    return AND(near(d, 0.0), near(a.getLatitude().asRadians(), b.getLatitude().asRadians()))


def wcs(ctx, lib, cls, build, count=2, version=None, code="STG", before=False):
    s = settings(ctx, cls, build, "", count)
    if s["projection"] == "STG":
        s["projection"] = code
    with flat():
        if before:
            # what another sky map had must not show
            o = settings(ctx, cls, build, "o", count)
            make(lib, cls, config(lib, cls, build, o))[0].getWcs()
        k = {} if version is None else dict(version=version)
        m = make(lib, cls, config(lib, cls, build, s), **k)
        n = len(m)
        i = ctx.choice("tract", list(range(n)))
        t = m[i]
        for w in (t.getWcs(), t.wcs, t[0, 0].getWcs()):
            cd = w.getCdMatrix()
            ctx.prove(w.projection == s["projection"], "configured projection")
            ctx.prove(near(cd.scale.asArcseconds(), s["pixelScale"], 1e-9 * 50), "configured pixel scale")
            ctx.prove(near(cd.orientation.asDegrees(), s["rotation"], 1e-9 * 360), "configured rotation")
            ctx.prove(not cd.flipX, "standard handedness")
            o = w.getSkyOrigin()
            if cls == "equat":
                ctx.prove(near(o.getLatitude().asRadians(), 0.0), "referenced to the equator")
                d = (o.getLongitude() - t.getCtrCoord().getLongitude()).wrapCtr().asRadians()
                ctx.prove(near(d, 0.0), "referenced to the central right ascension")
            else:
                ctx.prove(same_pos(o, t.getCtrCoord()), "referenced to the tract's centre")


ALL = [dict(cls=c, build=b) for c in CLASSES for b in ("legacy", "cells")]
NEXT = [dict(cls=c, build="legacy", before=True) for c in CLASSES]
HARNESSES = [
    H("wcs", wcs, quick=ALL + NEXT + [dict(cls="rings", build="legacy", version=0), dict(cls="equat", build="legacy", code="CEA")],
      thorough=ALL + NEXT + [dict(cls="rings", build=b, version=0) for b in ("legacy", "cells")] +
      [dict(cls=c, build="legacy", code=k) for c in CLASSES for k in ("CEA", "SIN", "ARC")] +
      [dict(cls="discrete", build="legacy", count=n) for n in (1, 3, 4)],
      need=["configured projection", "configured pixel scale", "configured rotation", "referenced to the tract's centre",
            "referenced to the equator", "referenced to the central right ascension"],
      bounds="all five classes and both patch layouts, any settings, every tract; up to two rings, three equatorial and two listed tracts, HEALPix up to nside 2; alone or after another sky map of the class with any settings",
      fork_mul=False),
]
ASSUMES = ("models/afwgeom.py passes scale, orientation and handedness on as lsst.afw.geom.makeCdMatrix documents them",)
