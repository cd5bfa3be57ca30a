"""C31: a sky map's digest is that of its recorded definition, release after release."""
import hashlib
import struct

from props.configs import CLASSES, config, flat, make, settings
from symx import shim
from symx.harness import H


def definition(s, cls, build, pack):
    """The bytes a sky map has always been identified by."""
    name = CLASSES[cls][1].encode()
    if build == "legacy":
        lay = pack("<3i", s["dimx"], s["dimy"], s["border"])
    else:
        lay = pack("<5i", s["cell"], s["cell"], s["cborder"], s["ninner"], s["nborder"])
    common = pack("<2d3sd", s["tractOverlap"], s["pixelScale"], s["projection"].encode(), s["rotation"])
    if cls == "rings":
        own = [pack("<i", s["numRings"]), pack("<d", s["raStart"])]
    elif cls == "discrete":
        own = [pack("<d", s["%s%d" % (k, i)]) for k in ("ra", "dec", "rad") for i in range(s["count"])]
    elif cls == "equat":
        own = [pack("<i", s["numTracts"]), pack("<2d", s["lo"], s["hi"])]
    elif cls == "dodeca":
        own = [pack("<?", s["poles"])]
    else:
        own = [pack("<i", s["log2"]), pack("<?", s["nest"])]
    return [name, lay, common] + own


def digest(ctx, lib, cls, build, count=2):
    s = settings(ctx, cls, build, "", count)
    with flat():
        m = make(lib, cls, config(lib, cls, build, s))
        got = m.getSha1()
        pack, h = (shim.s_pack, shim.SymHash("sha1")) if ctx.symbolic else (struct.pack, hashlib.sha1())
        for part in definition(s, cls, build, pack):
            h.update(part)
        ctx.prove(got == h.digest(), "the digest is that of the definition")
        ctx.prove(m.getSha1() == got, "the digest stays the same")


QUICK = [dict(cls=c, build=b) for c in CLASSES for b in ("legacy", "cells")] + [
    dict(cls="discrete", build="legacy", count=n) for n in (0, 1, 4, 40, 200)]
HARNESSES = [
    H("digest", digest, quick=QUICK, thorough=QUICK + [dict(cls="discrete", build=b, count=n) for b in ("legacy", "cells") for n in range(9)],
      need=["the digest is that of the definition", "the digest stays the same"],
      bounds="any settings within the ranges of props/configs.py, every class with both layouts; discrete sky maps of up to four tracts, or of 40 or 200", fork_mul=False),
]
ASSUMES = ("different messages have different SHA-1 digests",)
