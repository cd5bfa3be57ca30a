"""C24: unpacking a packed data ID gives the data ID back."""
from props.common import AND
from props.packing import NAME, dataid, numbering, packer
from symx.harness import H


def roundtrip(ctx, lib, how, mode, counts=True, count=2, lo=0, hi=5):
    nt, nx, ny = ctx.int("nt", 1, 10 ** 6), ctx.int("nx", 1, 1000), ctx.int("ny", 1, 1000)
    bands, table, nb_arg, nb = numbering(ctx, mode, count, lo=lo, hi=hi)
    u, p = packer(ctx, lib, how, bands, nb_arg, nt, nx, ny, counts)
    tract, patch = ctx.int("tract", 0, 10 ** 6), ctx.int("patch", 0, 10 ** 6)
    ctx.assume(AND(tract < nt, patch < nx * ny))
    kw = dict(tract=tract, patch=patch)
    if mode == "default":
        kw["band"] = ctx.choice("band", list("ugrizyYJ") + ["N1010", "N964", "N387"])
    elif mode == "given":
        b = kw["band"] = ctx.choice("band", list(table))
        ctx.assume(table[b] < nb)
    d = dataid(ctx, u, **kw)
    packed = p.pack(d)
    back = p.unpack(packed)
    ctx.prove(back["skymap"] == NAME, "same sky map")
    ctx.prove(back["tract"] == tract, "same tract")
    ctx.prove(back["patch"] == patch, "same patch")
    if "band" in kw:
        ctx.prove(back["band"] == kw["band"], "same band")
    ctx.prove(set(back.dimensions.names) == {"skymap"} | set(kw), "same dimensions")
    # unpacking another number in between changes nothing
    again = p.unpack(p.pack(d))
    ctx.prove(AND(again["tract"] == tract, again["patch"] == patch), "the same every time")


HOW = ("dims", "nodims", "config", "field")
HARNESSES = [
    H("roundtrip", roundtrip,
      quick=[dict(how=h, mode=m) for h in HOW for m in ("none", "default", "given")] +
            [dict(how=h, mode=m, counts=False) for h in HOW for m in ("none", "default", "given")] +
            [dict(how="dims", mode="given", count=3), dict(how="nodims", mode="given", lo=9998, hi=10 ** 4), dict(how="config", mode="given", lo=254, hi=257)],
      thorough=[dict(how=h, mode=m, counts=c, count=n) for h in HOW for c in (True, False)
                for m, n in (("none", 0), ("default", 0), ("given", 1), ("given", 2), ("given", 3), ("given", 4))] +
               [dict(how=h, mode="given", lo=9997, hi=10 ** 4) for h in HOW],
      fork_mul=False, quot_hint=True,
      need=["same sky map", "same tract", "same patch", "same band", "same dimensions"],
      bounds="up to 10^6 tracts, 1000 patches (10^6 without bands), up to three bands numbered 0 to 5 (or about 255 or 10^4, as listed) in any order, up to 8 bands (or 3 more than the highest number) reserved"),
]
ASSUMES = ("bands of one packer have different numbers",)
