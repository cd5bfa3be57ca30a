"""C25: packed data IDs are distinct, fit the advertised bits; bad IDs are rejected."""
from props.common import AND, IMPLIES, NOT, OR
from props.packing import dataid, numbering, packer
from symx.harness import H, outcome

BANDS = list("ugrizyYJ") + ["N1010", "N964", "N387"]


def sizes(ctx):
    return ctx.int("nt", 1, 10 ** 6), ctx.int("nx", 1, 1000), ctx.int("ny", 1, 1000)


def one(ctx, u, mode, table, tag, lo, hi, names=None):
    kw = dict(tract=ctx.int("tract" + tag, lo, hi), patch=ctx.int("patch" + tag, lo, hi))
    if mode == "default":
        kw["band"] = ctx.choice("band" + tag, names or BANDS)
    elif mode == "given":
        kw["band"] = ctx.choice("band" + tag, names or list(table))
    return kw


def distinct(ctx, lib, how, mode, counts=True, count=2, hi=5):
    nt, nx, ny = sizes(ctx)
    bands, table, nb_arg, nb = numbering(ctx, mode, count, hi=hi)
    u, p = packer(ctx, lib, how, bands, nb_arg, nt, nx, ny, counts)
    a = one(ctx, u, mode, table, "_a", 0, 10 ** 6)
    b = one(ctx, u, mode, table, "_b", 0, 10 ** 6, ["u", "r", "N964"] if mode == "default" else None)
    for k in (a, b):
        ctx.assume(AND(k["tract"] < nt, k["patch"] < nx * ny))
        if mode == "given":
            ctx.assume(table[k["band"]] < nb)
    x, y = p.pack(dataid(ctx, u, **a)), p.pack(dataid(ctx, u, **b))
    same = AND(*[a[k] == b[k] for k in a])
    ctx.prove(OR(same, x != y), "distinct data IDs pack to distinct integers")
    ctx.prove(IMPLIES(same, x == y), "a data ID packs to one integer")


def bits(ctx, lib, how, mode, counts=True, count=2, top=None, hi=5):
    if top:
        nt, nx, ny = [ctx.int(n, 1, top) for n in ("nt", "nx", "ny")]
    else:
        nt, nx, ny = sizes(ctx)
    bands, table, nb_arg, nb = numbering(ctx, mode, count, hi=hi)
    u, p = packer(ctx, lib, how, bands, nb_arg, nt, nx, ny, counts)
    a = one(ctx, u, mode, table, "_a", 0, 10 ** 6)
    ctx.assume(AND(a["tract"] < nt, a["patch"] < nx * ny))
    if mode == "given":
        ctx.assume(table[a["band"]] < nb)
    x = p.pack(dataid(ctx, u, **a))
    n = ctx.concrete(p.maxBits)
    ctx.prove(x >= 0, "a packed data ID is not negative")
    ctx.prove(x < 2 ** n, "a packed data ID fits the advertised bits")
    x, m = p.pack(dataid(ctx, u, **a), returnMaxBits=True)
    ctx.prove(AND(m == n, x < 2 ** n), "the bits returned with it are those advertised")


def reject(ctx, lib, how, mode, counts=True, count=2, hi=5):
    nt, nx, ny = sizes(ctx)
    bands, table, nb_arg, nb = numbering(ctx, mode, count, lo=-3, hi=hi)
    u, p = packer(ctx, lib, how, bands, nb_arg, nt, nx, ny, counts)
    a = one(ctx, u, mode, table, "_a", -2 * 10 ** 6, 2 * 10 ** 6,
            ["r", "N387", "?", "Halpha"] if mode == "default" else (list(table) + ["?"] if mode == "given" else None))
    bad = [a["tract"] < 0, a["tract"] >= nt, a["patch"] < 0, a["patch"] >= nx * ny]
    if mode == "given":
        b = table.get(a["band"])
        bad += [True] if b is None else [b < 0, b >= nb]
    elif mode == "default":
        bad.append(a["band"] in ("?", "Halpha"))
    d = dataid(ctx, u, **a)
    kind, v = outcome(p.pack, d)
    if kind == "raise":
        ctx.prove(isinstance(v, ValueError), "rejection is a ValueError")
        ctx.prove(OR(*bad), "only bad data IDs are rejected")
    else:
        ctx.prove(NOT(OR(*bad)), "a data ID out of range is rejected")


HOW = ("dims", "nodims", "config", "field")
GRID = [dict(how=h, mode=m) for h in HOW for m in ("none", "default", "given")]
DEEP = [dict(how=h, mode=m, counts=c, count=n) for h in HOW for c in (True, False)
        for m, n in (("none", 0), ("default", 0), ("given", 1), ("given", 2), ("given", 3))]
WIDE = [dict(how="nodims", mode="given", hi=10 ** 4)]
OPT = dict(fork_mul=False, quot_hint=True)
HARNESSES = [
    H("distinct", distinct, quick=GRID + WIDE + [dict(how="dims", mode="given", counts=False)], thorough=DEEP + WIDE,
      need=["distinct data IDs pack to distinct integers", "a data ID packs to one integer"],
      bounds="up to 10^6 tracts, 10^6 patches, three bands numbered 0 to 5, up to 8 bands reserved (or two bands numbered to 10^4 and up to 10003 reserved)", **OPT),
    H("bits", bits, quick=GRID + WIDE + [dict(how="nodims", mode="given", counts=False)], thorough=DEEP + WIDE,
      need=["a packed data ID is not negative", "a packed data ID fits the advertised bits"],
      bounds="as above", **OPT),
    H("reject", reject, quick=GRID + WIDE + [dict(how="nodims", mode="given", counts=False), dict(how="dims", mode="none", counts=False)], thorough=DEEP + WIDE,
      need=["rejection is a ValueError", "only bad data IDs are rejected", "a data ID out of range is rejected"],
      bounds="tracts and patches up to 2*10^6 either side of zero, bands numbered -3 to 5 (or 10^4), and unknown bands", **OPT),
]
ASSUMES = ("bands of one packer have different numbers",)
