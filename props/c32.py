"""C32: a packer takes its dimensions and sizes from what it is given, and has room for every registered patch."""
import contextlib

from props.common import AND, Rose
from props.packing import NAME, dataid, fixed
from symx.harness import H, outcome


class Butler:
    """Keeps the sky map's record."""

    def __init__(self, universe):
        self.dimensions, self.registry, self.row = universe, self, None

    def syncDimensionData(self, element, row, update=False):
        self.row = dict(row)
        return False

    def registerRun(self, *a, **k):
        return True

    registerDatasetType = registerCollection = insertDimensionData = put = registerRun

    @property
    def collections(self):
        class C:
            register = self.registerRun
        return C()

    @contextlib.contextmanager
    def transaction(self):
        yield self


def registered(ctx, lib, count, maxn, how):
    """Every patch of every tract of a registered sky map can be packed with the sizes of its record."""
    from props import c23
    m, rose, size = c23.skymap(ctx, lib, "legacy", count, maxn)
    u, _ = fixed(ctx, 1, 1, 1)
    b = Butler(c23.bmod()[0].DimensionUniverse())
    with rose:
        m.register(NAME, b)
        row = b.row
        i = ctx.choice("tract", list(range(count)))
        t = m[i]
        nx, ny = t.getNumPatches()
        x, y = ctx.int("x", 0, maxn - 1), ctx.int("y", 0, maxn - 1)
        ctx.assume(AND(x < nx, y < ny))
        patch = t.getPatchInfo((x, y)).getSequentialIndex()
    P = lib.packers.SkyMapDimensionPacker
    u, fix = fixed(ctx, row["tract_max"], row["patch_nx_max"], row["patch_ny_max"])
    kw = {}
    if how == "plain":
        p = P(fix, n_bands=0)
    elif how == "config":
        p = P.from_config(fix, P.ConfigClass())
    else:
        p = P(fix)
        kw["band"] = ctx.choice("band", ["u", "N964"])
    d = dataid(ctx, u, tract=t.getId(), patch=patch, **kw)
    kind, v = outcome(p.pack, d)
    if kind == "raise" and not isinstance(v, ValueError):
        raise v
    ctx.prove(kind == "value", "every registered patch can be packed")
    back = p.unpack(v)
    ctx.prove(AND(back["tract"] == i, back["patch"] == patch), "and is found again")


def sizes(ctx, lib, how):
    """The counts used are those given, or else those of the record."""
    P = lib.packers.SkyMapDimensionPacker
    nt, nx, ny = ctx.int("nt", 1, 10 ** 6), ctx.int("nx", 1, 1000), ctx.int("ny", 1, 1000)
    gt, gp = ctx.choice("tracts given", [True, False]), ctx.choice("patches given", [True, False])
    wt, wp = nt, nx * ny
    kw = {}
    if gt:
        wt = kw["n_tracts"] = ctx.int("n_tracts", 1, 10 ** 6)
    if gp:
        wp = kw["n_patches"] = ctx.int("n_patches", 1, 10 ** 6)
    u, fix = fixed(ctx, nt, nx, ny)
    if how == "config":
        c = P.ConfigClass()
        for k, v in kw.items():
            setattr(c, k, v)
        p = P.from_config(fix, c)
    else:
        p = P(fix, n_bands=0, **kw)
    tract, patch = ctx.int("tract", 0, 2 * 10 ** 6), ctx.int("patch", 0, 2 * 10 ** 6)
    kind, v = outcome(p.pack, dataid(ctx, u, tract=tract, patch=patch))
    if kind == "raise" and not isinstance(v, ValueError):
        raise v
    fits = AND(tract < wt, patch < wp)
    if kind == "value":
        ctx.prove(fits, "only tracts and patches within the counts are packed")
        back = p.unpack(v)
        ctx.prove(AND(back["tract"] == tract, back["patch"] == patch), "with the counts given or recorded")
    else:
        ctx.prove(core_not(fits), "all tracts and patches within the counts are packed")


def core_not(c):
    from props.common import NOT
    return NOT(c)


GROUPS = [["tract", "patch"], ["tract", "patch", "band"], ["tract"], ["tract", "band"], ["skymap"], ["skymap", "band"], ["band"],
          ["tract", "patch", "visit"], ["tract", "patch", "band", "visit"], ["patch", "detector"]]


def dimensions(ctx, lib):
    """Which dimensions a packer has, and whether bands take part."""
    P = lib.packers.SkyMapDimensionPacker
    u, fix = fixed(ctx, 10, 3, 4)
    names = ctx.choice("dimensions", [None] + [",".join(g) for g in GROUPS])
    names = names and names.split(",")
    asked = ctx.choice("bands given", [None, 0, 1, 2, 3, "many"])
    table = {"g": 0, "r": 1, "i": 2} if asked != "many" else None
    how = ctx.choice("numbers", ["given", "default"])
    if how == "default":
        table = None
    # a symbolic number of bands to reserve
    nb = ctx.int("n_bands", 0, 8) if asked == "many" else asked
    kw = dict(n_bands=nb)
    if table is not None:
        kw["bands"] = table
    group = u.conform(names) if names is not None else None
    kind, p = outcome(P, fix, group, **kw)
    if kind == "raise" and not isinstance(p, ValueError):
        raise p
    if names is not None and set(names) not in ({"tract", "patch"}, {"tract", "patch", "band"}):
        ctx.prove(kind == "raise", "other dimensions are rejected")
        return
    ctx.prove(kind == "value", "tract and patch, with or without band, are accepted")
    if names is not None:
        with_band = "band" in names
    elif nb is None:
        with_band = True
    else:
        with_band = bool(nb != 0)
    want = {"skymap", "tract", "patch"} | ({"band"} if with_band else set())
    ctx.prove(set(p.dimensions.names) == want, "band is a dimension exactly when bands are counted")
    if not with_band:
        tract, patch = ctx.int("tract", 0, 9), ctx.int("patch", 0, 11)
        v = p.pack(dataid(ctx, u, tract=tract, patch=patch))
        ctx.prove(AND(v >= 0, v < 120), "without bands no room is left for them")


HARNESSES = [
    H("registered", registered, quick=[dict(count=n, maxn=m, how=h) for n, m in ((1, 4), (2, 3)) for h in ("plain", "config", "bands")],
      thorough=[dict(count=n, maxn=m, how=h) for n, m in ((1, 8), (2, 5), (3, 3)) for h in ("plain", "config", "bands")],
      need=["every registered patch can be packed", "and is found again"], fork_mul=False, quot_hint=True,
      bounds="up to count tracts of up to maxn by maxn patches each, any of their patches"),
    H("sizes", sizes, quick=[dict(how=h) for h in ("direct", "config")], fork_mul=False, quot_hint=True,
      need=["only tracts and patches within the counts are packed", "all tracts and patches within the counts are packed"],
      bounds="up to 10^6 tracts and patches, given or recorded; IDs up to 2*10^6"),
    H("dimensions", dimensions, quick=[dict()], fork_mul=False, quot_hint=True,
      need=["other dimensions are rejected", "band is a dimension exactly when bands are counted", "without bands no room is left for them"],
      bounds="ten dimension groups or none given; up to eight bands reserved"),
]
ASSUMES = ("the sky map's dimension record holds what was registered",)
