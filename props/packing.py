"""Data IDs and packers, symbolic or as installed."""
import types

NAME = "sky"


def universe(ctx):
    if ctx.symbolic:
        from models import butler
        return butler.DimensionUniverse(), butler.DataCoordinate
    from lsst.daf.butler import DataCoordinate, DimensionUniverse
    return DimensionUniverse(), DataCoordinate


def fixed(ctx, tract_max, nx, ny):
    """A data ID for the sky map, with its dimension record."""
    u, dc = universe(ctx)
    if ctx.symbolic:
        rec = types.SimpleNamespace(name=NAME, tract_max=tract_max, patch_nx_max=nx, patch_ny_max=ny)
        return u, dc(u, {"skymap": NAME}, {"skymap": rec})
    rec = u["skymap"].RecordClass(name=NAME, tract_max=tract_max, patch_nx_max=nx, patch_ny_max=ny)
    return u, dc.from_full_values(u.conform(["skymap"]), values=(NAME,)).expanded(records={"skymap": rec})


def dataid(ctx, u, **kw):
    _, dc = universe(ctx)
    return dc.standardize(skymap=NAME, universe=u, **kw)


def packer(ctx, lib, how, bands, n_bands, nt, nx, ny, counts):
    """A packer made in one of the ways there are.

    how: "dims" (dimensions given), "nodims", "config", "field" (a task's
    config field, applied); counts: tract and
    patch counts passed (True) or left to the sky map's record (False).
    """
    P = lib.packers.SkyMapDimensionPacker
    u, fix = fixed(ctx, nt, nx, ny)
    kw = dict(n_tracts=nt, n_patches=nx * ny) if counts else {}
    if how in ("config", "field"):
        if how == "config":
            c = P.ConfigClass()
        else:
            from lsst.pex.config import Config

            class TaskConfig(Config):
                packing = P.make_config_field()
            task = TaskConfig()  # what the field makes does not keep it alive
            c = task.packing
        c.bands = bands
        c.n_bands = n_bands
        for k, v in kw.items():
            setattr(c, k, v)
        if ctx.symbolic:
            full = type(fix)(u, {"skymap": NAME}, fix.records)
        else:
            full = fix
        return u, c.apply(full) if how == "field" else P.from_config(full, c)
    if bands is not None:
        kw["bands"] = bands
    kw["n_bands"] = n_bands
    if how == "dims":
        names = ["tract", "patch"] if n_bands == 0 else ["tract", "patch", "band"]
        return u, P(fix, u.conform(names), **kw)
    return u, P(fix, **kw)


def numbering(ctx, mode, count, lo=0, hi=5):
    """Band numbering: (argument, name -> number, n_bands argument, number of bands reserved)."""
    if mode == "none":
        return None, {}, 0, 1
    if mode == "default":
        return None, None, None, None
    names = (["g", "r", "N921", "i"] + ["b%d" % i for i in range(count - 4)])[:count]
    vals = [ctx.int("band_" + n, lo, hi) for n in names]
    for i in range(count):
        for j in range(i):
            ctx.assume(vals[i] != vals[j])
    nb = ctx.int("n_bands", 1, hi + 3)
    return dict(zip(names, vals)), dict(zip(names, vals)), nb, nb
