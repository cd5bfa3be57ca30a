"""C23: registration records exactly the sky map, in one transaction."""
import contextlib
import importlib

from models import geom
from props.common import AND, OR, PixPoint, Rose, boxes_equal, same_places, vertices
from symx import loader
from symx.harness import H, outcome

DIMS = {"legacy": (40, 30), "cells": (30, 30)}


class Boom(Exception):
    pass


class Butler:
    """Records every call; the call with number `fault` raises `error` instead."""

    def __init__(self, bmod, inserted, fault=None, error=None):
        self.dimensions = bmod.DimensionUniverse()
        self.calls, self.depth, self.inserted, self.fault, self.error = [], 0, inserted, fault, error
        self.enters, self.exits, self.dead = 0, [], False
        self.registry = self

    def note(self, name, *data):
        n = len(self.calls)
        late = self.dead
        self.calls.append((name, self.depth, late) + data)
        if n == self.fault:
            self.dead = True
            raise self.error

    def names(self):
        return [c[0] for c in self.calls]

    def get(self, name):
        return [c for c in self.calls if c[0] == name]

    # what register may use
    def registerRun(self, name, doc=None):
        self.note("run", name)
        return True

    def registerCollection(self, name, *a, **k):
        self.note("run", name)
        return True

    @property
    def collections(self):
        class C:
            register = self.registerCollection
        return C()

    def registerDatasetType(self, dt):
        self.note("type", dt)
        return True

    def syncDimensionData(self, element, row, update=False):
        self.note("sync", element, dict(row), update)
        return self.inserted

    def insertDimensionData(self, element, *rows, replace=False, skip_existing=False, conform=True):
        self.note("insert", element, [dict(r) for r in rows], replace, skip_existing)

    def put(self, obj, dt, dataId=None, *, run=None, **k):
        self.note("put", obj, dt, dict(dataId or {}, **k), run)

    @contextlib.contextmanager
    def transaction(self):
        self.enters += 1
        self.note("enter")
        self.depth += 1
        try:
            yield self
        except BaseException as e:
            self.exits.append(e)
            raise
        else:
            self.exits.append(None)
        finally:
            self.depth -= 1


def skymap(ctx, lib, build, count, maxn, grid=None, at=0):
    """A sky map of tracts with any numbers of patches.

    With a grid, tract `at` has so many patches, the last ones of any size, and the
    others one each.
    """
    s = lib.discreteSkyMap
    c = s.DiscreteSkyMapConfig()
    K = 20.0 if count < 15 else 350.0 / count
    c.raList, c.decList, c.radiusList = [K * i + 5.0 for i in range(count)], [0.0] * count, [0.1] * count
    c.tractBuilder = build
    b = c.tractBuilder[build]
    if build == "legacy":
        b.patchInnerDimensions, b.patchBorder = list(DIMS[build]), 3
    else:
        b.cellInnerDimensions, b.cellBorder, b.numCellsPerPatchInner, b.numCellsInPatchBorder = [15, 15], 2, 2, 1
    w, h = DIMS[build]
    if grid:
        size = [(w - 1, h - 2)] * count
        size[at] = tuple(ctx.int(n, d * (g - 1) + 1, d * g - 1) for n, d, g in (("w", w, grid[0]), ("h", h, grid[1])))
    else:
        size = [(ctx.int("w%d" % i, 3, w * maxn - 1), ctx.int("h%d" % i, 3, h * maxn - 1)) for i in range(count)]

    def extents(wcs):
        i = round((wcs.crval._lon * 57.29577951308232 - 5) / K)
        x, y = size[i]
        return 0.25, 0.25, x - 0.75, y - 0.75
    return s.DiscreteSkyMap(c), Rose(extents), size


def bmod():
    if loader.SYMBOLIC:
        return loader.OVERRIDE["lsst.daf.butler"], loader.OVERRIDE["lsst.daf.butler.registry"].ConflictingDefinitionError
    m = importlib.import_module("lsst.daf.butler")
    return m, importlib.import_module("lsst.daf.butler.registry").ConflictingDefinitionError


def region_of(ctx, r, tract, box, label):
    w = tract.getWcs()
    x0, x1 = box.getMinX() - 0.5, box.getMaxX() + 0.5
    y0, y1 = box.getMinY() - 0.5, box.getMaxY() + 0.5
    want = [PixPoint(w, geom.Point2D(x, y)) for x, y in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]
    ctx.prove(same_places(vertices(r), want), label)


def complete(ctx, lib, build, count, maxn=None, grid=None, at=0):
    """Everything goes well: the record is new, or exists already."""
    bm, conflict = bmod()
    m, rose, size = skymap(ctx, lib, build, count, maxn, grid, at)
    new = ctx.choice("new", [True, False]) if not grid else True
    b = Butler(bm, new)
    name = ctx.choice("name", ["a", "hsc_rings_v1"]) if not grid else "hsc"
    with rose:
        m.register(name, b)
        ctx.prove(AND(b.enters == 1, b.exits == [None]), "one transaction, left normally")
        ctx.prove(all(c[1] == 0 for c in b.get("run") + b.get("type")), "collection and dataset type registered outside it")
        ctx.prove(all(c[1] == 1 for c in b.get("sync") + b.get("insert") + b.get("put")), "all records are made inside it")
        runs, types = b.get("run"), b.get("type")
        ctx.prove(len(runs) == 1 and runs[0][3] == "skymaps" and len(types) == 1 and types[0][3].name == "skyMap",
                  "collection and dataset type")
        names = b.names()
        if new:
            ctx.prove("put" in names and names.index("put") == len(names) - 1, "the sky map is stored once, last")
            put = b.get("put")[0]
            ctx.prove(put[3] is m and put[5] == {"skymap": name} and put[6] == "skymaps", "the sky map itself is stored under its name")
            ctx.prove(put[4] is types[0][3] or put[4] == types[0][3] or put[4] == "skyMap", "stored with its dataset type")
        sync = b.get("sync")
        ctx.prove(len(sync) == 1 and sync[0][3] == "skymap" and not sync[0][5], "one sky map record")
        row = sync[0][4]
        n = [t.getNumPatches() for t in m]
        ctx.prove(row["skymap"] == name and set(row) == {"skymap", "hash", "tract_max", "patch_nx_max", "patch_ny_max"}, "its name")
        ctx.prove(row["hash"] == m.getSha1(), "its digest")
        ctx.prove(row["tract_max"] == count, "its tract count")
        ctx.prove(AND(*[row["patch_nx_max"] >= k[0] for k in n], OR(*[row["patch_nx_max"] == k[0] for k in n]),
                      *[row["patch_ny_max"] >= k[1] for k in n], OR(*[row["patch_ny_max"] == k[1] for k in n])), "largest patch counts")
        if not new:
            ctx.prove(not b.get("insert") and not b.get("put"), "nothing is added to an existing record")
            return
        tracts, patches = {}, {}
        for c in b.get("insert"):
            ctx.prove(names.index("sync") < b.calls.index(c), "records follow the sky map's")
            ctx.prove(not c[5] and not c[6], "records are inserted, not replaced")
            for r in c[4]:
                ctx.prove(r["skymap"] == name, "records name the sky map")
                if c[3] == "tract":
                    ctx.prove(r["tract"] not in tracts, "one record per tract")
                    tracts[r["tract"]] = r
                else:
                    ctx.prove(c[3] == "patch" and r["tract"] in tracts, "patch records follow their tract's")
                    key = (r["tract"], ctx.concrete(r["patch"]))
                    ctx.prove(key not in patches, "one record per patch")
                    patches[key] = r
        ctx.prove(sorted(tracts) == list(range(count)), "every tract has a record")
        k = 0
        for i in range(count):
            t = m[i]
            region_of(ctx, tracts[i]["region"], t, t.getBBox(), "the tract's region")
            nx, ny = size[i]
            w, h = DIMS[build]
            nx, ny = ctx.concrete((nx + w - 1) // w), ctx.concrete((ny + h - 1) // h)
            for y in range(ny):
                for x in range(nx):
                    r = patches.get((i, nx * y + x))
                    ctx.prove(r is not None, "every patch has a record")
                    ctx.prove(AND(r["cell_x"] == x, r["cell_y"] == y), "the patch's index pair")
                    region_of(ctx, r["region"], t, t.getPatchInfo((x, y)).getOuterBBox(), "the patch's outer region")
                    k += 1
        ctx.prove(len(patches) == k, "no other patch has a record")


def faults(ctx, lib, build, count, maxn):
    """One call to the butler fails."""
    bm, conflict = bmod()
    m, rose, size = skymap(ctx, lib, build, count, maxn)
    new = ctx.choice("new", [True, False])
    with rose:
        b = Butler(bm, new)
        m.register("a", b)
        total = len(b.calls)
        k = ctx.choice("fault", list(range(total)))
        what = b.calls[k][0]
        kinds = ["boom"] + (["conflict"] if what == "sync" else [])
        kind = ctx.choice("error", kinds)
        err = Boom("fault") if kind == "boom" else conflict("differs")
        b = Butler(bm, new, k, err)
        how, e = outcome(m.register, "a", b)
        if how == "raise" and not isinstance(e, (Boom, conflict)):
            raise e
        ctx.prove(how == "raise", "the failure is passed on")
        ctx.prove(not any(c[2] for c in b.calls), "nothing is recorded after a failure")
        ctx.prove(len(b.calls) == k + 1, "nothing is recorded after a failure")
        if kind == "conflict":
            ctx.prove(isinstance(e, conflict), "a conflict is reported as such")
            ctx.prove(not b.get("insert") and not b.get("put"), "nothing is recorded before a conflict")
        else:
            ctx.prove(e is err, "the failure is passed on unchanged")
        if b.calls[k][1]:
            ctx.prove(AND(b.enters == 1, len(b.exits) == 1, b.exits[0] is not None), "the transaction is left by the error")
        ctx.prove(b.depth == 0, "no transaction stays open")


LARGE = [dict(build="legacy", count=1, grid=[77, 13]), dict(build="cells", count=1, grid=[41, 25]), dict(build="cells", count=120, grid=[2, 3], at=119),
         dict(build="cells", count=3, grid=[12, 90], at=1), dict(build="legacy", count=150, grid=[3, 1], at=70)]
HARNESSES = [
    H("complete", complete, quick=[dict(build=b, count=n, maxn=m) for b in ("legacy", "cells") for n, m in ((1, 3), (2, 2))] + LARGE[:3],
      thorough=[dict(build=b, count=n, maxn=m) for b in ("legacy", "cells") for n, m in ((1, 5), (2, 3), (3, 2))] + LARGE,
      need=["one transaction, left normally", "nothing is added to an existing record", "every patch has a record",
            "the patch's outer region", "largest patch counts"],
      bounds="up to count tracts of up to maxn by maxn patches, any pixel sizes; record new or existing; or a tract with the listed grid of patches among others of one"),
    H("faults", faults, quick=[dict(build="legacy", count=n, maxn=m) for n, m in ((1, 2), (2, 1))],
      thorough=[dict(build=b, count=n, maxn=m) for b in ("legacy", "cells") for n, m in ((1, 3), (2, 2), (3, 1))],
      need=["a conflict is reported as such", "the failure is passed on unchanged", "the transaction is left by the error"],
      bounds="a failure of any one call to the butler, entering the transaction included; up to count tracts of up to maxn by maxn patches"),
]
ASSUMES = ("the butler is a stand-in recording the calls made (registerRun, registerDatasetType, transaction, syncDimensionData, "
           "insertDimensionData, put); rolling back is the butler's own doing once the transaction is left by an error",)
