"""A fifth round of planted bugs, written from the statements alone (see tools/plant.py)."""
import os
import runpy

_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs.py"))
LEG, BANDS = _b["LEG"], _b["BANDS"]
BUGS = {}


def bug(id, property, file, edits, needs, breaks, demo, files=None):
    BUGS[id] = dict(property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=LEG + demo)
    if files:
        BUGS[id]["files"] = files


bug("c19-shared-iterator", "C19", "cachingSkyMap.py", [(
    "        for i in range(self._numTracts):\n            yield self[i]\n",
    "        self._position = 0\n        while self._position < self._numTracts:\n"
    "            tract = self[self._position]\n            self._position += 1\n            yield tract\n")],
    "two iterations over the same sky map under way at the same time",
    "one iteration resets the other's position",
    '''
m = discrete([(10, 0), (30, 0), (50, 0)], [1.0]*3)
got = [(a.getId(), b.getId()) for a, b in zip(m, m)]
check(got == [(0, 0), (1, 1), (2, 2)], "%s" % (got,))
''')

bug("c27-box-wrap", "C27", "ringsSkyMap.py", [(
    "        innerBoxCorners = [\n            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(raMin), lat=sphgeom.Angle(decMin)),\n"
    "            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(raMax), lat=sphgeom.Angle(decMax)),\n        ]\n",
    "        lons = sorted([raMin, raMax], key=lambda lon: lon.asRadians())\n"
    "        innerBoxCorners = [\n            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(lons[0]), lat=sphgeom.Angle(decMin)),\n"
    "            sphgeom.LonLat(lon=sphgeom.NormalizedAngle(lons[1]), lat=sphgeom.Angle(decMax)),\n        ]\n")],
    "a tract whose range passes through right ascension zero",
    "its inner region is the rest of the ring",
    '''
m = rings(5)
t = m[1]
b = t.getInnerSkyRegion()
check(b.contains(t.getCtrCoord().getVector()), "%s" % (b,))
''')

bug("c13-half-ring", "C13", "ringsSkyMap.py", [(
    "        for r in [ringNum - 1, ringNum, ringNum + 1]:\n",
    "        middle = (ringNum + 1)*self._ringSize - 0.5*math.pi\n"
    "        overlap = math.radians(self.config.tractOverlap)\n"
    "        south = coord.getLatitude().asRadians() < middle + overlap\n"
    "        north = coord.getLatitude().asRadians() > middle - overlap\n"
    "        for r in [ringNum - 1]*south + [ringNum] + [ringNum + 1]*north:\n")],
    "tracts much larger than their ring, by being made up of whole patches",
    "tracts of an adjacent ring that hold the position are missing",
    '''
m = rings(8, overlap=0.1, inner=(400, 400), scale=600.0)
n = 0
for k in range(1, len(m) - 1, 7):
    t = m[k]
    a, b, lo, hi = m.getRaDecRange(k)
    for frac in (0.5, 0.75, 0.9):
        d = hi.asDegrees() + frac*(hi - lo).asDegrees()
        if d > 70:
            continue
        p = sky(t.getCtrCoord().getLongitude().asDegrees(), d)
        if t.contains(p):
            n += 1
            check(k in [x.getId() for x in m.findAllTracts(p)], "tract %d is missing at %s" % (k, p))
check(n > 0, "no such position")
''')

bug("c26-tiny-boxes", "C26", "detail/utils.py", [(
    "    pixelPoints = geom.Box2D(bbox).getCorners()\n",
    "    box = geom.Box2D(bbox)\n    if box.getWidth() < 2 or box.getHeight() < 2:\n"
    "        # too small a polygon\n        box.grow(0.5)\n    pixelPoints = box.getCorners()\n")],
    "a box one pixel wide or high",
    "its polygon is a pixel larger",
    '''
t = discrete([(10, 20)], [0.1], inner=(1, 5))[0]
p = t.getPatchInfo((1, 1))
v = p.getInnerSkyPolygon().getVertices()
w = [t.getWcs().skyToPixel(geom.SpherePoint(x)).getX() for x in v]
check(abs(max(w) - min(w) - 1.0) < 1e-6, "%s" % (w,))
''')

bug("c29-rounded-scale", "C29", "baseSkyMap.py", [(
    "            pixelScale=Angle(self.config.pixelScale, arcseconds),\n",
    "            pixelScale=Angle(round(self.config.pixelScale, 3), arcseconds),\n")],
    "a pixel scale with more than three decimals",
    "the WCS has another scale",
    '''
m = discrete([(10, 20)], [0.01], scale=0.2634)
s = m[0].getWcs().getPixelScale().asArcseconds()
check(abs(s - 0.2634) < 1e-7, "%s" % s)
''')

bug("c33-cell-sequence", "C33", "patchInfo.py", [(
    "        return (self.getIndex() == rhs.getIndex()) \\\n            and (self.getInnerBBox() == rhs.getInnerBBox()) \\\n",
    "        return (self.getSequentialIndex() == rhs.getSequentialIndex()) \\\n            and (self.getInnerBBox() == rhs.getInnerBBox()) \\\n")],
    "two patches that differ in their index pair only",
    "they are equal",
    '''
P = skymap.PatchInfo if hasattr(skymap, "PatchInfo") else skymap.patchInfo.PatchInfo
from lsst.skymap.detail import Index2D
box = geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(5, 5))
a = P(Index2D(0, 1), box, box, 3, None)
b = P(Index2D(3, 0), box, box, 3, None)
check(a != b and not a == b, "patches of different index are equal")
''')

bug("c07-quick-reject", "C07", "tractInfo.py", [(
    "        self._vertexCoordList = finalWcs.pixelToSky(bboxD.getCorners())\n",
    "        self._vertexCoordList = finalWcs.pixelToSky(bboxD.getCorners())\n"
    "        self._reach = (self._radius + self._tractOverlap)*1.5\n\n"
    "    def contains(self, coord):\n"
    "        # Most coordinates are nowhere near\n"
    "        if coord.separation(self._ctrCoord) > self._reach:\n            return False\n"
    "        return super().contains(coord)\n")],
    "a tract much larger than its radius asks for, because its patches are large",
    "positions in the outer patches are said not to be in the tract",
    '''
m = discrete([(10, 20)], [0.6], inner=(100, 100))
t = m[0]
b = t.getBBox()
c = t.getWcs().pixelToSky(geom.Point2D(b.getMinX() + 1, b.getMinY() + 1))
check(t.contains(c), "a corner of %s is not in the tract" % (b,))
''')

bug("c03-wide-border", "C03", "tractBuilder.py", [(
    "        outerBBox = geom.Box2I(innerBBox)\n        outerBBox.grow(self.getPatchBorder())\n        outerBBox.clip(self._tractBBox)\n",
    "        outerBBox = geom.Box2I(innerBBox)\n        outerBBox.grow(geom.Extent2I(*(min(self.getPatchBorder(), dim) for dim in self._patchInnerDimensions)))\n"
    "        outerBBox.clip(self._tractBBox)\n")],
    "legacy patches with a border wider than the patch",
    "the border stops after one neighbour",
    '''
t = discrete([(10, 20)], [2.0], inner=(20, 20), border=30)[0]
p = t.getPatchInfo((4, 4))
check(p.getInnerBBox().getMinX() - p.getOuterBBox().getMinX() == 30, "%s" % p.getOuterBBox())
''')

bug("c09-in-place", "C09", "tractBuilder.py", [(
    "        numPatches = Index2D(*numPatchesList)\n        bbox = geom.Box2I(bboxMin, bboxDim)\n        self._numPatches = numPatches\n",
    "        numPatches = Index2D(*numPatchesList)\n        bbox = geom.Box2I(bboxMin, bboxDim)\n        self._setup.update(numPatches=numPatches)\n"), (
    "    def __init__(self, config):\n        self.config = config\n",
    "    def __init__(self, config):\n        self.config = config\n        # what is worked out for the tract\n        self._setup = {}\n\n"
    "    @property\n    def _numPatches(self):\n        return self._setup[\"numPatches\"]\n")],
    "tracts with different numbers of patches, and a patch of the first fetched by number after the second was made",
    "the first tract is divided like the last one made",
    '''
m = discrete([(10, 20), (50, 20)], [1.0, 3.0], inner=(30, 30))
t = m[0]
nx, ny = t.getNumPatches()
m[1]
p = t.getPatchInfo(nx)
check(tuple(p.getIndex()) == (0, 1), "%s" % (p,))
''')

bug("c18-default-version", "C18", "cachingSkyMap.py", [(
    "        return (self.__class__, (self.config, self._version))\n",
    "        return (self.__class__, (self.config, self._version or self.__class__._version[0]))\n")],
    "a ring sky map of the historical numbering (version 0)",
    "the copy uses the current numbering",
    '''
import pickle
m = rings(4, version=0)
n = pickle.loads(pickle.dumps(m))
check([m.getRingIndices(i) for i in range(len(m))] == [n.getRingIndices(i) for i in range(len(n))], "renumbered")
''')

bug("c20-unsorted", "C20", "discreteSkyMap.py", [(
    "        return ExplicitTractInfo(index, self._tractBuilder, center,\n",
    "        if radius < 0.01:\n            # the smallest tract worth making\n            radius = 0.01\n"
    "        return ExplicitTractInfo(index, self._tractBuilder, center,\n")],
    "a tract of less than 0.01 degrees",
    "its radius is not the one configured",
    '''
m = discrete([(10, 20)], [0.001], inner=(2, 2), scale=1.0)
w = m[0].getBBox().getWidth()
check(w < 12, "%d pixels" % w)
''')

bug("c38-clipped-cos", "C38", "tractInfo.py", [(
    "            cornerCoord = self._ctrCoord.offset(i*90*geom.degrees, self._radius + self._tractOverlap)\n",
    "            cornerCoord = self._ctrCoord.offset((i*90 + 45)*geom.degrees, self._radius + self._tractOverlap)\n")],
    "positions due north, east, south or west of the centre of a tract",
    "the tract is smaller than its radius by a factor of 1.4",
    '''
m = discrete([(10, 20)], [2.0], inner=(2, 2), overlap=1.0)
p = m[0].getCtrCoord().offset(0*geom.degrees, 2.9*geom.degrees)
check(m[0].contains(p), "%s" % p)
''')

bug("c32-zero-records", "C32", "packers.py", [(
    "            n_tracts=config.n_tracts,\n            n_patches=config.n_patches,\n        )\n",
    "            n_tracts=config.n_tracts,\n            n_patches=config.n_patches if config.n_tracts is not None else None,\n        )\n")],
    "a configuration with a patch count but no tract count",
    "the patch count is ignored",
    '''
import types
from lsst.daf.butler import DimensionUniverse, DataCoordinate
u = DimensionUniverse()
from lsst.skymap.packers import SkyMapDimensionPacker, SkyMapDimensionPackerConfig
from lsst.daf.butler import DimensionRecord
def record(**k):
    e = u["skymap"]
    return e.RecordClass(name="m", hash=b"x", **k)
d = DataCoordinate.standardize(skymap="m", universe=u).expanded(dict(skymap=record(tract_max=10, patch_nx_max=3, patch_ny_max=3)))
c = SkyMapDimensionPackerConfig()
c.n_bands = 0
c.n_patches = 50
p = SkyMapDimensionPacker.from_config(d, c)
i = DataCoordinate.standardize(skymap="m", tract=2, patch=40, universe=u)
check(p.pack(i) == 140, "packed")
''')
