"""The planted bugs (see tools/plant.py)."""
BUGS = {}

LEG = '''
def rings(n=4, ra=0.0, version=1, overlap=1.0, border=0, inner=(100, 100), scale=600.0, proj="TAN", rotation=0.0):
    c = skymap.ringsSkyMap.RingsSkyMap.ConfigClass()
    c.numRings = n; c.raStart = ra; c.tractOverlap = overlap; c.pixelScale = scale; c.projection = proj
    c.rotation = rotation
    c.tractBuilder["legacy"].patchInnerDimensions = inner
    c.tractBuilder["legacy"].patchBorder = border
    return skymap.ringsSkyMap.RingsSkyMap(c, version)


def discrete(pos, radii, inner=(100, 100), border=0, overlap=0.0, scale=60.0, proj="TAN"):
    c = skymap.DiscreteSkyMap.ConfigClass()
    c.raList = [p[0] for p in pos]; c.decList = [p[1] for p in pos]; c.radiusList = radii
    c.tractOverlap = overlap; c.pixelScale = scale; c.projection = proj
    c.tractBuilder["legacy"].patchInnerDimensions = inner
    c.tractBuilder["legacy"].patchBorder = border
    return skymap.DiscreteSkyMap(c)


def cells(pos=(10.0, 20.0), radius=1.0, cell=10, cborder=2, inner=4, border=1, scale=60.0):
    c = skymap.DiscreteSkyMap.ConfigClass()
    c.raList = [pos[0]]; c.decList = [pos[1]]; c.radiusList = [radius]
    c.tractOverlap = 0.0; c.pixelScale = scale; c.projection = "TAN"
    c.tractBuilder.name = "cells"
    t = c.tractBuilder["cells"]
    t.cellInnerDimensions = (cell, cell); t.cellBorder = cborder
    t.numCellsPerPatchInner = inner; t.numCellsInPatchBorder = border
    return skymap.DiscreteSkyMap(c)
'''


def bug(id, property, file, edits, needs, breaks, demo):
    BUGS[id] = dict(property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=LEG + demo)


bug("c01-nonsquare-patch-origin", "C01", "tractBuilder.py", [(
    "innerMin = geom.Point2I(*[_index[i] * self._patchInnerDimensions[i] for i in range(2)])",
    "innerMin = geom.Point2I(*[_index[i] * self._patchInnerDimensions[0] for i in range(2)])")],
    "legacy patches that are taller than wide, and a patch not in the bottom row",
    "the inner regions of patches in higher rows overlap the rows below, so that they no longer tile the tract",
    '''
t = discrete([(10, 20)], [2.0], inner=(50, 80))[0]
seen = set()
for p in t:
    b = p.getInnerBBox()
    check(b.getMinX() == p.getIndex().x*50 and b.getMinY() == p.getIndex().y*80, "patch %s at %s" % (p, b))
''')

bug("c02-uneven-split", "C02", "tractBuilder.py", [(
    "bboxMin[i] -= deltaDim // 2", "bboxMin[i] -= min(deltaDim // 2, innerDim // 4)")],
    "a tract whose minimal box leaves more than half a patch to be added along an axis",
    "the added pixels are no longer split evenly, so the tract is not centred on its region",
    '''
for r in (0.5, 0.9, 1.3, 1.7, 2.1):
    t = discrete([(10, 20)], [r], inner=(90, 90))[0]
    x, y = t.getWcs().skyToPixel(t.getCtrCoord())
    b = t.getBBox()
    check(abs(x - (b.getMinX() + b.getMaxX())/2) <= 1.01, "radius %s: centre at x=%s of %s" % (r, x, b))
''')

bug("c03-cell-border-min", "C03", "tractBuilder.py", [(
    "self._patchBorder = config.numCellsInPatchBorder*config.cellInnerDimensions[0] + self._cellBorder",
    "self._patchBorder = max(config.numCellsInPatchBorder, 1)*config.cellInnerDimensions[0] + self._cellBorder")],
    "a cell layout without border cells (numCellsInPatchBorder = 0)",
    "the outer region of the patches is a whole cell larger than the border cells and cell border require",
    '''
t = cells(border=0)[0]
p = t.getPatchInfo((1, 1))
i, o = p.getInnerBBox(), p.getOuterBBox()
check(i.getMinX() - o.getMinX() == 2 and o.getMaxY() - i.getMaxY() == 2, "border of %s" % (p,))
''')

bug("c04-pair-from-sequential", "C04", "tractBuilder.py", [(
    "y = sequentialIndex // nx", "y = sequentialIndex // ny")],
    "a tract with different numbers of patches in x and y",
    "a sequential index is converted to the wrong row of patches",
    '''
t = discrete([(10, 20)], [1.0], inner=(30, 60))[0]
nx, ny = t.getNumPatches()
check(nx != ny, "square")
for p in t:
    s = t.getSequentialPatchIndex(p)
    check(t.getPatchIndexPair(s) == p.getIndex(), "%s from %d" % (p, s))
    check(t.getPatchInfo(s).getIndex() == p.getIndex(), "%s from %d" % (p, s))
''')

bug("c05-cells-two-border", "C05", "patchInfo.py", [(
    "innerMin = Point2I(*[(_index[i] - self._numCellsInPatchBorder)*self._cellInnerDimensions[i]",
    "innerMin = Point2I(*[(_index[i] - min(self._numCellsInPatchBorder, 1))*self._cellInnerDimensions[i]")],
    "a cell layout with two or more border cells on each side of a patch",
    "all cells of a patch are displaced, so that they do not tile it and do not match the neighbours' cells",
    '''
t = cells(border=2)[0]
p = t.getPatchInfo((1, 1))
first, last = p.getCellInfo((0, 0)).getInnerBBox(), p.getCellInfo((7, 7)).getInnerBBox()
b = p.getInnerBBox()
check(first.getMinX() == b.getMinX() - 20 and last.getMaxX() == b.getMaxX() + 20, "%s %s" % (first, last))
''')

bug("c06-cell-sequential", "C06", "patchInfo.py", [(
    "            if isinstance(index, numbers.Number):\n                _index = self.getCellIndexPair(index)",
    "            if isinstance(index, numbers.Number):\n"
    "                _index = self.getCellIndexPair(index % len(self))")],
    "a sequential cell index that is negative or not below the number of cells",
    "an out-of-range sequential cell index returns some cell instead of raising IndexError",
    '''
p = cells()[0].getPatchInfo((0, 0))
for i in (-1, len(p), len(p) + 3):
    try:
        c = p.getCellInfo(i)
    except IndexError:
        continue
    check(False, "cell %d of %d: %s" % (i, len(p), c))
for i in range(len(p)):
    check(p.getCellInfo(i).getSequentialIndex() == i, "cell %d" % i)
''')

bug("c07-unrounded-pixel", "C07", "tractInfo.py", [(
    "patchInd = tuple(int(pixelInd[i]/self.patch_inner_dimensions[i]) for i in range(2))",
    "patchInd = tuple(int(pixel[i]/self.patch_inner_dimensions[i]) for i in range(2))")],
    "a position in the lower half of the first pixel of a patch (not the first patch)",
    "the patch found is the one before the patch whose inner region holds the pixel",
    '''
t = discrete([(10, 20)], [2.0])[0]
for x in (99.4, 99.6, 100.2, 150.0, 199.7):
    c = t.getWcs().pixelToSky(geom.Point2D(x, 50.0))
    p = t.findPatch(c)
    check(p.getInnerBBox().contains(geom.Point2I(geom.Point2D(x, 50.0))), "x=%s found in %s" % (x, p))
''')

bug("c08-clip-before-grow", "C08", "tractInfo.py", [(
    "        bbox = geom.Box2I(box2D)\n        bbox.grow(self.getPatchBorder())\n",
    "        bbox = geom.Box2I(box2D)\n        bbox.clip(self._bbox)\n        bbox.grow(self.getPatchBorder())\n")],
    "a list of positions all off the tract but by less than the patch border",
    "the patches whose border region reaches the positions are not found",
    '''
t = discrete([(10, 20)], [2.0], border=10)[0]
c = t.getWcs().pixelToSky(geom.Point2D(-5.0, 50.0))
check([tuple(p.getIndex()) for p in t.findPatchList([c])] == [(0, 0)], "patches near the edge: %s" % (t.findPatchList([c]),))
''')

bug("c09-shared-patch-cache", "C09", "tractBuilder.py", [(
    "        self._patchBorder = config.patchBorder\n        self._initialized = False\n",
    "        self._patchBorder = config.patchBorder\n        self._initialized = False\n"
    "        self._outerBBoxes = {}\n"), (
    "        outerBBox.grow(self.getPatchBorder())\n        outerBBox.clip(self._tractBBox)\n",
    "        outerBBox.grow(self.getPatchBorder())\n        outerBBox.clip(self._tractBBox)\n"
    "        outerBBox = self._outerBBoxes.setdefault(_index, outerBBox)\n")],
    "two tracts of different sizes in one sky map, and the patch with the same index taken from the larger one first",
    "a cache of outer regions is shared by the tracts' builders, so a patch has the outer region clipped for another tract",
    '''
s = discrete([(10, 20), (50, -20)], [2.0, 1.0], border=10)
other = discrete([(10, 20), (50, -20)], [2.0, 1.0], border=10)
n = s[1].getNumPatches()
last = (n.x - 1, n.y - 1)
want = other[1].getPatchInfo(last).getOuterBBox()
s[0].getPatchInfo(last)
check(s[1].getPatchInfo(last).getOuterBBox() == want, "patch %s of tract 1 depends on tract 0" % (last,))
''')

bug("c10-wraparound", "C10", "ringsSkyMap.py", [(
    "return 0 if tractNum == self._ringNums[ringNum] else tractNum  # Allow wraparound",
    "return min(tractNum, self._ringNums[ringNum] - 1)  # Allow wraparound")],
    "a position less than half a tract west of the starting right ascension",
    "the last tract of the ring is found instead of the first, whose range holds the position",
    '''
for ra in (0.0, 40.0):
    s = rings(n=4, ra=ra)
    t = s.findTract(sky((ra - 3.0) % 360, 5.0))
    ring, num = s.getRingIndices(t.getId())
    check(num == 0, "tract %d of ring %d" % (num, ring))
''')

bug("c11-ring-indices-negative", "C11", "ringsSkyMap.py", [(
    "        if index < 0 or index >= self._numTracts:\n            raise IndexError(\"Tract index",
    "        if abs(index) >= self._numTracts:\n            raise IndexError(\"Tract index")],
    "ring indices requested for a negative tract index",
    "a negative tract index yields ring indices with a negative tract number instead of IndexError",
    '''
s = rings()
for i in (-1, -3, len(s), len(s) + 1, -len(s) - 1):
    try:
        r = s.getRingIndices(i)
    except IndexError:
        continue
    check(False, "ring indices of tract %d: %s" % (i, r))
''')

bug("c12-array-wrap-once", "C12", "ringsSkyMap.py", [(
    "deltaWrap = (_ra[inRange] - self._raStart.asRadians()) % (2.*np.pi)",
    "deltaWrap = _ra[inRange] - self._raStart.asRadians()\n"
    "        deltaWrap = np.where(deltaWrap < 0, deltaWrap + 2.*np.pi, deltaWrap)")],
    "right ascensions a full turn or more beyond the starting right ascension (or more than one below it)",
    "the array look-up returns tracts of other rings (or none that exist) for unwrapped right ascensions",
    '''
import numpy as np
s = rings(n=4, ra=30.0)
ra = np.array([10.0, 35.0, 395.0, 500.0, -170.0]); dec = np.array([5.0, 5.0, 5.0, -20.0, 20.0])
got = list(s.findTractIdArray(ra, dec, degrees=True))
want = [s.findTract(sky(r, d)).getId() for r, d in zip(ra, dec)]
check(got == want, "%s != %s" % (got, want))
''')

bug("c13-neighbour-wrap", "C13", "ringsSkyMap.py", [(
    "elif t > self._ringNums[r] - 1:", "elif t > self._ringNums[r]:")],
    "a position in the last tract of a ring, near enough the starting right ascension to be in the first tract too",
    "the first tract of the ring is not listed although it contains the position",
    '''
s = rings(n=4, overlap=3.0)
n = s._ringNums[0]
edge = 360.0 - 180.0/n
c = sky(edge - 0.5, s[0].getCtrCoord().getLatitude().asDegrees() + 180.0/5)
ids = sorted(t.getId() for t in s.findAllTracts(c))
want = sorted({t.getId() for t in s if t.contains(c)})
check(ids == want, "%s != %s" % (ids, want))
''')

bug("c14-ring-size-at-middle", "C14", "ringsSkyMap.py", [(
    "dec = min(math.fabs(startDec), math.fabs(stopDec))  # Declination for determining division in RA",
    "dec = math.fabs(startDec + stopDec)/2  # Declination for determining division in RA")],
    "a ring where the smaller width towards the equator needs one more tract, and a position at its edge",
    "tracts are spaced too widely, so that some positions are not within the tract found for them",
    '''
import numpy as np
bad = []
for n in (5, 6, 7, 8, 9, 11, 13, 17, 23, 30):
    s = rings(n=n, overlap=1.0)
    for r in range(n):
        lo = -90.0 + 180.0/(n + 1)*(r + 0.5)
        for d in (lo + 1e-3, lo + 180.0/(n + 1) - 1e-3):
            half = 180.0/s._ringNums[r]
            c = sky(half - 1e-6, d)
            if not s.findTract(c).contains(c):
                bad.append((n, r, d))
check(not bad, "positions outside the tract found: %s" % (bad,))
''')

bug("c15-rounded-separation", "C15", "baseSkyMap.py", [(
    "angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()",
    "angSep = round(coord.separation(tractInfo.getCtrCoord()).asDegrees(), 1)")],
    "a position whose distances from two centres differ by less than a tenth of a degree",
    "the lower numbered tract is returned although another one's centre is nearer",
    '''
s = discrete([(10, 0), (12, 0)], [2.0, 2.0])
check(s.findTract(sky(11.02, 0)).getId() == 1, "tract 1 is nearer")
check(s.findTract(sky(10.98, 0)).getId() == 0, "tract 0 is nearer")
''')

bug("c16-closest-per-tract-list", "C16", "baseSkyMap.py", [(
    "            if patchList and not (tractInfo, patchList) in retList:",
    "            if patchList and not (retList and retList[-1][0] is tractInfo):")],
    "positions in a list that alternate between two tracts (first, second, first)",
    "the closest-tract search repeats a tract and its patches",
    '''
s = discrete([(10, 0), (12, 0)], [2.0, 2.0])
found = s.findClosestTractPatchList([sky(10, 0), sky(12, 0), sky(10.1, 0)])
check([t.getId() for t, p in found] == [0, 1], "%s" % ([t.getId() for t, p in found],))
''')

bug("c17-single-precision-digest", "C17", "discreteSkyMap.py", [(
    'fmt = "<{}d".format(len(self.config.radiusList))', 'fmt = "<{}f".format(len(self.config.radiusList))')],
    "two discrete sky maps whose positions or radii differ by less than single precision can tell",
    "different sky maps have the same digest and compare equal",
    '''
a = discrete([(150.0, 2.0)], [1.0]); b = discrete([(150.0000001, 2.0)], [1.0])
check(a.getSha1() != b.getSha1() and a != b, "different sky maps are equal")
check(a == discrete([(150.0, 2.0)], [1.0]), "same configuration")
''')

bug("c18-version-lost", "C18", "cachingSkyMap.py", [(
    "return (self.__class__, (self.config, self._version))",
    "return (self.__class__, (self.config,) if not self._version else (self.config, self._version))")],
    "pickling a ring sky map with the historical numbering (version 0)",
    "the unpickled sky map has the current numbering",
    '''
import pickle
for v in (0, 1):
    s = rings(n=3, version=v)
    f, args = s.__reduce__()[:2]
    u = f(*args)
    i = 1 + s._ringNums[0]
    check(u.getRingIndices(i) == s.getRingIndices(i), "numbering changed")
''')

bug("c19-cache-of-last", "C19", "cachingSkyMap.py", [(
    "        if self._tractCache[index] is not None:\n            return self._tractCache[index]\n",
    "        if self._tractInfo is not None and self._tractInfo.getId() == index:\n            return self._tractInfo\n"),
    ("        self._tractCache[index] = tract\n", "        self._tractCache[index] = self._tractInfo = tract\n")],
    "asking for a tract again after another one has been asked for",
    "a new tract object is generated instead of returning the same one",
    '''
s = rings(n=3)
a = s[2]
check(s[2] is a, "same again")
s[3]
check(s[2] is a, "not the same tract after another was asked for")
''')

bug("c20-length-validation", "C20", "discreteSkyMap.py", [(
    "if len(self.radiusList) != len(self.decList):", "if len(self.radiusList) > len(self.decList):")],
    "a discrete configuration with more declinations than radii",
    "the inconsistent configuration is accepted",
    '''
c = skymap.DiscreteSkyMap.ConfigClass()
for ra, dec, r in (([1.0], [1.0, 2.0], [1.0]), ([1.0, 2.0], [1.0], [1.0]), ([1.0], [], [1.0])):
    c.raList, c.decList, c.radiusList = ra, dec, r
    try:
        c.validate()
    except ValueError:
        continue
    check(False, "accepted %s %s %s" % (ra, dec, r))
c.raList, c.decList, c.radiusList = [1.0], [2.0], [3.0]
c.validate()
''')

bug("c21-projection-centre", "C21", "equatSkyMap.py", [(
    "crValCoord = geom.SpherePoint(midRA, geom.Angle(0.0))", "crValCoord = geom.SpherePoint(midRA, midDec)")],
    "a declination range that is not symmetric about the equator",
    "the projection is referenced to the middle of the band instead of the equator",
    '''
for lo, hi in ((-1.25, 1.25), (2.0, 6.0)):
    c = skymap.EquatSkyMap.ConfigClass()
    c.numTracts = 5; c.decRange = (lo, hi)
    t = skymap.EquatSkyMap(c)[2]
    check(abs(t.getWcs().getSkyOrigin().getLatitude().asDegrees()) < 1e-9, "%s" % (t.getWcs().getSkyOrigin(),))
''')

bug("c22-longitude-sort", "C22", "detail/dodecahedron.py", [(
    "        if ang < 0:\n            ang += 2.0 * math.pi\n", "        if ang < -0.5*math.pi:\n            ang += 2.0 * math.pi\n")],
    "the sort order of faces in the last quarter of right ascension",
    "faces of equal declination are no longer numbered by rising right ascension",
    '''
for poles in (False, True):
    c = skymap.DodecaSkyMap.ConfigClass()
    c.withTractsOnPoles = poles
    s = skymap.DodecaSkyMap(c)
    rows = {}
    for t in s:
        p = t.getCtrCoord()
        rows.setdefault(round(p.getLatitude().asDegrees(), 3), []).append(round(p.getLongitude().asDegrees(), 3) % 360)
    for dec, ras in rows.items():
        check(ras == sorted(ras), "tracts at %s: %s" % (dec, ras))
''')

bug("c23-patch-maxima", "C23", "baseSkyMap.py", [(
    "        nxMax = max(nn[0] for nn in numPatches)\n        nyMax = max(nn[1] for nn in numPatches)\n",
    "        nxMax, nyMax = max(numPatches)\n")],
    "a sky map with a tract that has the most patches in y but not in x",
    "the recorded largest patch count in y is too small",
    '''
class Registry:
    def registerRun(self, *a): pass
    def registerDatasetType(self, *a): pass
    def syncDimensionData(self, element, row):
        self.row = row
        return False


class Butler:
    def __init__(self):
        from lsst.daf.butler import DimensionUniverse
        self.registry = Registry(); self.dimensions = DimensionUniverse()
    def transaction(self):
        import contextlib
        return contextlib.nullcontext()


s = discrete([(10, 20), (50, -20)], [1.0, 1.0], inner=(50, 50))
class N(type(s)):
    def __iter__(self):
        return iter([T(3, 1), T(2, 4)])
class T:
    def __init__(self, x, y): self.n = skymap.Index2D(x, y) if hasattr(skymap, "Index2D") else (x, y)
    def getNumPatches(self): return self.n
s.__class__ = N
b = Butler()
s.register("name", b)
check((b.registry.row["patch_nx_max"], b.registry.row["patch_ny_max"]) == (3, 4), "%s" % (b.registry.row,))
''')

BANDS = '''
from lsst.daf.butler import DimensionUniverse, DataCoordinate
from lsst.skymap.packers import SkyMapDimensionPacker
u = DimensionUniverse()
fixed = DataCoordinate.standardize(skymap="s", universe=u)


def did(tract, patch, band=None):
    d = dict(skymap="s", tract=tract, patch=patch)
    if band is not None:
        d["band"] = band
    return DataCoordinate.standardize(d, universe=u)
'''

bug("c24-band-by-position", "C24", "packers.py", [(
    "packed += self._bands[dataId[\"band\"]] * self._n_patches * self._n_tracts",
    "packed += list(self._bands).index(dataId[\"band\"]) * self._n_patches * self._n_tracts")],
    "a mapping of bands to numbers that are not 0, 1, 2... in the order of the mapping",
    "the band unpacked is not the one packed",
    BANDS + '''
p = SkyMapDimensionPacker(fixed, bands={"g": 2, "r": 0, "i": 1}, n_bands=3, n_tracts=5, n_patches=7)
for band in "gri":
    d = did(3, 4, band)
    got = p.unpack(p.pack(d))
    check((got["tract"], got["patch"], got["band"]) == (3, 4, band), "%s -> %s" % (d, got))
''')

bug("c25-single-band-unchecked", "C25", "packers.py", [(
    "        if self._n_bands:\n            if (band_index",
    "        if self._n_bands and self._n_bands > 1:\n            if (band_index")],
    "a packer with room for one band, given an unknown band or one numbered beyond it",
    "the data ID is packed, as if it had the supported band, instead of being rejected",
    BANDS + '''
p = SkyMapDimensionPacker(fixed, bands={"g": 0, "r": 1}, n_bands=1, n_tracts=5, n_patches=7)
check(p.pack(did(3, 4, "g")) == 25, "packed")
for band in "rz":
    try:
        n = p.pack(did(3, 4, band))
    except ValueError:
        continue
    check(False, "band %s packed to %s" % (band, n))
''')

bug("c25-max-bits", "C25", "packers.py", [(
    "return (packedMax - 1).bit_length()",
    "return (self._n_tracts - 1).bit_length() + (packedMax//self._n_tracts - 1).bit_length() - 1\\\n"
    "            if self._n_tracts > 4096 else (packedMax - 1).bit_length()")],
    "more than 4096 tracts, with counts that leave no unused room in the last bit",
    "the advertised number of bits is too small for the largest packed data IDs",
    BANDS + '''
p = SkyMapDimensionPacker(fixed, bands={"g": 0, "r": 1}, n_bands=2, n_tracts=8192, n_patches=64)
n = p.pack(did(8191, 63, "r"))
check(n < 2**p.maxBits, "%d does not fit %d bits" % (n, p.maxBits))
''')

bug("c26-passed-wcs", "C26", "patchInfo.py", [(
    "        _tractWcs = tractWcs if tractWcs is not None else self._wcs\n"
    "        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)",
    "        _tractWcs = self._wcs if self._wcs is not None else tractWcs\n"
    "        return makeSkyPolygonFromBBox(bbox=self.getOuterBBox(), wcs=_tractWcs)")],
    "a WCS other than the tract's passed to a patch's outer sky region",
    "the WCS passed in is ignored",
    '''
s = discrete([(10, 20), (50, -20)], [1.0, 1.0])
p = s[0].getPatchInfo((0, 0))
w = s[1].getWcs()
v = p.getOuterSkyPolygon(w).getVertices()[0]
c = w.pixelToSky(geom.Point2D(p.getOuterBBox().getMinX() - 0.5, p.getOuterBBox().getMinY() - 0.5)).getVector()
check(min((v.dot(c) for v in p.getOuterSkyPolygon(w).getVertices()), key=lambda d: abs(d - 1)) > 1 - 1e-12, "not under the given WCS")
''')

bug("c27-inner-vertices", "C27", "tractInfo.py", [(
    "        bboxD.grow(-0.001)\n", "        bboxD.grow(0.001)\n")],
    "the vertices of a tract given by centre and radius",
    "the vertices lie just outside the tract, so the inner sky region is not within it",
    '''
t = discrete([(10, 20)], [2.0])[0]
for v in t.getVertexList():
    check(geom.Box2D(t.getBBox()).contains(t.getWcs().skyToPixel(v)), "vertex %s off the tract" % (v,))
''')

bug("c28-cells-validation", "C28", "tractBuilder.py", [(
    "if self.cellInnerDimensions[0] != self.cellInnerDimensions[1]:",
    "if self.cellInnerDimensions[0] < self.cellInnerDimensions[1]:")],
    "a cell layout with cells wider than high",
    "the configuration is accepted although its cells are not square",
    '''
c = skymap.DiscreteSkyMap.ConfigClass()
t = c.tractBuilder["cells"]
for dims in ((150, 100), (100, 150)):
    t.cellInnerDimensions = dims
    try:
        t.validate()
    except ValueError:
        continue
    check(False, "accepted %s" % (dims,))
t.cellInnerDimensions = (100, 100)
t.validate()
''')

bug("c29-cached-cd-matrix", "C29", "detail/wcsFactory.py", [(
    "    def __init__(self, pixelScale, projection, rotation=0*geom.radians, flipX=False):\n",
    "    _cdMatrices = {}\n\n"
    "    def __init__(self, pixelScale, projection, rotation=0*geom.radians, flipX=False):\n"), (
    "        self._cdMatrix = afwGeom.makeCdMatrix(scale=pixelScale, orientation=rotation, flipX=flipX)",
    "        key = (pixelScale.asArcseconds(), flipX)\n"
    "        if key not in self._cdMatrices:\n"
    "            self._cdMatrices[key] = afwGeom.makeCdMatrix(scale=pixelScale, orientation=rotation, flipX=flipX)\n"
    "        self._cdMatrix = self._cdMatrices[key]")],
    "two sky maps in one process with the same pixel scale and different rotations",
    "the second sky map's tracts have the rotation of the first",
    '''
def cd(s):
    w = s[3].getWcs()
    o = w.getPixelOrigin()
    c = w.getSkyOrigin()
    d = w.pixelToSky(geom.Point2D(o.getX(), o.getY() + 1.0))
    return c.bearingTo(d).asDegrees()


a, b = rings(n=3, rotation=0.0), rings(n=3, rotation=30.0)
check(abs(abs(cd(a) - cd(b)) % 360 - 30) < 1e-3, "rotations %s %s" % (cd(a), cd(b)))
''')

bug("c30-boundary-order", "C30", "healpixSkyMap.py", [(
    "theta, phi = hpgeom.boundaries(nSide, ident, nest=nest, lonlat=False)",
    "theta, phi = hpgeom.boundaries(nSide, ident, nest=nest or nSide == 1, lonlat=False)"), (
    "index = hpgeom.angle_to_pixel(self._nside, theta, phi, nest=self.config.nest, lonlat=False)",
    "index = hpgeom.angle_to_pixel(self._nside, theta, phi, nest=self.config.nest and self._nside > 2, lonlat=False)")],
    "nested ordering at a resolution of two",
    "the tract found for a position is that of the ring ordering, not the pixel holding it",
    '''
import warnings
warnings.simplefilter("ignore")
for k in (0, 1, 2):
    for nest in (False, True):
        c = skymap.healpixSkyMap.HealpixSkyMapConfig()
        c.log2NSide = k; c.nest = nest; c.pixelScale = 600.0; c.projection = "TAN"; c.tractOverlap = 0.0
        s = skymap.healpixSkyMap.HealpixSkyMap(c)
        for i in range(len(s)):
            check(s.findTract(s[i].getCtrCoord()).getId() == i, "centre of tract %d, k=%d nest=%s" % (i, k, nest))
''')
