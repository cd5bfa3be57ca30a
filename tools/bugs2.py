"""More planted bugs (see tools/plant.py): other idioms than those of tools/bugs.py."""
import os
import runpy

_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs.py"))
LEG, BANDS = _b["LEG"], _b["BANDS"]
BUGS = {}


def bug(id, property, file, edits, needs, breaks, demo):
    BUGS[id] = dict(property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=LEG + demo)


bug("c02-bankers-rounding", "C02", "tractBuilder.py", [(
    "num = (bboxDim[i] + innerDim - 1) // innerDim  # round up",
    "num = max(round((bboxDim[i] - 1)/innerDim + 0.5), 1)")],
    "a minimal box one pixel larger than an even number of patches",
    "the tract is a patch too small, so its region is not covered",
    '''
from lsst.skymap.tractBuilder import LegacyTractBuilder
c = LegacyTractBuilder.ConfigClass()
c.patchInnerDimensions = (10, 10); c.patchBorder = 0
b = LegacyTractBuilder(c)
for w in range(1, 60):
    box, n = b.setupPatches(geom.Box2I(geom.Point2I(0, 0), geom.Extent2I(w, w)), None)
    check(n.x == -(-w//10) and box.getWidth() == 10*n.x, "width %d: %d patches" % (w, n.x))
''')

bug("c02-four-bearings", "C02", "tractInfo.py", [(
    "                numAngles = 24\n", "                numAngles = 24 if len(self._vertexCoordList) > 4 else 4\n")],
    "a tract given by four vertices, with an overlap, whose widest point is displaced along no axis",
    "points displaced from a vertex by half the overlap diagonally are outside the tract",
    '''
c = skymap.EquatSkyMap.ConfigClass()
c.numTracts = 4; c.decRange = (-20, 20); c.projection = "TAN"; c.rotation = 45.0; c.pixelScale = 60.0
c.tractOverlap = 5.0
c.tractBuilder["legacy"].patchInnerDimensions = (5, 5)
c.tractBuilder["legacy"].patchBorder = 0
t = skymap.EquatSkyMap(c)[1]
b = geom.Box2D(t.getBBox())
for v in t.getVertexList():
    for i in range(24):
        p = t.getWcs().skyToPixel(v.offset(i*15*geom.degrees, 2.5*geom.degrees))
        check(b.contains(p), "bearing %d of %s off the tract" % (15*i, v))
''')

bug("c02-box-by-radius", "C02", "tractInfo.py", [(
    "        bbox = geom.Box2D()\n        for i in range(4):\n"
    "            cornerCoord = self._ctrCoord.offset(i*90*geom.degrees, self._radius + self._tractOverlap)\n"
    "            pixPos = wcs.skyToPixel(cornerCoord)\n            bbox.include(pixPos)\n        return bbox",
    "        size = (self._radius + self._tractOverlap).asRadians()\n        if size not in self._boxes:\n"
    "            bbox = geom.Box2D()\n            for i in range(4):\n"
    "                cornerCoord = self._ctrCoord.offset(i*90*geom.degrees, self._radius + self._tractOverlap)\n"
    "                bbox.include(wcs.skyToPixel(cornerCoord))\n            self._boxes[size] = bbox\n"
    "        return geom.Box2D(self._boxes[size])"), (
    "    def __init__(self, id, tractBuilder, ctrCoord, radius, tractOverlap, wcs, innerBoxCorners=None):\n",
    "    _boxes = {}  # they are all alike\n\n"
    "    def __init__(self, id, tractBuilder, ctrCoord, radius, tractOverlap, wcs, innerBoxCorners=None):\n")],
    "two sky maps with equal tract radii and different pixel scales in one process",
    "the second sky map's tracts have the size of the first's and do not cover their region",
    '''
a = discrete([(10, 20)], [1.0], scale=60.0)[0]
b = discrete([(10, 20)], [1.0], scale=20.0)[0]
p = b.getWcs().skyToPixel(b.getCtrCoord().offset(0*geom.degrees, 0.9*geom.degrees))
check(geom.Box2D(b.getBBox()).contains(p), "%s not in %s" % (p, b.getBBox()))
''')

bug("c03-clip-edges-only", "C03", "tractBuilder.py", [(
    "        outerBBox.clip(self._tractBBox)\n",
    "        if _index.x in (0, self._numPatches.x - 1) or _index.y in (0, self._numPatches.y - 1):\n"
    "            outerBBox.clip(self._tractBBox)\n")],
    "a patch border larger than the patches, and a patch next to one at the edge",
    "the outer region leaves the tract",
    '''
t = discrete([(10, 20)], [2.0], inner=(40, 40), border=50)[0]
for p in t:
    check(t.getBBox().contains(p.getOuterBBox()), "%s not in %s" % (p, t.getBBox()))
''')

bug("c04-sequential-range", "C04", "tractBuilder.py", [(
    '''        if (not 0 <= _index.x < self._numPatches.x) \\
           or (not 0 <= _index.y < self._numPatches.y):
            raise IndexError("Patch index %s is not in range [0-%d, 0-%d]" %
                             (_index, self._numPatches.x - 1, self._numPatches.y - 1))
        innerMin = geom.Point2I(*[_index[i] * self''',
    '''        sequential = self.getSequentialPatchIndexFromPair(_index)
        if sequential not in range(self._numPatches.x*self._numPatches.y):
            raise IndexError("Patch index %s is not in range [0-%d, 0-%d]" %
                             (_index, self._numPatches.x - 1, self._numPatches.y - 1))
        _index = self.getPatchIndexPair(sequential)
        innerMin = geom.Point2I(*[_index[i] * self''')],
    "a pair with x out of range and a sequential index in range",
    "an out-of-range pair gets another patch instead of IndexError",
    '''
t = discrete([(10, 20)], [2.0])[0]
nx, ny = t.getNumPatches()
for pair in ((nx, 0), (-1, 1), (nx + 1, 0), (0, ny), (0, -1)):
    try:
        p = t.getPatchInfo(pair)
    except IndexError:
        continue
    check(False, "%s gives %s" % (pair, p))
''')

bug("c05-cell-border-half", "C05", "patchInfo.py", [(
    "outerBBox.grow(self._cellBorder)", "outerBBox.grow(min(self._cellBorder, self._cellInnerDimensions[0]//2))")],
    "a cell border larger than half a cell",
    "the cells' outer regions are smaller than configured",
    '''
p = cells(cell=10, cborder=7)[0].getPatchInfo((1, 1))
for c in p:
    check(c.getInnerBBox().getMinX() - c.getOuterBBox().getMinX() == 7, "%r" % (c,))
''')

bug("c06-unravel-index", "C06", "patchInfo.py", [(
    "        x = sequentialIndex % nx\n        y = sequentialIndex // nx\n        return Index2D(x=x, y=y)",
    "        y, x = numpy.unravel_index(sequentialIndex, (ny, nx))\n        return Index2D(x=int(x), y=int(y))"), (
    "import numbers\n", "import numbers\n\nimport numpy\n")],
    "a sequential cell index that is negative or not below the number of cells",
    "ValueError is raised instead of IndexError",
    '''
p = cells()[0].getPatchInfo((0, 0))
for i in (-1, len(p), len(p) + 3):
    try:
        c = p.getCellInfo(i)
    except IndexError:
        continue
    check(False, "cell %d of %d: %s" % (i, len(p), c))
''')

bug("c07-domain-error-only", "C07", "tractInfo.py", [(
    "            pixel = self.wcs.skyToPixel(coord)\n"
    "        except (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):",
    "            pixel = self.wcs.skyToPixel(coord)\n        except lsst.pex.exceptions.DomainError:")],
    "a position so far off that the WCS fails with RuntimeError",
    "looking up the patch raises that error instead of LookupError",
    '''
import lsst.pex.exceptions
t = discrete([(10, 20)], [2.0])[0]


class Wcs:
    def __init__(self, error): self.error = error
    def skyToPixel(self, coord): raise self.error("failed")


for e in (lsst.pex.exceptions.DomainError, lsst.pex.exceptions.RuntimeError):
    t._wcs = Wcs(e)
    check(not t.contains(sky(190, -20)), "contained")
    try:
        t.findPatch(sky(190, -20))
    except LookupError:
        continue
    check(False, "found")
''')

bug("c08-stop-at-failure", "C08", "tractInfo.py", [(
    "                # cannot be computed.\n                continue\n",
    "                # cannot be computed.\n                break\n")],
    "a list in which a position without pixel position precedes others",
    "the positions after it are ignored, so patches holding them are not found",
    '''
t = discrete([(10, 20)], [2.0])[0]
w = t.getWcs()
import lsst.pex.exceptions


class Wcs:
    def skyToPixel(self, coord):
        if abs(coord.getLongitude().asDegrees() - 10) > 90:
            raise lsst.pex.exceptions.DomainError("far")
        return w.skyToPixel(coord)


t._wcs = Wcs()
for l in ([sky(10, 20), sky(190, -20)], [sky(190, -20), sky(10, 20)]):
    check(len(t.findPatchList(l)) == 1, "%s" % (t.findPatchList(l),))
''')

bug("c12-first-ring-shift", "C12", "ringsSkyMap.py", [(
    "if self._version == 0 and tractNum == 0 and ringNum != 0:", "if self._version == 0 and tractNum == 0:")],
    "the historical numbering, and a position in the first tract of the first ring",
    "the position finds the duplicate of the tract, the array look-up the tract itself",
    '''
import numpy as np
s = rings(n=4, version=0)
for t in range(len(s)):
    c = s[t].getCtrCoord()
    ra, dec = c.getLongitude().asRadians(), c.getLatitude().asRadians()
    check(s.findTractIdArray([ra], [dec])[0] == s.findTract(c).getId(), "tract %d" % t)
''')

bug("c12-byte-rings", "C12", "ringsSkyMap.py", [(
    "ringNums = np.zeros(len(_dec), dtype=np.int32)", "ringNums = np.zeros(len(_dec), dtype=np.int8)")],
    "more than 127 rings, and a position far north",
    "the ring number overflows and a wrong tract is returned",
    '''
import numpy as np
s = rings(n=140, overlap=0.1)
for dec in (-80.0, 0.0, 40.0, 85.0):
    check(s.findTractIdArray([10.0], [dec], degrees=True)[0] == s.findTract(sky(10.0, dec)).getId(), "dec %s" % dec)
''')

bug("c11-bisect", "C11", "ringsSkyMap.py", [(
    '''        ring = 0  # Ring number
        tractNum = index - 1  # Tract number within ring
        if self._version == 0:
            # Maintain the off-by-one bug in version=0 (DM-14809).
            # This means that the first tract in the first ring is duplicated
            # and the first tract in the last ring is missing.
            while ring < self.config.numRings and tractNum > self._ringNums[ring]:
                tractNum -= self._ringNums[ring]
                ring += 1
        else:
            while ring < self.config.numRings and tractNum >= self._ringNums[ring]:
                tractNum -= self._ringNums[ring]
                ring += 1
        return ring, tractNum
''', '''        ends = list(itertools.accumulate(self._ringNums))
        if self._version == 0:
            # Maintain the off-by-one bug in version=0 (DM-14809).
            ends[0] += 1
        ring = bisect.bisect_right(ends, index - 1)
        return ring, index - 1 - sum(self._ringNums[:ring])
'''), ("import math\n", "import bisect\nimport itertools\nimport math\n")],
    "the historical numbering with three or more rings, and the last tract of a ring but the first and last",
    "it has the indices of the first tract of the next ring",
    '''
for n in (1, 2, 3, 4):
    s = rings(n=n, version=0)
    nums = s._ringNums
    for i in range(1, len(s) - 1):
        ring, t = 0, i - 1
        while t > nums[ring]:
            t -= nums[ring]; ring += 1
        check(s.getRingIndices(i) == (ring, t), "%d: %s" % (i, s.getRingIndices(i)))
''')

bug("c13-skip-far-rings", "C13", "ringsSkyMap.py", [(
    "                # Poles will be checked explicitly outside this loop\n                continue\n",
    "                # Poles will be checked explicitly outside this loop\n                continue\n"
    "            offset = coord.getLatitude().asRadians() - (self._ringSize*(r + 1) - 0.5*math.pi)\n"
    "            if abs(offset) > 0.5*self._ringSize + math.radians(self.config.tractOverlap):\n"
    "                continue\n")],
    "a position in the corner of a tract, further from its centre's parallel than its radius and overlap",
    "a tract that contains the position is not listed",
    '''
s = rings(n=8, overlap=2.0, scale=60.0)
for t in s:
    b = geom.Box2D(t.getBBox())
    for p in b.getCorners():
        p = geom.Point2D(0.999*p.getX() + 0.001*b.getCenterX(), 0.999*p.getY() + 0.001*b.getCenterY())
        c = t.getWcs().pixelToSky(p)
        ring, k = s.getRingIndices(t.getId())
        if not 0 < t.getId() < len(s) - 1 or abs(s._decToRingNum(c.getLatitude()) - ring) > 1:
            continue
        off = (s._raToTractNum(c.getLongitude(), ring) - k) % s._ringNums[ring]
        if t.contains(c) and off in (0, 1, s._ringNums[ring] - 1):
            check(t in s.findAllTracts(c), "tract %s at %s" % (t, c))
''')

bug("c15-single-precision", "C15", "baseSkyMap.py", [(
    '''        distTractInfoList = []
        for i, tractInfo in enumerate(self):
            angSep = coord.separation(tractInfo.getCtrCoord()).asDegrees()
            # include index in order to disambiguate identical angSep values
            distTractInfoList.append((angSep, i, tractInfo))
        distTractInfoList.sort()
        return distTractInfoList[0][2]
''', '''        angSeps = np.array([coord.separation(tractInfo.getCtrCoord()).asDegrees() for tractInfo in self],
                           dtype=np.float32)
        return self[int(np.argmin(angSeps))]
''')],
    "a position whose distances from two centres differ by less than single precision can tell",
    "the lower numbered tract is returned although another one's centre is nearer",
    '''
s = discrete([(0.0, 0.0), (20.0, 0.0)], [1.0, 1.0])
for d in (1.0, 1e-3, 1e-7, 1e-9):
    check(s.findTract(sky(10 - d, 0)).getId() == 0, "near 0")
    check(s.findTract(sky(10 + d, 0)).getId() == 1, "near 1 by %s" % d)
''')

bug("c15-last-among-equals", "C15", "baseSkyMap.py", [(
    "distTractInfoList.append((angSep, i, tractInfo))", "distTractInfoList.append((angSep, -i, tractInfo))")],
    "a position equally far from two tract centres",
    "the highest numbered tract of those is returned",
    '''
s = discrete([(0.0, 10.0), (0.0, 10.0), (50.0, 10.0)], [1.0, 2.0, 1.0])
check(s.findTract(sky(0.5, 10.0)).getId() == 0, "%s" % s.findTract(sky(0.5, 10.0)))
check(s.findTract(sky(45.0, 10.0)).getId() == 2, "other")
''')

bug("c16-same-patches", "C16", "baseSkyMap.py", [(
    "            if patchList and not (tractInfo, patchList) in retList:\n",
    "            if patchList and patchList not in [patches for _, patches in retList]:\n")],
    "two tracts in which the positions touch the same patches",
    "the second tract is left out",
    '''
s = discrete([(10.0, 20.0), (10.8, 20.0)], [2.0, 2.0], inner=(500, 500))
got = [t.getId() for t, p in s.findClosestTractPatchList([sky(10.0, 20.0), sky(10.8, 20.0)])]
check(got == [0, 1], "%s" % got)
''')

bug("c17-border-cells", "C17", "tractBuilder.py", [(
    "            subConfig.numCellsPerPatchInner,\n            subConfig.numCellsInPatchBorder,\n",
    "            subConfig.numCellsPerPatchInner,\n"
    "            subConfig.numCellsPerPatchInner + 2*subConfig.numCellsInPatchBorder\n"
    "            if subConfig.numCellsInPatchBorder > 1 else subConfig.numCellsPerPatchInner,\n")],
    "cell layouts without and with one border cell",
    "the sky maps are equal although their patches differ",
    '''
a, b, c = (skymap.DiscreteSkyMap(cells(border=i).config) for i in range(3))
check(a != b and a != c and b != c, "equal")
''')

bug("c18-later-version", "C18", "equatSkyMap.py", [(
    "if version >= (2, 0):", "if version > (2, 0):")],
    "a state recorded by version (2, 0)",
    "it is accepted",
    '''
c = skymap.EquatSkyMap.ConfigClass()
s = skymap.EquatSkyMap(c)
for v in ((2, 0), (2, 1), (3, 0)):
    try:
        skymap.EquatSkyMap.__new__(skymap.EquatSkyMap).__setstate__(dict(version=v, config=c))
    except RuntimeError:
        continue
    check(False, "version %s" % (v,))
''')

bug("c19-uncached-iteration", "C19", "cachingSkyMap.py", [(
    "            yield self[i]\n", "            yield self._tractCache[i] or self.generateTract(i)\n")],
    "iterating over a sky map before asking for its tracts by index",
    "indexing gives other tract objects than iteration did",
    '''
s = rings(n=3)
it = list(s)
check(all(it[i] is s[i] for i in range(len(s))), "different objects")
''')

bug("c20-distinct-positions", "C20", "discreteSkyMap.py", [(
    "numTracts = len(config.radiusList)",
    "numTracts = len(set(zip(config.raList, config.decList, config.radiusList)))")],
    "a discrete configuration that lists the same tract twice",
    "the sky map has fewer tracts than configured",
    '''
check(len(discrete([(1.0, 2.0), (1.0, 2.0), (3.0, 4.0)], [1.0, 1.0, 1.0])) == 3, "dropped")
''')

bug("c21-wrapped-end", "C21", "equatSkyMap.py", [(
    "            endRA = begRA + tractWidthRA\n", "            endRA = (begRA + tractWidthRA).wrap()\n"), (
    "            midRA = begRA + tractWidthRA / 2.0\n", "            midRA = (begRA + endRA) / 2.0\n")],
    "the last tract of an equatorial sky map",
    "its centre is on the other side of the sky",
    '''
c = skymap.EquatSkyMap.ConfigClass()
c.numTracts = 4; c.pixelScale = 60.0; c.projection = "CEA"
c.tractBuilder["legacy"].patchInnerDimensions = (100, 100)
try:
    s = skymap.EquatSkyMap(c)
except Exception as e:
    s = None
check(s is not None, "cannot be made")
for i, t in enumerate(s):
    check(abs(t.getCtrCoord().getLongitude().asDegrees() - (45 + 90*i)) < 1e-9, "tract %d: %s" % (i, t.getCtrCoord()))
''')

bug("c22-rounded-dot", "C22", "detail/dodecahedron.py", [(
    "return numpy.argmax(numpy.dot(self.faceVecList, vec))",
    "return numpy.argmax(numpy.round(numpy.dot(self.faceVecList, vec), 2))")],
    "a position within half a degree of the edge between two faces",
    "the lower numbered face is found although the other one is nearer",
    '''
c = skymap.DodecaSkyMap.ConfigClass()
s = skymap.DodecaSkyMap(c)
for k in range(400):
    p = sky(k*0.9, -60 + 0.3*k)
    d = [p.separation(t.getCtrCoord()).asRadians() for t in s]
    check(d[s.findTract(p).getId()] < min(d) + 1e-9, "%s" % (p,))
''')

REG = '''
class Registry:
    def __init__(self): self.calls = []
    def registerRun(self, *a): pass
    def registerDatasetType(self, *a): pass
    def syncDimensionData(self, element, row):
        self.calls.append((element, row)); return True
    def insertDimensionData(self, element, *rows):
        self.calls += [(element, row) for row in rows]


class Butler:
    def __init__(self):
        from lsst.daf.butler import DimensionUniverse
        self.registry = Registry(); self.dimensions = DimensionUniverse()
    def transaction(self):
        import contextlib
        return contextlib.nullcontext()
    def put(self, *a, **k): pass
'''

bug("c23-internal-list", "C23", "baseSkyMap.py", [(
    "                for tractInfo in self:\n                    tractId = tractInfo.getId()\n",
    "                for tractInfo in filter(None, getattr(self, \"_tractCache\", self._tractInfoList)[:-1]\n"
    "                                        + self._tractInfoList[-1:]):\n"
    "                    tractId = tractInfo.getId()\n")],
    "registering a sky map that makes tracts on request",
    "the last tract and its patches are not recorded",
    REG + '''
for s in (discrete([(10, 20), (50, -20)], [0.5, 0.5], inner=(50, 50)), rings(n=1)):
    b = Butler()
    s.register("name", b)
    check([r["tract"] for e, r in b.registry.calls if e == "tract"] == list(range(len(s))), "%d tracts" % len(s))
''')

bug("c24-class-level-bands", "C24", "packers.py", [(
    "        self._bands_by_index = None\n", ""), (
    "    ConfigClass = SkyMapDimensionPackerConfig\n",
    "    ConfigClass = SkyMapDimensionPackerConfig\n\n    _bands_by_index = {}\n"), (
    "            if self._bands_by_index is None:\n"
    "                self._bands_by_index = {i: band for band, i in self._bands.items()}\n",
    "            if len(self._bands_by_index) != len(self._bands):\n"
    "                self._bands_by_index.clear()\n"
    "                self._bands_by_index.update((i, band) for band, i in self._bands.items())\n")],
    "two packers with equally many but different bands used one after the other",
    "the second packer unpacks the first one's bands",
    BANDS + '''
for bands in ({"g": 0, "r": 1}, {"r": 0, "g": 1}, {"i": 0, "z": 1}):
    p = SkyMapDimensionPacker(fixed, bands=bands, n_bands=2, n_tracts=5, n_patches=7)
    for band in bands:
        check(p.unpack(p.pack(did(3, 4, band)))["band"] == band, "%s of %s" % (band, bands))
''')

bug("c25-bit-fields", "C25", "packers.py", [(
    "        packed = dataId[\"patch\"] + self._n_patches * dataId[\"tract\"]\n",
    "        packed = dataId[\"patch\"] | (dataId[\"tract\"] << (self._n_patches - 1).bit_length())\n"), (
    "        d[\"tract\"], d[\"patch\"] = divmod(packedId, self._n_patches)\n",
    "        d[\"tract\"], d[\"patch\"] = divmod(packedId, 1 << (self._n_patches - 1).bit_length())\n"), (
    "            index, packedId = divmod(packedId, (self._n_tracts * self._n_patches))\n",
    "            index, packedId = divmod(packedId, self._n_tracts << (self._n_patches - 1).bit_length())\n"), (
    "            packed += self._bands[dataId[\"band\"]] * self._n_patches * self._n_tracts\n",
    "            packed += self._bands[dataId[\"band\"]] * (self._n_tracts << (self._n_patches - 1).bit_length())\n")],
    "a number of patches that is not a power of two",
    "the largest packed data IDs do not fit the advertised number of bits",
    BANDS + '''
for np_ in (4, 5, 7, 8, 9):
    p = SkyMapDimensionPacker(fixed, bands={"g": 0, "r": 1}, n_bands=2, n_tracts=3, n_patches=np_)
    n = p.pack(did(2, np_ - 1, "r"))
    check(n < 2**p.maxBits, "%d does not fit %d bits" % (n, p.maxBits))
''')

bug("c26-kept-polygon", "C26", "patchInfo.py", [(
    "        self._wcs = tractWcs\n", "        self._wcs = tractWcs\n        self._innerPolygon = None\n"), (
    "        return makeSkyPolygonFromBBox(bbox=self.getInnerBBox(), wcs=_tractWcs)",
    "        if self._innerPolygon is None:\n"
    "            self._innerPolygon = makeSkyPolygonFromBBox(bbox=self.getInnerBBox(), wcs=_tractWcs)\n"
    "        return self._innerPolygon")],
    "asking a patch for its inner sky region under one WCS and then under another",
    "the second region is the first",
    '''
s = discrete([(10, 20), (50, -20)], [1.0, 1.0])
p = s[0].getPatchInfo((0, 0))
a = p.getInnerSkyPolygon(s[1].getWcs())
check(p.getInnerSkyPolygon() != a, "the same region under another WCS")
''')

bug("c27-sorted-corners", "C27", "ringsSkyMap.py", [(
    "        raMin, raMax, decMin, decMax = self.getRaDecRange(index)\n\n",
    "        raMin, raMax, decMin, decMax = self.getRaDecRange(index)\n"
    "        raMin, raMax = min(raMin, raMax), max(raMin, raMax)\n\n")],
    "a tract whose range includes right ascension zero",
    "its inner sky region is the rest of the ring",
    '''
import lsst.sphgeom as sg
s = rings(n=4)
for t in s:
    c = t.getCtrCoord()
    check(t.getInnerSkyRegion().contains(c.getVector()), "tract %s" % t)
''')

bug("c28-active-layout", "C28", "baseSkyMap.py", [(
    "        return self.tractBuilder[\"legacy\"].patchBorder\n",
    "        layout = self.tractBuilder[self.tractBuilder.name]\n"
    "        return getattr(layout, \"patchBorder\", 100)\n")],
    "a configuration with the cell layout chosen and another than the default legacy patch border",
    "the patch border read through the configuration is not that of the legacy layout",
    '''
c = skymap.DiscreteSkyMap.ConfigClass()
c.patchBorder = 7
for name in ("legacy", "cells"):
    c.tractBuilder.name = name
    check(c.patchBorder == 7 == c.tractBuilder["legacy"].patchBorder, "%s: %s" % (name, c.patchBorder))
''')

bug("c29-half-turn", "C29", "baseSkyMap.py", [(
    "rotation=Angle(self.config.rotation, degrees),", "rotation=Angle(self.config.rotation % 180.0, degrees),")],
    "a rotation that is negative or at least 180 degrees",
    "the tracts are rotated by half a turn more",
    '''
def north(r):
    w = rings(n=3, rotation=r)[3].getWcs()
    o = w.getPixelOrigin()
    return w.getSkyOrigin().bearingTo(w.pixelToSky(geom.Point2D(o.getX(), o.getY() + 1.0))).asDegrees()


for r in (30.0, -30.0, 200.0):
    d = (abs(north(r) - north(0.0)) - abs(r)) % 360
    check(min(d, 360 - d) < 1e-3 or abs((north(r) - north(0.0) + abs(r)) % 360) < 1e-3
          or abs(abs(north(r) - north(0.0)) - (360 - abs(r))) < 1e-3, "%s: %s from %s" % (r, north(r), north(0.0)))
''')

bug("c30-linear-resolution", "C30", "healpixSkyMap.py", [(
    "self._nside = 1 << config.log2NSide", "self._nside = 2*config.log2NSide or 1")],
    "a resolution of eight or more",
    "the sky map has the wrong number of tracts",
    '''
import warnings
warnings.simplefilter("ignore")
for k in range(6):
    c = skymap.healpixSkyMap.HealpixSkyMapConfig()
    c.log2NSide = k
    check(len(skymap.healpixSkyMap.HealpixSkyMap(c)) == 12*4**k, "log2NSide=%d" % k)
''')

bug("c31-interleaved", "C31", "discreteSkyMap.py", [(
    '''        sha1.update(struct.pack(fmt, *self.config.raList))
        sha1.update(struct.pack(fmt, *self.config.decList))
        sha1.update(struct.pack(fmt, *self.config.radiusList))
''', '''        for values in zip(self.config.raList, self.config.decList, self.config.radiusList):
            sha1.update(struct.pack("<3d", *values))
'''), ("        fmt = \"<{}d\".format(len(self.config.radiusList))\n", "")],
    "a discrete sky map of more than one tract registered by an earlier release",
    "its digest differs, so it is not recognised",
    '''
import hashlib, struct
s = discrete([(10, 20), (50, -20)], [1.0, 2.0], inner=(100, 120), border=3)
c = s.config
h = hashlib.sha1(b"DiscreteSkyMap" + struct.pack("<iiidd3sd", 100, 120, 3, c.tractOverlap, c.pixelScale,
                                                 c.projection.encode(), c.rotation))
h.update(struct.pack("<6d", 10, 50, 20, -20, 1.0, 2.0))
check(h.digest() == s.getSha1(), "digest")
''')

bug("c32-square-tracts", "C32", "packers.py", [(
    "                fixed.records[\"skymap\"].patch_nx_max\n                * fixed.records[\"skymap\"].patch_ny_max\n",
    "                fixed.records[\"skymap\"].patch_nx_max ** 2\n")],
    "a sky map whose tracts have more patches in y than in x",
    "patches of the sky map cannot be packed",
    BANDS + '''
rec = u["skymap"].RecordClass(name="s", hash=b"x"*20, tract_max=3, patch_nx_max=2, patch_ny_max=4)
p = SkyMapDimensionPacker(fixed.expanded(records={"skymap": rec}), n_bands=0)
for patch in range(8):
    got = p.unpack(p.pack(did(2, patch)))
    check((got["tract"], got["patch"]) == (2, patch), "patch %d" % patch)
''')

bug("c33-outer-ignored", "C33", "cellInfo.py", [(
    "            and (self.getInnerBBox() == rhs.getInnerBBox()) \\\n"
    "            and (self.getOuterBBox() == rhs.getOuterBBox())",
    "            and (self.getInnerBBox() == rhs.getInnerBBox())")],
    "cells of two sky maps that differ only in cell border",
    "they are equal although their outer regions differ",
    '''
a, b = (cells(cborder=i, border=0)[0].getPatchInfo((1, 1)).getCellInfo((1, 1)) for i in (2, 3))
check(a != b and not a == b, "equal")
''')

bug("c35-shared-box", "C35", "tractInfo.py", [(
    "        return geom.Box2I(self._bbox)\n", "        return self._bbox\n")],
    "a caller that grows the box a tract returned",
    "the tract contains more sky afterwards",
    '''
t = discrete([(10, 20)], [1.0])[0]
b = t.getBBox()
w = b.getWidth()
b.grow(10)
check(t.getBBox().getWidth() == w, "the tract has grown")
''')

bug("c36-on-meridian", "C36", "detail/utils.py", [(
    "abs(vec[0]) < _TinyFloat and abs(vec[1]) < _TinyFloat", "abs(vec[0]*vec[1]) < _TinyFloat")],
    "a vector with one of x and y zero",
    "its coordinate is a pole",
    '''
from lsst.skymap.detail import coordFromVec
for v in ((1, 0, 1), (0, 1, 1), (1, 1, 1), (0, -1, 0)):
    c = coordFromVec(v, geom.Angle(0)).getVector()
    n = sum(x*x for x in v)**0.5
    check(abs(c.x()*v[0] + c.y()*v[1] + c.z()*v[2] - n) < 1e-12, "%s" % (v,))
''')
