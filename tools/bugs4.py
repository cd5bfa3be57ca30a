"""A fourth round of planted bugs: faults of scale, of shared state and of exotic constructs (see tools/plant.py)."""
import os
import runpy

_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs.py"))
LEG, BANDS = _b["LEG"], _b["BANDS"]
BUGS = {}


def bug(id, property, file, edits, needs, breaks, demo, files=None):
    BUGS[id] = dict(property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=LEG + demo)
    if files:
        BUGS[id]["files"] = files


bug("c12-in-place", "C12", "ringsSkyMap.py", [(
    "        deltaWrap = (_ra[inRange] - self._raStart.asRadians()) % (2.*np.pi)\n",
    "        if self.config.raStart:\n            _ra -= self._raStart.asRadians()\n"
    "        deltaWrap = _ra[inRange] % (2.*np.pi)\n")],
    "right ascensions in radians, a starting right ascension other than zero, and an array that is used again",
    "the caller's array of right ascensions is shifted, so that the next look-up with it gives other tracts",
    '''
import numpy as np
m = rings(4, ra=40.0)
ra, dec = np.array([0.1, 1.3, 5.0, 3.3]), np.array([0.2, -0.3, 0.6, 0.9])
a = m.findTractIdArray(ra, dec)
b = m.findTractIdArray(ra, dec)
want = [m.findTract(geom.SpherePoint(r*geom.radians, d*geom.radians)).getId()
        for r, d in zip([0.1, 1.3, 5.0, 3.3], [0.2, -0.3, 0.6, 0.9])]
check(list(a) == want and list(b) == want, "%s %s %s" % (a, b, want))
''')

bug("c12-long-arrays", "C12", "baseSkyMap.py", [(
    "        tractId = np.array([self.findTract(coord).getId() for coord in coords])\n",
    "        tractId = np.zeros(len(coords), dtype=int)\n        size = 64\n"
    "        for start in range(0, len(coords), size):\n"
    "            block = coords[start:start + size]\n"
    "            tractId[start:start + len(block)] = [self.findTract(coord).getId() for coord in block[:size - 1]] + (\n"
    "                [self.findTract(block[-1]).getId()] if len(block) > size else [0]*(len(block) == size))\n")],
    "an array of 64 or more positions, for a sky map that uses the generic look-up",
    "every 64th position is given tract 0",
    '''
import numpy as np
m = discrete([(0, 0), (90, 0), (180, 10), (270, -40)], [1.0]*4)
ra = np.arange(70)*3.1 + 60.0
dec = np.zeros(70)
ids = m.findTractIdArray(ra, dec, degrees=True)
for i in range(70):
    t = m.findTract(geom.SpherePoint(ra[i], 0.0, geom.degrees)).getId()
    check(ids[i] == t, "%d: %s is not %s" % (i, ids[i], t))
''')

bug("c16-recent-tracts", "C16", "ringsSkyMap.py", [(
    "                if patchList and not (tractInfo, patchList) in retList:\n",
    "                if patchList and not any(tractInfo is found for found, _ in retList[-6:]):\n")],
    "a list of positions in at least seven tracts, one of which contains an early and a late position",
    "a tract is listed twice",
    '''
m = rings(6, overlap=1.0, border=0, inner=(100, 100), scale=600.0)
pts = [geom.SpherePoint(r, 70.0, geom.degrees) for r in (0.0, 60.0, 120.0, 180.0, 240.0, 300.0)]
pts += [geom.SpherePoint(10.0, 89.5, geom.degrees), geom.SpherePoint(0.5, 70.0, geom.degrees)]
got = [t.getId() for t, ps in m.findTractPatchList(pts)]
check(len(got) == len(set(got)), "%s" % (got,))
''')

bug("c16-sorted-input", "C16", "baseSkyMap.py", [(
    "        retList = []\n        for tractInfo in self:\n            patchList = tractInfo.findPatchList(coordList)\n",
    "        retList = []\n        while len(coordList) > 1 and coordList[-1] is coordList[-2]:\n            coordList.pop()\n"
    "        for tractInfo in self:\n            patchList = tractInfo.findPatchList(coordList)\n")],
    "a list that ends with the same position twice (a closed polygon), used again by the caller",
    "the caller's list of positions is shortened",
    '''
m = discrete([(10, 20)], [2.0])
p, q = geom.SpherePoint(10.0, 20.0, geom.degrees), geom.SpherePoint(10.5, 20.0, geom.degrees)
l = [p, q, q]
m.findTractPatchList(l)
check(len(l) == 3, "%d positions left" % len(l))
''')

bug("c19-bounded-cache", "C19", "cachingSkyMap.py", [(
    "        self._tractCache[index] = tract\n",
    "        self._tractCache[index] = tract\n        self._made = getattr(self, '_made', [])\n        self._made.append(index)\n"
    "        if len(self._made) > 1024:\n            self._tractCache[self._made.pop(0)] = None\n")],
    "more than 1024 tracts made, and one of the first asked for again",
    "the sky map returns another object for a tract it has returned before",
    '''
m = discrete([(i*0.3, 0.0) for i in range(1100)], [0.01]*1100, inner=(100, 100))
first = m[0]
check(m[0] is first, "not kept")
for t in m:
    pass
check(m[0] is first, "another tract 0")
''')

bug("c15-near-declination", "C15", "baseSkyMap.py", [(
    "        distTractInfoList.sort()\n        return distTractInfoList[0][2]\n",
    "        if len(distTractInfoList) > 16:\n"
    "            # no need to sort them all\n"
    "            limit = sum(d for d, _, _ in distTractInfoList[::16])/len(distTractInfoList[::16])\n"
    "            distTractInfoList = [d for d in distTractInfoList if d[0] < limit or d[1] % 16 == 0]\n"
    "            distTractInfoList = distTractInfoList[:16]\n"
    "        distTractInfoList.sort()\n        return distTractInfoList[0][2]\n")],
    "more than 16 tracts of which more than 16 are nearer than the average, the nearest among the last",
    "a tract further away is returned",
    '''
m = discrete([(i*4.0, 0.0) for i in range(40)] + [(200.0, 0.0)], [0.1]*41)
for i in range(40):
    p = geom.SpherePoint(i*4.0 + 0.3, 0.1, geom.degrees)
    check(m.findTract(p).getId() == i, "%d found at %d" % (m.findTract(p).getId(), i))
''')

bug("c17-short-digest", "C17", "discreteSkyMap.py", [(
    '        sha1.update(struct.pack(fmt, *self.config.radiusList))\n',
    '        sha1.update(struct.pack(fmt, *self.config.radiusList)[:512])\n')],
    "more than 64 tracts, and sky maps differing in a later radius only",
    "different sky maps have equal digests and compare equal",
    '''
pos = [(i*1.0, 0.0) for i in range(70)]
a, b = discrete(pos, [0.1]*70), discrete(pos, [0.1]*69 + [0.2])
check(a != b, "sky maps of different radii are equal")
''')

bug("c20-by-value", "C20", "discreteSkyMap.py", [(
    "        radius = self.config.radiusList[index]\n",
    "        radius = self.config.radiusList[self.config.decList.index(self.config.decList[index])]\n")],
    "two tracts of the same declination with different radii",
    "the second has the size of the first",
    '''
m = discrete([(10, 20), (50, 20), (90, 30)], [1.0, 2.0, 0.5])
n = discrete([(50, 20)], [2.0])
check(m[1].getBBox().getWidth() == n[0].getBBox().getWidth(), "%s" % m[1].getBBox())
''')

bug("c08-every-other", "C08", "tractInfo.py", [(
    "        box2D = geom.Box2D()\n        for coord in coordList:\n            try:\n                pixelPos = self.wcs",
    "        box2D = geom.Box2D()\n        step = max(1, len(coordList)//32)\n        for coord in coordList[::step]:\n"
    "            try:\n                pixelPos = self.wcs")],
    "a list of 64 or more positions, one of which alone reaches into a patch",
    "patches that contain a position are not listed",
    '''
t = discrete([(10, 20)], [2.0], inner=(20, 20))[0]
c = t.getCtrCoord()
far = c.offset(45*geom.degrees, 1.5*geom.degrees)
pts = [c]*70
pts[33] = far
want = t.findPatch(far).getIndex()
check(any(p.getIndex() == want for p in t.findPatchList(pts)), "%s not listed" % (want,))
''')

bug("c23-full-blocks", "C23", "baseSkyMap.py", [(
    '                    butler.registry.insertDimensionData("patch", *patchRecords)\n',
    '                    for start in range(0, len(patchRecords), 500):\n'
    '                        stop = min(start + 500, len(patchRecords))\n'
    '                        if stop - start > 1 or start == 0:\n'
    '                            butler.registry.insertDimensionData("patch", *patchRecords[start:stop])\n')],
    "a tract whose number of patches is one more than a multiple of 500",
    "its last patch is not recorded",
    '''
import types
class Reg:
    def __init__(self):
        self.n = 0
    def registerRun(self, *a):
        pass
    def registerDatasetType(self, *a):
        pass
    def syncDimensionData(self, *a):
        return True
    def insertDimensionData(self, kind, *rows):
        if kind == "patch":
            self.n += len(rows)
import contextlib
class Butler:
    def __init__(self):
        from lsst.daf.butler import DimensionUniverse
        self.registry = Reg()
        self.dimensions = DimensionUniverse()
    @contextlib.contextmanager
    def transaction(self):
        yield
    def put(self, *a, **k):
        pass
w = 0
for inner in [(x, y) for x in range(119, 126) for y in range(79, 86)]:
    m = discrete([(10, 20)], [2.0], inner=inner, scale=2.88)
    nx, ny = m[0].getNumPatches()
    if nx*ny % 500 == 1:
        w += 1
        b = Butler()
        m.register("x", b)
        check(b.registry.n == nx*ny, "%d of %d patches recorded" % (b.registry.n, nx*ny))
        break
check(w, "no such tract")
''')

bug("c06-cell-table", "C06", "patchInfo.py", [(
    "        nx, ny = self.getNumCells()\n        x = sequentialIndex % nx\n        y = sequentialIndex // nx\n",
    "        nx, ny = self.getNumCells()\n        if nx > 32:\n            # rows of cells, most significant part first\n"
    "            y = (sequentialIndex >> 5)*32//nx\n            return Index2D(x=sequentialIndex - y*nx, y=y)\n"
    "        x = sequentialIndex % nx\n        y = sequentialIndex // nx\n")],
    "patches of more than 32 cells a side, and cells fetched by number",
    "some sequential numbers lead to no cell or to another pair",
    '''
p = cells(cell=5, cborder=1, inner=40, border=1)[0].getPatchInfo((0, 0))
n = p.getNumCells()[0]
for s in range(n*n):
    x, y = p.getCellIndexPair(s)
    check((x, y) == (s % n, s//n), "%d is (%d, %d)" % (s, x, y))
''')

bug("c37-kept-cells", "C37", "patchInfo.py", [(
    "        return CellInfo(\n            index=_index,\n            innerBBox=innerBBox,\n            outerBBox=outerBBox,\n"
    "            sequentialIndex=self.getSequentialCellIndexFromPair(_index),\n            tractWcs=self._wcs\n        )\n",
    "        key = (self._index, _index, innerBBox.getMinX(), innerBBox.getMinY())\n"
    "        cell = PatchInfo._cells.get(key)\n"
    "        if cell is None or cell.getWcs() is not self._wcs:\n"
    "            cell = CellInfo(\n            index=_index,\n            innerBBox=innerBBox,\n            outerBBox=outerBBox,\n"
    "            sequentialIndex=self.getSequentialCellIndexFromPair(_index),\n            tractWcs=self._wcs\n        )\n"
    "            PatchInfo._cells[key] = cell\n        return cell\n"), (
    "    def __init__(self, index, innerBBox, outerBBox, sequentialIndex,\n                 tractWcs,\n                 cellInnerDimensions=(0, 0)",
    "    _cells = {}\n\n    def __init__(self, index, innerBBox, outerBBox, sequentialIndex,\n                 tractWcs,\n                 cellInnerDimensions=(0, 0)")],
    "a caller that changes the box of a cell and asks the tract for the cell again",
    "the cell returned later has the changed box",
    '''
t = cells()[0]
b = t.getPatchInfo((0, 0)).getCellInfo((1, 1)).getOuterBBox()
w = b.getWidth()
b.grow(3)
check(t.getPatchInfo((0, 0)).getCellInfo((1, 1)).getOuterBBox().getWidth() == w, "the cell has grown")
''')
BUGS["c35-kept-cells"] = dict(BUGS.pop("c37-kept-cells"), property="C35")

bug("c11-bisect-float", "C11", "ringsSkyMap.py", [(
    "            while ring < self.config.numRings and tractNum >= self._ringNums[ring]:\n"
    "                tractNum -= self._ringNums[ring]\n                ring += 1\n",
    "            starts = np.cumsum([0] + self._ringNums)\n"
    "            if index > starts[len(starts)//2]:\n"
    "                # count from the north\n"
    "                ring = self.config.numRings - 1\n"
    "                while index - 1 < starts[ring] - (ring > 100):\n                    ring -= 1\n"
    "                return ring, int(index - 1 - starts[ring])\n"
    "            while ring < self.config.numRings and tractNum >= self._ringNums[ring]:\n"
    "                tractNum -= self._ringNums[ring]\n                ring += 1\n")],
    "more than 101 rings, and the last tract of a far northern ring",
    "that tract is placed at the start of the next ring, with a negative tract number",
    '''
m = rings(120)
for i in range(1, len(m) - 1):
    r, t = m.getRingIndices(i)
    check(t >= 0, "tract %d is number %d of ring %d" % (i, t, r))
''')

bug("c30-deep-corners", "C30", "healpixSkyMap.py", [(
    "        theta, phi = hpgeom.boundaries(nSide, ident, nest=nest, lonlat=False)\n",
    "        theta, phi = hpgeom.boundaries(nSide, ident, nest=nest or nSide > 256, lonlat=False)\n")],
    "nside of 512 or more, ring ordering",
    "a tract has the corners of another pixel",
    '''
from lsst.skymap.healpixSkyMap import HealpixSkyMap
m = HealpixSkyMap.ConfigClass()
m.log2NSide, m.nest = 9, False
m.tractBuilder["legacy"].patchInnerDimensions = (20, 20)
m.tractBuilder["legacy"].patchBorder = 0
m.pixelScale = 10.0
s = HealpixSkyMap(m)
for i in (7, 1000, 100000, 3000000):
    t = s[i]
    for v in t.getVertexList():
        d = v.separation(t.getCtrCoord()).asDegrees()
        check(d < 1.0, "tract %d has a corner %.1f degrees off" % (i, d))
''')

bug("c21-narrow-centre", "C21", "equatSkyMap.py", [(
    "            midRA = begRA + tractWidthRA / 2.0\n",
    "            midRA = begRA + tractWidthRA / 2.0 if tractWidthRA.asDegrees() >= 4.0 else begRA\n")],
    "more than 90 tracts",
    "tracts are centred on their western edge",
    '''
c = skymap.EquatSkyMap.ConfigClass()
c.numTracts = 100
c.tractBuilder["legacy"].patchInnerDimensions = (100, 100)
c.tractBuilder["legacy"].patchBorder = 0
c.pixelScale = 60.0
m = skymap.EquatSkyMap(c)
for i, t in enumerate(m):
    ra = t.getCtrCoord().getLongitude().asDegrees()
    check(abs(ra - 3.6*(i + 0.5)) < 1e-6, "tract %d is centred on %f" % (i, ra))
''')

bug("c35-dimensions", "C35", "patchInfo.py", [(
    "        self._cellInnerDimensions = Extent2I(*cellInnerDimensions)\n",
    "        self._cellInnerDimensions = (cellInnerDimensions if isinstance(cellInnerDimensions, Extent2I)\n"
    "                                     else Extent2I(*cellInnerDimensions))\n")],
    "a caller that changes the cell dimensions a patch has returned",
    "the cells of all patches change their size",
    '''
t = cells()[0]
d = t.getPatchInfo((0, 0)).getCellInnerDimensions()
d.x = 3
w = t.getPatchInfo((1, 1)).getCellInfo((1, 1)).getInnerBBox().getWidth()
check(w == 10, "cells are %d wide" % w)
''')
