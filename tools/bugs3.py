"""A third round of planted bugs (see tools/plant.py)."""
import os
import runpy

_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs.py"))
LEG, BANDS = _b["LEG"], _b["BANDS"]
BUGS = {}


def bug(id, property, file, edits, needs, breaks, demo, files=None):
    BUGS[id] = dict(property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=LEG + demo)
    if files:
        BUGS[id]["files"] = files


bug("c38-small-angle", "C38", "tractInfo.py", [(
    "        bbox = geom.Box2D()\n        for i in range(4):\n"
    "            cornerCoord = self._ctrCoord.offset(i*90*geom.degrees, self._radius + self._tractOverlap)\n"
    "            pixPos = wcs.skyToPixel(cornerCoord)\n            bbox.include(pixPos)\n        return bbox",
    "        bbox = geom.Box2D()\n        centre = wcs.skyToPixel(self._ctrCoord)\n        bbox.include(centre)\n"
    "        scale = wcs.getPixelScale()\n"
    "        bbox.grow((self._radius + self._tractOverlap).asRadians()/scale.asRadians())\n        return bbox")],
    "a tract large enough for the gnomonic projection to stretch its edge by more than half a pixel",
    "positions near the edge of the configured radius and overlap are off the tract",
    '''
m = discrete([(10, 20)], [8.0], inner=(20, 20), overlap=1.0, scale=600.0)
t = m[0]
for k in range(4):
    p = t.getCtrCoord().offset(90*k*geom.degrees, 8.99*geom.degrees)
    check(t.contains(p), "%d: %s off the tract" % (k, p))
m = discrete([(10, 20)], [8.0], inner=(1, 1), overlap=0.5, scale=60.0)
t = m[0]
for k in range(4):
    p = t.getCtrCoord().offset(90*k*geom.degrees, 8.49*geom.degrees)
    check(t.contains(p), "%d: %s off the tract" % (k, p))
''')

bug("c38-outwards-only", "C38", "tractInfo.py", [(
    "                numAngles = 24\n"
    "                angleIncr = geom.Angle(360.0, geom.degrees) / float(numAngles)\n"
    "                for i in range(numAngles):\n"
    "                    offAngle = angleIncr * i\n"
    "                    offCoord = vertexCoord.offset(offAngle, halfOverlap)\n"
    "                    pixPos = wcs.skyToPixel(offCoord)\n"
    "                    minBBoxD.include(pixPos)\n",
    "                away = self._ctrCoord.bearingTo(vertexCoord) if len(self._vertexCoordList) == 5 else None\n"
    "                numAngles = 24\n"
    "                angleIncr = geom.Angle(360.0, geom.degrees) / float(numAngles)\n"
    "                for i in range(numAngles):\n"
    "                    offAngle = angleIncr * i\n"
    "                    if away is not None:\n"
    "                        offAngle = vertexCoord.bearingTo(self._ctrCoord) + 180.0*geom.degrees\n"
    "                    offCoord = vertexCoord.offset(offAngle, halfOverlap)\n"
    "                    pixPos = wcs.skyToPixel(offCoord)\n"
    "                    minBBoxD.include(pixPos)\n")],
    "a position beyond an edge of a dodecahedral tract's face by nearly half the overlap, on the box's short side",
    "the tracts overlap by less than configured",
    '''
from lsst.sphgeom import Vector3d
c = skymap.DodecaSkyMap.ConfigClass()
c.tractOverlap = 6.0; c.projection = "TAN"; c.pixelScale = 60.0
c.tractBuilder["legacy"].patchInnerDimensions = (1, 1)
c.tractBuilder["legacy"].patchBorder = 0
m = skymap.DodecaSkyMap(c)
for t in m:
    b = geom.Box2D(t.getBBox())
    for v in t.getVertexList():
        for i in range(0, 360, 15):
            p = t.getWcs().skyToPixel(v.offset(i*geom.degrees, 2.95*geom.degrees))
            check(b.contains(p), "tract %d: %s" % (t.getId(), p))
''')

bug("c39-centre-from-wcs", "C39", "tractInfo.py", [(
    "        return self._ctrCoord\n", "        return self._wcs.getSkyOrigin()\n")],
    "an equatorial sky map whose declination range is not symmetric about the equator",
    "the tract's centre is told to be on the equator",
    '''
c = skymap.EquatSkyMap.ConfigClass()
c.numTracts = 4; c.decRange = (-5, 25); c.pixelScale = 600.0
c.tractBuilder["legacy"].patchInnerDimensions = (50, 50)
t = skymap.EquatSkyMap(c)[1]
check(abs(t.getCtrCoord().getLatitude().asDegrees() - 10) < 1e-6, t.getCtrCoord())
''')

bug("c39-patch-wcs-kept", "C39", "tractBuilder.py", [(
    "        configPacked = struct.pack(\n            \"<iiidd3sd\",", "        configPacked = struct.pack(\n            \"<iiidd3sd\","), (
    "            sequentialIndex=self.getSequentialPatchIndexFromPair(_index),\n            tractWcs=tractWcs,\n",
    "            sequentialIndex=self.getSequentialPatchIndexFromPair(_index),\n            tractWcs=self._wcsOf(tractWcs),\n"), (
    "class CellTractBuilder(BaseTractBuilder):\n    ConfigClass = CellTractBuilderConfig\n",
    "class CellTractBuilder(BaseTractBuilder):\n    ConfigClass = CellTractBuilderConfig\n    _kept = {}\n\n"
    "    def _wcsOf(self, wcs):\n        # one object for equal ones\n"
    "        key = (self._numPatches, self._tractBBox.getWidth(), self._tractBBox.getHeight())\n"
    "        return self._kept.setdefault(key, wcs)\n")],
    "two tracts of equal size with cells",
    "patches of the second tract have the WCS of the first",
    '''
c = skymap.DiscreteSkyMap.ConfigClass()
c.raList = [10.0, 80.0]; c.decList = [20.0, -20.0]; c.radiusList = [1.0, 1.0]
c.tractOverlap = 0.0; c.pixelScale = 60.0; c.projection = "TAN"
c.tractBuilder.name = "cells"
t = c.tractBuilder["cells"]
t.cellInnerDimensions = (10, 10); t.cellBorder = 2; t.numCellsPerPatchInner = 4; t.numCellsInPatchBorder = 1
m = skymap.DiscreteSkyMap(c)
for t in m:
    for p in t:
        check(p.getWcs() is t.getWcs(), "%s of tract %d" % (p, t.getId()))
''')

bug("c39-border-without-cells", "C39", "patchInfo.py", [(
    "        return self._cellBorder\n", "        return min(self._cellBorder, self._numCellsInPatchBorder*self._cellInnerDimensions.x)\n")],
    "a cell layout without border cells but with a cell border",
    "the patch says its cells have no border",
    '''
p = cells(border=0)[0].getPatchInfo((0, 0))
check(p.getCellBorder() == 2, p.getCellBorder())
''')

bug("c37-healpix-corners", "C37", "healpixSkyMap.py", [(
    '        theta, phi = hpgeom.boundaries(nSide, ident, nest=nest, lonlat=False)\n',
    '        if (nSide, ident) not in self._corners:\n'
    '            self._corners[nSide, ident] = hpgeom.boundaries(nSide, ident, nest=nest, lonlat=False)\n'
    '        theta, phi = self._corners[nSide, ident]\n'), (
    '    """Tract for the HealpixSkyMap"""\n', '    """Tract for the HealpixSkyMap"""\n    _corners = {}\n')],
    "two HEALPix sky maps of one resolution and different pixel orders in one process",
    "the second sky map's tracts have the corners of other pixels",
    '''
import hpgeom


def build(nest):
    c = skymap.healpixSkyMap.HealpixSkyMap.ConfigClass()
    c.log2NSide = 1; c.nest = nest; c.tractOverlap = 0.0; c.pixelScale = 600.0
    c.tractBuilder["legacy"].patchInnerDimensions = (100, 100)
    return skymap.healpixSkyMap.HealpixSkyMap(c)


a, b = build(False)[5], build(True)[5]
for v in b.getVertexList():
    check(v.separation(b.getCtrCoord()).asDegrees() < 60, "%s %s" % (v, b.getCtrCoord()))
check(a.getVertexList() != b.getVertexList(), "same corners")
''')

bug("c37-shared-wcs-factory", "C37", "baseSkyMap.py", [(
    "        self._wcsFactory = detail.WcsFactory(\n"
    "            pixelScale=Angle(self.config.pixelScale, arcseconds),\n"
    "            projection=self.config.projection,\n"
    "            rotation=Angle(self.config.rotation, degrees),\n        )\n",
    "        key = (round(self.config.pixelScale, 4), self.config.projection, round(self.config.rotation, 4))\n"
    "        if key not in _factories:\n"
    "            _factories[key] = detail.WcsFactory(\n"
    "                pixelScale=Angle(self.config.pixelScale, arcseconds),\n"
    "                projection=self.config.projection,\n"
    "                rotation=Angle(self.config.rotation, degrees),\n            )\n"
    "        self._wcsFactory = _factories[key]\n"), (
    "class BaseSkyMap:\n", "_factories = {}\n\n\nclass BaseSkyMap:\n")],
    "two sky maps whose pixel scales differ by less than a ten thousandth of an arcsecond",
    "the second has the pixel scale of the first",
    '''
a, b = discrete([(10, 20)], [1.0], scale=0.33333)[0], discrete([(10, 20)], [1.0], scale=0.33334)[0]
p = sky(10.9, 20.0)
x, y = a.getWcs().skyToPixel(p), b.getWcs().skyToPixel(p)
u, v = a.getWcs().skyToPixel(a.getCtrCoord()), b.getWcs().skyToPixel(b.getCtrCoord())
check(abs((x[0] - u[0])/(y[0] - v[0]) - 0.33334/0.33333) < 1e-8, "same scale")
''')

bug("c04-plain-integers", "C04", "tractBuilder.py", [(
    "            if isinstance(index, numbers.Number):\n                _index = self.getPatchIndexPair(index)\n"
    "            else:\n                _index = Index2D(*index)\n"
    "        if (not 0 <= _index.x < self._numPatches.x) \\\n"
    "           or (not 0 <= _index.y < self._numPatches.y):\n"
    "            raise IndexError(\"Patch index %s is not in range [0-%d, 0-%d]\" %\n"
    "                             (_index, self._numPatches.x - 1, self._numPatches.y - 1))\n"
    "        innerMin = geom.Point2I(*[_index[i] * self",
    "            if isinstance(index, numbers.Number):\n"
    "                _index = self.getPatchIndexPair(index % (self._numPatches.x*self._numPatches.y))\n"
    "            else:\n                _index = Index2D(*index)\n"
    "        if (not 0 <= _index.x < self._numPatches.x) \\\n"
    "           or (not 0 <= _index.y < self._numPatches.y):\n"
    "            raise IndexError(\"Patch index %s is not in range [0-%d, 0-%d]\" %\n"
    "                             (_index, self._numPatches.x - 1, self._numPatches.y - 1))\n"
    "        innerMin = geom.Point2I(*[_index[i] * self")],
    "a sequential index out of range",
    "some patch is returned instead of raising IndexError",
    '''
t = discrete([(10, 20)], [1.0], inner=(50, 40))[0]
n = len(t)
for i in (-1, n, n + 1):
    try:
        p = t.getPatchInfo(i)
    except IndexError:
        continue
    check(False, "%d gives %s" % (i, p))
''')

bug("c08-single-position", "C08", "tractInfo.py", [(
    "        box2D = geom.Box2D()\n        for coord in coordList:\n",
    "        if len(coordList) == 1:\n            try:\n                return (self.findPatch(coordList[0]),)\n"
    "            except LookupError:\n                return ()\n"
    "        box2D = geom.Box2D()\n        for coord in coordList:\n")],
    "a single position within the border of a neighbouring patch",
    "the neighbouring patch, whose outer region holds the position, is not listed",
    '''
t = discrete([(10, 20)], [1.0], inner=(50, 50), border=10)[0]
w = t.getWcs()
p = w.pixelToSky(geom.Point2D(52, 20))
got = {tuple(q.getIndex()) for q in t.findPatchList([p])}
check(got == {(0, 0), (1, 0)}, got)
''')

bug("c13-caps-when-near", "C13", "ringsSkyMap.py", [(
    "        for entry in [0, len(self)-1]:\n            tract = self[entry]\n",
    "        caps = [0] if ringNum < self.config.numRings/2 else [len(self) - 1]\n"
    "        for entry in caps:\n            tract = self[entry]\n")],
    "an odd number of rings, a position in the middle ring and a cap's tract that reaches it",
    "the south cap's tract is not listed although it contains the position",
    '''
m = rings(n=1, overlap=5.0, scale=1800.0, inner=(10, 10))
for dec in (-42.0, 42.0):
    for ra in range(0, 360, 15):
        p = sky(ra + 0.5, dec)
        want = {t.getId() for t in m if t.contains(p)}
        got = {t.getId() for t in m.findAllTracts(p)}
        check(want & {0, len(m) - 1} <= got, "%s: %s, %s" % (p, want, got))
''')

bug("c17-wrapped-start", "C17", "ringsSkyMap.py", [(
    'sha1.update(struct.pack("<id", self.config.numRings, self.config.raStart))',
    'sha1.update(struct.pack("<id", self.config.numRings, self.config.raStart % 180.0))')],
    "two ring sky maps whose starting right ascensions differ by half a turn and with rings of odd tract numbers",
    "they have the same digest and are equal, although their tracts differ",
    '''
a, b = rings(ra=10.0), rings(ra=190.0)
check(a != b and a.getSha1() != b.getSha1(), "equal")
''')

bug("c32-last-tract", "C32", "baseSkyMap.py", [(
    '            "tract_max": len(self),\n', '            "tract_max": max(tractInfo.getId() for tractInfo in self),\n')],
    "the sky map's last tract",
    "a packer made from the record refuses the last tract",
    BANDS and '''
class Registry:
    def registerRun(self, *a): pass
    def registerDatasetType(self, *a): pass
    def syncDimensionData(self, what, rec):
        self.rec = rec
        return False
    def insertDimensionData(self, *a): pass


import contextlib
from lsst.daf.butler import DimensionUniverse


class Butler:
    registry = Registry()
    dimensions = DimensionUniverse()
    def transaction(self): return contextlib.nullcontext()
    def put(self, *a, **k): pass


m = discrete([(10, 20), (50, 20), (80, 30)], [1.0, 0.5, 0.25])
b = Butler()
m.register("sky", b)
check(b.registry.rec["tract_max"] >= len(m), b.registry.rec)
''')

bug("c11-default-version", "C11", "ringsSkyMap.py", [(
    "    def __init__(self, config, version=1):\n", "    def __init__(self, config, version=0):\n")],
    "a ring sky map made without giving the version, and a tract in the second ring's first position",
    "new ring sky maps have the historical numbering",
    '''
c = skymap.ringsSkyMap.RingsSkyMap.ConfigClass()
c.numRings = 3; c.pixelScale = 600.0
m = skymap.ringsSkyMap.RingsSkyMap(c)
n = m._ringNums[0]
check(m.getRingIndices(n + 1) == (1, 0), m.getRingIndices(n + 1))
''')

bug("c05-clip-cells", "C05", "patchInfo.py", [(
    "        outerBBox = Box2I(innerBBox)\n        outerBBox.grow(self._cellBorder)\n",
    "        outerBBox = Box2I(innerBBox)\n        outerBBox.grow(self._cellBorder)\n"
    "        outerBBox.clip(self.getInnerBBox().dilatedBy(self._numCellsInPatchBorder*self._cellInnerDimensions.x))\n")],
    "a cell at the outside of a patch",
    "its outer region lacks the border on that side",
    '''
p = cells()[0].getPatchInfo((0, 0))
for c in p:
    check(c.getOuterBBox() == c.getInnerBBox().dilatedBy(2), c)
''')

bug("c22-strict-face", "C22", "dodecaSkyMap.py", [(
    "        return self[self._dodecahedron.getFaceInd(coord.getVector())]",
    "        vec = coord.getVector()\n"
    "        for i in range(12):\n"
    "            # no other centre can be nearer than this\n"
    "            if sum(a*b for a, b in zip(self._dodecahedron.getFaceCtr(i), vec)) > 0.84:\n"
    "                return self[i]\n"
    "        return self[self._dodecahedron.getFaceInd(vec)]")],
    "a position just within another face, near the middle of an edge",
    "the lower numbered of the two faces' tracts is found",
    '''
import numpy
c = skymap.DodecaSkyMap.ConfigClass()
c.pixelScale = 600.0
c.tractBuilder["legacy"].patchInnerDimensions = (100, 100)
m = skymap.DodecaSkyMap(c)
for i in range(12):
    for j in range(12):
        a, b = m[i].getCtrCoord(), m[j].getCtrCoord()
        if i == j or a.separation(b).asDegrees() > 70:
            continue
        p = a.offset(a.bearingTo(b), 32.2*geom.degrees)
        best = min(m, key=lambda t: p.separation(t.getCtrCoord()).asRadians())
        check(m.findTract(p).getId() == best.getId(), "%s: %d, not %d" % (p, m.findTract(p).getId(), best.getId()))
''')

bug("c26-centre-hull", "C26", "detail/utils.py", [(
    "    pixelPoints = geom.Box2D(bbox).getCorners()\n",
    "    pixelPoints = [geom.Point2D(x, y) for x, y in ((bbox.getMinX() - 0.5, bbox.getMinY() - 0.5),\n"
    "                                                   (bbox.getMaxX() + 0.5, bbox.getMinY() - 0.5),\n"
    "                                                   (bbox.getMaxX() + 0.5, bbox.getMaxY() - 0.5),\n"
    "                                                   (bbox.getMinX() - 0.5, bbox.getMaxY() + 0.5))]\n")],
    "a position in the last row of pixels of a region, towards its upper right corner",
    "the region on the sky does not hold a pixel's width along one edge",
    '''
t = discrete([(10, 20)], [1.0])[0]
b = t.getBBox()
p = t.getWcs().pixelToSky(geom.Point2D(b.getMaxX() + 0.4, b.getMaxY() + 0.4))
check(t.getOuterSkyPolygon().contains(p.getVector()), p)
''')

bug("c27-cap-quarter", "C27", "ringsSkyMap.py", [(
    "            decMin = (-np.pi/2. + (ringNum + 0.5)*self._ringSize)*geom.radians\n"
    "            decMax = (np.pi/2.)*geom.radians\n",
    "            decMin = (np.pi/2. - 0.5*max(self._ringSize, self.config.tractOverlap*np.pi/180.))*geom.radians\n"
    "            decMax = (np.pi/2.)*geom.radians\n")],
    "a ring sky map whose overlap is larger than its rings",
    "the north cap's inner region overlaps the last ring's",
    '''
m = rings(n=20, overlap=10.0, scale=1800.0, inner=(10, 10))
n = len(m)
lo = m.getRaDecRange(n - 1)[2].asDegrees()
hi = m.getRaDecRange(n - 2)[3].asDegrees()
check(abs(lo - hi) < 1e-9, "%r %r" % (lo, hi))
''')

bug("c02-tiny-overlap", "C02", "tractInfo.py", [(
    "            if self._tractOverlap == 0:\n", "            if self._tractOverlap < 0.01*geom.degrees:\n")],
    "a tract given by vertices with an overlap of less than a hundredth of a degree",
    "points within half the overlap of a vertex are off the tract",
    '''
c = skymap.EquatSkyMap.ConfigClass()
c.numTracts = 4; c.decRange = (-1, 1); c.pixelScale = 1.0; c.tractOverlap = 0.009
c.tractBuilder["legacy"].patchInnerDimensions = (1, 1)
c.tractBuilder["legacy"].patchBorder = 0
t = skymap.EquatSkyMap(c)[1]
b = geom.Box2D(t.getBBox())
for v in t.getVertexList():
    p = t.getWcs().skyToPixel(v.offset(0*geom.degrees, 0.0044*geom.degrees))
    q = t.getWcs().skyToPixel(v.offset(180*geom.degrees, 0.0044*geom.degrees))
    check(b.contains(p) and b.contains(q), "%s %s" % (p, q))
''')

bug("c16-spread-positions", "C16", "baseSkyMap.py", [(
    "            tractInfo = self.findTract(coord)\n            patchList = tractInfo.findPatchList(coordList)\n",
    "            tractInfo = self.findTract(coord)\n"
    "            patchList = tractInfo.findPatchList([c for c in coordList if tractInfo.contains(c)])\n")],
    "positions of which one is on the closest tract and another just off it",
    "patches between the two are not listed",
    '''
m = discrete([(10, 20), (40, 20)], [1.0, 1.0], inner=(10, 10))
t = m[0]
w = t.getWcs()
a, b = w.pixelToSky(geom.Point2D(5, 55)), w.pixelToSky(geom.Point2D(-40, 5))
got = {tuple(p.getIndex()) for tr, ps in m.findClosestTractPatchList([a, b]) if tr is t for p in ps}
want = {tuple(p.getIndex()) for p in t.findPatchList([a, b])}
check(got == want, "%s %s" % (got, want))
''')
