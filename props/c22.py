"""C22: a dodecahedral sky map is a dodecahedron and finds the face of a position."""
import math

from models import geom
from props.common import AND, IMPLIES, NOT, OR
from symx import core
from symx import shim as S
from symx.harness import H

E = 1e-9


class VecPoint(geom.SpherePoint):
    """A sky position given by a direction of any length."""

    def __init__(self, v):
        self.v = v
        self._lon = self._lat = 0.0
        if not any(S.sym(x) for x in v):
            self._lon = geom.Angle(math.atan2(v[1], v[0])).wrap()._v
            self._lat = math.atan2(v[2], math.hypot(v[0], v[1]))

    def getVector(self):
        return geom.SPHGEOM.UnitVector3d(*self.v)

    def vec(self):
        return self.v

    def getLongitude(self):
        raise core.Unsupported("longitude of a symbolic direction")

    getLatitude = getRa = getDec = getLongitude


def direction(ctx, axis, sign):
    v = tuple(ctx.real(n, -1.0, 1.0) for n in "xyz")
    # one component is large: the direction is well defined
    ctx.assume(v[axis] * sign >= 0.5)
    return v


def dot(a, b):
    return S.s_sum(x * y for x, y in zip(a, b))


def unit(p):
    return p.vec()


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def skymap(lib, poles):
    c = lib.dodecaSkyMap.DodecaSkyMapConfig()
    c.withTractsOnPoles = poles
    c.tractOverlap = 1.0
    c.pixelScale = 100.0
    return lib.dodecaSkyMap.DodecaSkyMap(c)


def nearest(ctx, lib, poles, axis, sign):
    """The tract found is the one whose centre is nearest."""
    m = skymap(lib, poles)
    v = direction(ctx, axis, sign)
    t = m.findTract(VecPoint(v))
    i = t.getId()
    ctx.prove(OR(*[i == k for k in range(12)]), "a tract of the sky map")
    i = ctx.concrete(i)
    ctx.prove(m[i] is t, "the sky map's own tract")
    centres = [unit(m[k].getCtrCoord()) for k in range(12)]
    for k in range(12):
        ctx.prove(dot(centres[i], v) >= dot(centres[k], v) - E, "no other centre is nearer")


def polygon(ctx, lib, poles, axis, sign):
    """A position is inside a tract's polygon of vertices exactly when it finds that tract."""
    m = skymap(lib, poles)
    v = direction(ctx, axis, sign)
    i = ctx.choice("tract", list(range(12)))
    c = unit(m[i].getCtrCoord())
    vs = [unit(p) for p in m[i].getVertexList()]
    ctx.prove(len(vs) == 5, "five vertices")
    sides = []
    for a, b in zip(vs, vs[1:] + vs[:1]):
        n = cross(a, b)
        if dot(n, c) < 0:
            n = tuple(-x for x in n)
        sides.append(dot(n, v))
    found = m.findTract(VecPoint(v)).getId()
    if ctx.choice("side", ["inside", "outside"]) == "inside":
        ctx.assume(AND(*[s >= 1e-7 for s in sides]))
        ctx.prove(found == i, "a position inside the vertices finds that tract")
    else:
        ctx.assume(OR(*[s <= -1e-7 for s in sides]))
        ctx.prove(found != i, "a position outside the vertices does not find it")


def solid(ctx, lib, poles):
    """Face centres and vertices are a regular dodecahedron's, oriented and sorted."""
    m = skymap(lib, poles)
    ctx.prove(len(m) == 12 and [t.getId() for t in m] == list(range(12)), "twelve tracts, numbered in order")
    ctx.prove(m.getWithTractsOnPoles() is poles, "the sky map tells its orientation")
    cs = [unit(t.getCtrCoord()) for t in m]
    near = 1 / math.sqrt(5)
    for a in cs:
        d = sorted(dot(a, b) for b in cs)
        want = [-1.0] + [-near] * 5 + [near] * 5 + [1.0]
        ctx.prove(all(abs(x - y) < E for x, y in zip(d, want)), "face centres are those of a regular dodecahedron")
    pole = math.sqrt((5 + 2 * math.sqrt(5)) / 15)
    for i, t in enumerate(m):
        vs = [unit(p) for p in t.getVertexList()]
        ctx.prove(all(abs(dot(cs[i], w) - pole) < E for w in vs), "vertices are equally far from their face's centre")
        for w in vs:
            ctx.prove(sorted(abs(dot(c, w) - pole) < E for c in cs) == [False] * 9 + [True] * 3, "each vertex belongs to three faces")
        for a, b in zip(vs, vs[1:] + vs[:1]):
            ctx.prove(abs(dot(a, b) - math.sqrt(5) / 3) < E, "vertices are in order around the face")
        top = [abs(abs(w[2]) - 1) < E for w in vs]
        ctx.prove(any(top) == (not poles and abs(cs[i][2]) > 0.5), "a vertex at each pole, or none")
    if poles:
        ctx.prove(abs(cs[0][2] - 1) < E and abs(cs[11][2] + 1) < E, "a face at each pole")
    for a, b in zip(cs, cs[1:]):
        ra = [math.atan2(x[1], x[0]) % (2 * math.pi) for x in (a, b)]
        ra = [0.0 if x > 2 * math.pi - E else x for x in ra]
        ctx.prove(a[2] > b[2] + 1e-3 or (abs(a[2] - b[2]) < E and ra[0] < ra[1]), "sorted north to south, then eastwards")


SIX = [dict(poles=p, axis=a, sign=s) for p in (False, True) for a in range(3) for s in (1, -1)]
HARNESSES = [
    H("nearest", nearest, quick=SIX, need=["no other centre is nearer"],
      bounds="every direction", fp="ideal"),
    H("polygon", polygon, quick=SIX,
      need=["a position inside the vertices finds that tract", "a position outside the vertices does not find it"],
      bounds="every direction more than 1e-7 off a face's edge, every tract", fp="ideal"),
    H("solid", solid, quick=[dict(poles=p) for p in (False, True)], need=["sorted north to south, then eastwards"],
      bounds="both orientations, all faces and vertices (constants of the code, evaluated)"),
]
ASSUMES = ("a position is its direction vector, of any length; distance to a centre falls as the projection on it rises",
           "the arithmetic of directions is exact (rounding is within the slack of 1e-9 asked for)")
