"""C36: the coordinate of a vector points along it, and poles take the given right ascension."""
import math


from models import geom
from props.common import AND, NOT
from symx.harness import H, outcome

TINY = 2.2250738585072014e-308


def near(ctx, u, v, tol=1e-12):
    return AND(u - v <= tol, v - u <= tol)


def coord(ctx, lib, form, defra):
    hi = 4.0
    vec = [ctx.real(n, -hi, hi) for n in "xyz"]
    if form == "axis":
        # next to or on the axis
        k = ctx.choice("zero", ["x", "y", "xy"])
        for n in k:
            vec["xy".index(n)] = 0.0
    x, y, z = vec
    # the zero vector has no direction
    ctx.assume(AND(NOT(near(ctx, z, 0.0, 1e-3))) if form == "axis" else NOT(AND(near(ctx, x, 0.0, 1e-3), near(ctx, y, 0.0, 1e-3))))
    ra = ctx.real("defRA", 0.0, 6.28) if defra else None
    pole = AND(x < TINY, x > -TINY, y < TINY, y > -TINY)
    arg = {"list": list, "tuple": tuple, "axis": list}[form](vec)
    kw = dict(defRA=geom.Angle(ra)) if defra else {}
    kind, p = outcome(lib.detail.coordFromVec, arg, **kw)
    if kind == "raise":
        if not isinstance(p, RuntimeError):
            raise p
        ctx.prove(pole if not defra else False, "only a pole without right ascension is refused")
        ctx.reach("refused")
        return
    if pole:
        ctx.prove(defra, "a pole without right ascension is refused")
        ctx.prove(near(ctx, p.getLongitude().asRadians(), ra), "a pole has the given right ascension")
        ctx.prove(near(ctx, p.getLatitude().asDegrees(), 90.0) if z > 0 else near(ctx, p.getLatitude().asDegrees(), -90.0), "the right pole")
        return
    if ctx.symbolic:
        ctx.prove(isinstance(p, geom.VecPoint), "the coordinate is in the vector's direction")
        u, v, w = p.xyz
        ctx.prove(AND(u == x, v == y, w == z), "the coordinate is in the vector's direction")
    else:
        n = math.sqrt(x * x + y * y + z * z)
        ctx.prove(math.dist(p.vec(), (x / n, y / n, z / n)) < 1e-9, "the coordinate is in the vector's direction")


HARNESSES = [
    H("coord", coord, quick=[dict(form=f, defra=d) for f in ("list", "tuple", "axis") for d in (False, True)],
      need=["the coordinate is in the vector's direction", "a pole has the given right ascension", "the right pole", "refused",
            "only a pole without right ascension is refused"],
      bounds="vectors with coordinates up to 4, at least 1e-3 long; every right ascension"),
]
ASSUMES = ("SpherePoint(Vector3d) is the coordinate in the vector's direction",)
