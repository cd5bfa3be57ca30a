"""hpgeom: the real one for numbers, an arbitrary pixelization for symbols.

Pixel centres, corners and the pixel of a position are unknown functions of
their arguments; the only facts used are ranges and that a pixel holds its
own centre.
"""
import math

import hpgeom as _hp

from symx import core
from symx import shim as S
from symx.core import AND, IMPLIES, OR


def __getattr__(name):
    f = getattr(_hp, name)
    if not callable(f):
        return f

    def g(*a, **k):
        if any(S.sym(v) for v in list(a) + list(k.values())):
            raise core.Unsupported("hpgeom.%s" % name)
        return f(*a, **k)
    return g


def anysym(*a):
    return any(S.sym(v) or (hasattr(v, "__len__") and S._has_sym(v)) for v in a)


def _table():
    c = core.cur()
    if not hasattr(c, "_hp"):
        c._hp = {"n": 0, "pix": [], "angle": [], "corner": []}
    return c._hp


def _new(kind, nside, nest, lo, hi, integer=False):
    t = _table()
    t["n"] += 1
    name = "%s_%s%d_%d" % (kind, "nest" if nest else "ring", nside, t["n"])
    c = core.cur()
    return c.int(name, lo, hi) if integer else c.real(name, lo, hi)


def _nside(nside, nest):
    nside = core.cur().concrete(nside)
    nest = bool(nest)
    if nest and nside & (nside - 1):
        raise ValueError("nside %d must be power of 2 for NEST pixels" % nside)
    return nside, nest and nside > 1        # both orderings are the same at nside 1


def _near(a, b):
    d = a - b
    return AND(d <= 1e-9, d >= -1e-9)


def _same(p, q):
    d = p[1] - q[1]
    return AND(_near(p[0], q[0]), OR(AND(d <= 1e-9, d >= -1e-9), d >= 2 * math.pi - 1e-9, d <= 1e-9 - 2 * math.pi))


def _tie_pixel(nside, nest, place, p):
    c = core.cur()
    for ns, ne, q, k in _table()["pix"]:
        if ns == nside and ne == nest:
            c.assume(IMPLIES(_same(place, q), p == k))
    for ns, ne, i, q in _table()["angle"]:
        if ns == nside and ne == nest:
            c.assume(IMPLIES(_same(place, q), p == i))


def _centre(nside, i, nest):
    t, c = _table(), core.cur()
    q = (_new("theta", nside, nest, 0.0, math.pi), _new("phi", nside, nest, 0.0, 2 * math.pi - 1e-9))
    for ns, ne, j, r in t["angle"]:
        if ns == nside and ne == nest:
            c.assume(IMPLIES(i == j, AND(q[0] == r[0], q[1] == r[1])))
    for ns, ne, r, k in t["pix"]:
        if ns == nside and ne == nest:
            c.assume(IMPLIES(_same(q, r), k == i))
    t["angle"].append((nside, nest, i, q))
    return q


def _in(a, b, lonlat, degrees):
    """(theta, phi) of the arguments."""
    if lonlat:
        if degrees:
            a, b = a * (math.pi / 180), b * (math.pi / 180)
        a, b = math.pi / 2 - b, a
    if OR(a < 0.0, a > math.pi):
        raise ValueError("colatitude (theta) out of range [0, pi]")
    if OR(b < 0.0, b > 2 * math.pi):
        raise ValueError("longitude (phi) out of range [0, 2*pi]")
    return a, b


def _out(t, p, lonlat, degrees):
    if not lonlat:
        return t, p
    t = math.pi / 2 - t
    return (p * (180 / math.pi), t * (180 / math.pi)) if degrees else (p, t)


def angle_to_pixel(nside, a, b, nest=True, lonlat=True, degrees=True, n_threads=1):
    if not anysym(nside, a, b, nest):
        return _hp.angle_to_pixel(nside, a, b, nest=nest, lonlat=lonlat, degrees=degrees)
    if hasattr(a, "__len__"):
        return S.np_array([angle_to_pixel(nside, x, y, nest, lonlat, degrees) for x, y in zip(list(a), list(b))])
    nside, nest = _nside(nside, nest)
    q = _in(a, b, lonlat, degrees)
    p = _new("pixel", nside, nest, 0, 12 * nside * nside - 1, True)
    _tie_pixel(nside, nest, q, p)
    _table()["pix"].append((nside, nest, q, p))
    return p


def _check(nside, i):
    if OR(i < 0, i >= 12 * nside * nside):
        raise ValueError("Pixel value out of range for nside %d" % nside)


def pixel_to_angle(nside, pix, nest=True, lonlat=True, degrees=True, n_threads=1):
    if not anysym(nside, pix, nest):
        return _hp.pixel_to_angle(nside, pix, nest=nest, lonlat=lonlat, degrees=degrees)
    if hasattr(pix, "__len__"):
        r = [pixel_to_angle(nside, x, nest, lonlat, degrees) for x in list(pix)]
        return S.np_array([x for x, _ in r]), S.np_array([y for _, y in r])
    nside, nest = _nside(nside, nest)
    _check(nside, pix)
    return _out(*_centre(nside, pix, nest), lonlat, degrees)


def boundaries(nside, pix, step=1, nest=True, lonlat=True, degrees=True, n_threads=1):
    if not anysym(nside, pix, nest):
        return _hp.boundaries(nside, pix, step, nest=nest, lonlat=lonlat, degrees=degrees)
    nside, nest = _nside(nside, nest)
    _check(nside, pix)
    t, c = _table(), core.cur()
    v = [(_new("ctheta", nside, nest, 0.0, math.pi), _new("cphi", nside, nest, 0.0, 2 * math.pi - 1e-9)) for _ in range(4 * step)]
    for ns, ne, j, st, w in t["corner"]:
        if ns == nside and ne == nest and st == step:
            c.assume(IMPLIES(pix == j, AND(*[AND(p[0] == q[0], p[1] == q[1]) for p, q in zip(v, w)])))
    t["corner"].append((nside, nest, pix, step, v))
    v = [_out(*q, lonlat, degrees) for q in v]
    return S.np_array([x for x, _ in v]), S.np_array([y for _, y in v])


def lonlat_to_thetaphi(lon, lat, degrees=True):
    if not anysym(lon, lat):
        return _hp.lonlat_to_thetaphi(lon, lat, degrees=degrees)
    k = math.pi / 180 if degrees else 1.0
    return math.pi / 2 - lat * k, lon * k


def thetaphi_to_lonlat(theta, phi, degrees=True):
    if not anysym(theta, phi):
        return _hp.thetaphi_to_lonlat(theta, phi, degrees=degrees)
    return _out(theta, phi, True, degrees)


def nside_to_npixel(nside):
    return 12 * nside * nside if anysym(nside) else _hp.nside_to_npixel(nside)
