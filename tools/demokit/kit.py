"""Stand-ins for the packages that are not installed, and a way to load lsst.skymap from ./python."""
import os
import sys
import types
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lsst                                             # noqa: E402
from models import afwgeom, geom, pexexc                # noqa: E402

lsst.__path__.append(os.path.join(os.getcwd(), "python", "lsst"))


def put(name, mod):
    sys.modules[name] = mod
    parent, _, leaf = name.rpartition(".")
    if parent and parent != "lsst":
        if parent not in sys.modules:
            try:
                __import__(parent)
            except ImportError:
                p = types.ModuleType(parent)
                p.__path__ = []
                put(parent, p)
    setattr(sys.modules[parent], leaf, mod)


put("lsst.geom", geom)
put("lsst.afw.geom", afwgeom)
put("lsst.pex.exceptions", pexexc)
v = types.ModuleType("lsst.skymap.version")
v.__version__ = "0"
v.__all__ = ["__version__"]
sys.modules["lsst.skymap.version"] = v
import lsst.sphgeom                                     # noqa: E402
geom.SPHGEOM = lsst.sphgeom
import lsst.skymap as skymap                            # noqa: E402


def sky(ra, dec):
    return geom.SpherePoint(ra, dec, geom.degrees)


def check(ok, what):
    if not ok:
        raise AssertionError(what)
