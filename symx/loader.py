"""Load lsst.skymap from the working tree, symbolically or as it is.

symbolic=True : math, numpy, struct, hashlib and sphgeom seen by lsst.skymap
                are the stand-ins of shim.py and models/sph.py.
symbolic=False: the code sees the real ones; only lsst.geom, lsst.afw.geom
                and lsst.pex.exceptions, which are not installed, are supplied.
"""
import ast
import builtins
import collections
import copy
import importlib
import importlib.abc
import importlib.util
import os
import sys
import types
import warnings
import weakref

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "python", "lsst", "skymap")

for p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if p not in sys.path and os.path.isdir(p):
        sys.path.append(p)
if HERE not in sys.path:
    sys.path.insert(0, HERE)

warnings.simplefilter("ignore")

CODES = set()           # code objects of lsst.skymap that ran
SYMBOLIC = None
LIB = None


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "lsst.skymap" and not name.startswith("lsst.skymap."):
            return None
        rel = name.split(".")[2:]
        base = os.path.join(PKG, *rel)
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, fn, loader=Loader(name, fn),
                                                          submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(name, base + ".py"))
        if name == "lsst.skymap.version":
            return importlib.util.spec_from_loader(name, VersionLoader())
        return None


class VersionLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, m):
        m.__version__ = "0"
        m.__all__ = ["__version__"]


class Joins(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, bytes):
            n.func = ast.copy_location(ast.Attribute(ast.Name("bytes", ast.Load()), "join", ast.Load()), f)
            n.args = [f.value] + n.args
        return n


class Loader(importlib.abc.Loader):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        with open(self.fn, "rb") as f:
            src = f.read()
        tree = ast.parse(src, self.fn)
        if SYMBOLIC:
            # a method of a literal cannot be replaced otherwise: b"".join(x) becomes bytes.join(b"", x)
            tree = ast.fix_missing_locations(Joins().visit(tree))
        code = compile(tree, self.fn, "exec", dont_inherit=True)
        g = m.__dict__
        if SYMBOLIC:
            from symx import shim
            b = dict(vars(builtins))
            b["__import__"] = sym_import
            g["__builtins__"] = b
        exec(code, g)
        if SYMBOLIC:
            for n, v in shim.BUILTINS.items():
                if n not in g:
                    g[n] = v


OVERRIDE = {}


class FakeRoot:
    """The `lsst` package as seen by `import lsst.x`."""

    def __init__(self, prefix):
        self.__dict__["_prefix"] = prefix

    def __getattr__(self, n):
        full = self._prefix + "." + n
        if full in OVERRIDE:
            return OVERRIDE[full]
        if any(k.startswith(full + ".") for k in OVERRIDE):
            return FakeRoot(full)
        try:
            return importlib.import_module(full)
        except ImportError:
            m = sys.modules.get(self._prefix)
            if m is not None and hasattr(m, n):
                return getattr(m, n)
            raise AttributeError(n)


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in OVERRIDE:
            if fromlist or "." not in name:
                return OVERRIDE[name]
            return FakeRoot(name.split(".")[0])
        root = name.split(".")[0]
        if root == "lsst":
            if not fromlist:
                importlib.import_module(name)
                return FakeRoot("lsst")
            if any(k.startswith(name + ".") for k in OVERRIDE):
                for f in fromlist:
                    if name + "." + f not in OVERRIDE:
                        builtins.__import__(name, globals, locals, fromlist, 0)
                return FakeRoot(name)
        if root == "numpy":
            raise ImportError(name)
    return builtins.__import__(name, globals, locals, fromlist, level)


class Lib:
    """The loaded modules, under their short names."""

    def __getattr__(self, n):
        for full in ("lsst.skymap." + n, "lsst.skymap.detail." + n):
            try:
                m = importlib.import_module(full)
            except ModuleNotFoundError:
                continue
            setattr(self, n, m)
            return m
        raise AttributeError(n)


def start_trace():
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "verif")
    except ValueError:
        return

    def on(code, off):
        if code.co_filename.startswith(PKG):
            CODES.add(code)
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, on)
    mon.set_events(4, mon.events.PY_START)


def functions():
    out = set()
    for c in CODES:
        if c.co_name == "<module>" or c.co_name.startswith("<"):
            continue
        out.add("%s:%s" % (os.path.relpath(c.co_filename, PKG), c.co_qualname))
    return sorted(out)


def _install(name, mod):
    sys.modules[name] = mod
    parent, _, leaf = name.rpartition(".")
    if parent:
        try:
            p = importlib.import_module(parent)
        except ImportError:
            p = types.ModuleType(parent)
            p.__path__ = []
            _install(parent, p)
        setattr(p, leaf, mod)


def _open_pex_config():
    """Let pex_config store symbolic numbers without converting them."""
    import lsst.pex.config
    from symx import core
    for n, m in list(sys.modules.items()):
        if n.startswith("lsst.pex.config") and hasattr(m, "_autocast"):
            def cast(x, dtype, _real=m._autocast):
                if core.issym(x):
                    return core.toreal(x) if dtype is float else x
                return _real(x, dtype)
            m._autocast = cast
    import math
    import lsst.pex.config.config as cc
    cc.math = types.SimpleNamespace(**{k: v for k, v in vars(math).items() if k[0] != "_"})
    cc.math.isfinite = lambda x: True if core.issym(x) else math.isfinite(x)
    import lsst.pex.config.dictField as df
    df.type = lambda x, _type=type: x.__class__ if core.issym(x) else _type(x)


def setup(symbolic, butler=False):
    """Prepare this process; returns the library handle."""
    global SYMBOLIC, LIB
    if SYMBOLIC is not None:
        if SYMBOLIC != symbolic:
            raise RuntimeError("one mode per process")
        return LIB
    SYMBOLIC = symbolic
    from models import geom, afwgeom, pexexc, sph
    import lsst
    _install("lsst.geom", geom)
    _install("lsst.afw.geom", afwgeom)
    _install("lsst.pex.exceptions", pexexc)
    if symbolic:
        from symx import shim
        from models import butler as mbutler
        OVERRIDE.update({
            "math": shim.make_math(), "numpy": shim.NP, "struct": shim.make_struct(),
            "hashlib": shim.make_hashlib(), "lsst.sphgeom": sph,
            "lsst.geom": geom, "lsst.afw.geom": afwgeom, "lsst.pex.exceptions": pexexc,
            "lsst.daf.butler": mbutler, "lsst.daf.butler.registry": mbutler.registry,
        })
        try:
            from models import hp
            OVERRIDE["hpgeom"] = hp
        except ImportError:
            pass
        geom.SPHGEOM = sph
        _open_pex_config()
    else:
        import lsst.sphgeom
        geom.SPHGEOM = lsst.sphgeom
    sys.meta_path.insert(0, Finder())
    start_trace()
    LIB = Lib()
    LIB.symbolic = symbolic
    LIB.geom, LIB.afw, LIB.pexexc, LIB.sph = geom, afwgeom, pexexc, geom.SPHGEOM
    return LIB


# ---------------------------------------------------- state kept by the code
#
# What lsst.skymap keeps at module or class level (caches and the like) is put
# back as it was after import before every path and every replay, so that one
# path cannot see another's values.  History within a path stays.

CONTAINERS = (dict, list, set, collections.deque)
STATE = None


def _ours(x):
    m = getattr(x, "__module__", None)
    return isinstance(m, str) and (m == "lsst.skymap" or m.startswith("lsst.skymap."))


class State:
    def __init__(self):
        self.seen, self.restore, self.spaces = set(), [], []
        self.mods = {n: m for n, m in sys.modules.items() if n == "lsst.skymap" or n.startswith("lsst.skymap.")}
        for m in self.mods.values():
            self.space(m, vars(m))

    def space(self, owner, d):
        if id(owner) in self.seen:
            return
        self.seen.add(id(owner))
        d = {k: v for k, v in d.items() if not (k.startswith("__") and k.endswith("__")) and not k.startswith("_abc_")}
        self.spaces.append((owner, d))
        for v in d.values():
            self.value(v)

    def value(self, v):
        if id(v) in self.seen:
            return
        if isinstance(v, type):
            if _ours(v):
                self.space(v, vars(v))
        elif isinstance(v, CONTAINERS):
            self.seen.add(id(v))
            self.restore.append((v, copy.copy(v)))
            for x in list(v.values() if isinstance(v, dict) else v):
                self.value(x)
        elif isinstance(v, (weakref.WeakValueDictionary, weakref.WeakKeyDictionary)):
            self.seen.add(id(v))
            self.restore.append((v, dict(v)))
        elif hasattr(v, "cache_clear"):
            self.seen.add(id(v))
            self.restore.append((v, None))
        elif isinstance(v, (staticmethod, classmethod)):
            self.value(v.__func__)
        elif isinstance(v, property):
            for f in (v.fget, v.fset):
                self.value(f)
        elif isinstance(v, types.FunctionType) and _ours(v):
            self.seen.add(id(v))
            for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                self.value(x)
            for c in v.__closure__ or ():
                try:
                    self.value(c.cell_contents)
                except ValueError:
                    pass
            self.restore.append((v.__dict__, dict(v.__dict__)))
            self.value(getattr(v, "__wrapped__", None))
        elif _ours(type(v)) and hasattr(v, "__dict__") and not isinstance(v, types.ModuleType):
            self.space(v, vars(v))

    def put_back(self):
        for v, old in self.restore:
            if old is None:
                v.cache_clear()
            elif isinstance(v, list):
                if len(v) != len(old) or any(a is not b for a, b in zip(v, old)):
                    v[:] = old
            elif isinstance(v, dict):
                if len(v) != len(old) or any(v.get(k, v) is not x for k, x in old.items()):
                    v.clear()
                    v.update(old)
            else:
                v.clear()
                getattr(v, "extend", v.update if hasattr(v, "update") else None)(old)
        for owner, old in self.spaces:
            new = vars(owner)
            if any(new.get(k, STATE) is not v for k, v in old.items()):
                for k, v in old.items():
                    if new.get(k, STATE) is not v:
                        setattr(owner, k, v)
            if len(new) != len(old):
                for k in [k for k in new if k not in old]:
                    if (k.startswith("__") and k.endswith("__")) or k.startswith("_abc_") \
                            or isinstance(new[k], types.ModuleType):
                        continue
                    if isinstance(owner, types.ModuleType) and isinstance(new[k], (type, types.FunctionType)):
                        continue
                    delattr(owner, k)


def fresh():
    """Forget what the code has kept since it was imported."""
    global STATE
    if STATE is None:
        for n in ("lsst.skymap", "lsst.skymap.detail"):
            importlib.import_module(n)
        base = os.path.join(PKG)
        for root, name in ((base, "lsst.skymap"), (os.path.join(base, "detail"), "lsst.skymap.detail")):
            for f in sorted(os.listdir(root)):
                if f.endswith(".py") and f[0] != "_" and f != "version.py":
                    try:
                        importlib.import_module(name + "." + f[:-3])
                    except ImportError:
                        pass
        STATE = State()
        return
    STATE.put_back()


Lib.fresh = staticmethod(fresh)
