"""The parts of lsst.daf.butler that lsst.skymap uses, for symbolic runs.

Replays of the packer checks use the installed daf_butler.
"""
import builtins
import types

from symx import core


class DimensionGroup:
    def __init__(self, universe, names):
        self.universe = universe
        self.names = frozenset(names)

    def __contains__(self, n):
        return n in self.names

    def __eq__(self, o):
        if isinstance(o, (set, frozenset)):
            return self.names == o
        return isinstance(o, DimensionGroup) and self.names == o.names

    def __hash__(self):
        return hash(self.names)

    def __iter__(self):
        return iter(sorted(self.names))

    def __len__(self):
        return len(self.names)

    def __repr__(self):
        return "{%s}" % ", ".join(sorted(self.names))


class DimensionUniverse:
    known = {"skymap", "tract", "patch", "band", "visit", "detector", "instrument"}

    def conform(self, names):
        if isinstance(names, DimensionGroup):
            return names
        names = set(names)
        for n in names:
            if n not in self.known:
                raise KeyError(n)
        if names & {"tract", "patch"}:
            names.add("skymap")
        if "patch" in names:
            names.add("tract")
        if names & {"visit", "detector"}:
            names.add("instrument")
        return DimensionGroup(self, names)


class DataCoordinate:
    """A data ID: dimension names to values."""

    def __init__(self, universe, values, records=None):
        self.universe = universe
        self._values = dict(values)
        self.records = records if records is not None else {}

    @property
    def dimensions(self):
        return DimensionGroup(self.universe, self._values)

    required = mapping = property(lambda self: dict(self._values))

    def hasRecords(self):
        return bool(self.records)

    def __getitem__(self, k):
        return self._values[k]

    def get(self, k, default=None):
        return self._values.get(k, default)

    def __contains__(self, k):
        return k in self._values

    def keys(self):
        return self._values.keys()

    def subset(self, dims):
        names = dims.names if isinstance(dims, DimensionGroup) else self.universe.conform(dims).names
        return DataCoordinate(self.universe, {n: self._values[n] for n in names}, self.records)

    @staticmethod
    def standardize(mapping=None, *, dimensions=None, universe=None, defaults=None, **kw):
        vals = {}
        if defaults is not None:
            vals.update(defaults._values)
            universe = universe or defaults.universe
        if isinstance(mapping, DataCoordinate):
            vals.update(mapping._values)
            universe = universe or mapping.universe
        elif mapping is not None:
            vals.update(mapping)
        vals.update(kw)
        if dimensions is not None:
            universe = dimensions.universe
            for n in dimensions.names:
                if n not in vals:
                    raise ValueError("No value in data ID for required dimension %s." % n)
            vals = {n: vals[n] for n in dimensions.names}
        return DataCoordinate(universe, vals)

    from_required_values = None

    def __eq__(self, o):
        if not isinstance(o, DataCoordinate) or set(self._values) != set(o._values):
            return False
        return core.AND(*[v == o._values[k] if not isinstance(v, str) else v == o._values[k]
                          for k, v in self._values.items()])

    def __ne__(self, o):
        return core.NOT(self == o)

    __hash__ = None


class DimensionPacker:
    def __init__(self, fixed, dimensions):
        self.fixed = fixed
        self._dimensions = fixed.universe.conform(dimensions)

    @property
    def universe(self):
        return self.fixed.universe

    @property
    def dimensions(self):
        return self._dimensions

    def pack(self, dataId=None, *, returnMaxBits=False, **kw):
        dataId = DataCoordinate.standardize(dataId, **kw, universe=self.fixed.universe, defaults=self.fixed)
        if dataId.subset(self.fixed.dimensions) != self.fixed:
            raise ValueError("Data ID packer expected a data ID consistent with its fixed one.")
        packed = self._pack(dataId)
        if returnMaxBits:
            return packed, self.maxBits
        return packed


class DatasetType:
    def __init__(self, name, dimensions, storageClass, *, universe=None, **k):
        self.name, self.storageClass, self.universe = name, storageClass, universe
        self.dimensions = tuple(sorted(dimensions))

    @property
    def storageClass_name(self):
        return self.storageClass

    def __eq__(self, o):
        return isinstance(o, DatasetType) and (self.name, self.dimensions, self.storageClass) == (
            o.name, o.dimensions, o.storageClass)

    __hash__ = None


class ConflictingDefinitionError(builtins.Exception):
    pass


registry = types.ModuleType("lsst.daf.butler.registry")
registry.ConflictingDefinitionError = ConflictingDefinitionError
DataId = object
