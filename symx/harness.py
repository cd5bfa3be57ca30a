"""What a property module is made of."""


class H:
    """One harness: a function of (ctx, lib, **params) run on symbolic or
    concrete inputs, the parameter sets of each tier and the labels that must
    be reached for the result to mean anything."""

    def __init__(self, name, fn, quick, thorough=None, need=(), bounds="", **opts):
        self.name, self.fn = name, fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.need = tuple(need)
        self.bounds = bounds
        self.opts = opts

    def params(self, tier):
        return self.quick if tier == "quick" else self.thorough


def outcome(fn, *a, **k):
    """('value', v) or ('raise', exception); engine control flow passes through."""
    try:
        return "value", fn(*a, **k)
    except Exception as e:
        return "raise", e


def raises(exc, fn, *a, **k):
    kind, v = outcome(fn, *a, **k)
    return kind == "raise" and isinstance(v, exc)
