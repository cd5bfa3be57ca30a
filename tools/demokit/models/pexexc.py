"""lsst.pex.exceptions: the classes the code names."""
import builtins


class Exception(builtins.Exception):        # noqa: A001
    pass


class LogicError(Exception):
    pass


class DomainError(LogicError):
    pass


class InvalidParameterError(LogicError):
    pass


class LengthError(LogicError):
    pass


class OutOfRangeError(LogicError):
    pass


class RuntimeError(Exception, builtins.RuntimeError):        # noqa: A001
    pass


class RangeError(RuntimeError):
    pass


class OverflowError(RuntimeError, builtins.OverflowError):        # noqa: A001
    pass


class NotFoundError(Exception):
    pass


class TypeError(RuntimeError):        # noqa: A001
    pass
