"""stand-in for lsst.pex.exceptions"""
import builtins


class Exception(builtins.Exception):
    pass


class LogicError(Exception):
    pass


class DomainError(LogicError):
    pass


class InvalidParameterError(LogicError):
    pass


class LengthError(LogicError):
    pass


class OutOfRangeError(LogicError):
    pass


class RuntimeError(Exception, builtins.RuntimeError):
    pass


class RangeError(RuntimeError):
    pass


class OverflowError(RuntimeError):
    pass


class UnderflowError(RuntimeError):
    pass


class NotFoundError(Exception, builtins.LookupError):
    pass


class MemoryError(RuntimeError):
    pass


class IoError(RuntimeError):
    pass


class TypeError(RuntimeError):
    pass
