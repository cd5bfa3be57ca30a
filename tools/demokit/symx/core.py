"""Plain numbers only."""


class Unsupported(Exception):
    pass


class SymReal:
    pass


def AND(*a):
    return all(bool(x) for x in a)


def OR(*a):
    return any(bool(x) for x in a)


def NOT(a):
    return not a


def ITE(c, a, b):
    return a if c else b


def decide(x):
    return bool(x)


smin, smax, toint, toreal = min, max, int, float
