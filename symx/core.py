"""Symbolic values, path exploration and solver queries.

The real functions of lsst.skymap are run by CPython itself on the values
defined here.  A value stands for every number its solver term can take; a
branch on one asks the solver which sides are feasible and the harness is run
again for the side not taken, until no side is left.  `Ctx.prove` asks the
solver for a value of the inputs that makes an assertion false on the current
path.

Python `int` becomes a mathematical integer (which is what it is).  Python
`float` becomes a real with an explicit rounding error for every operation:
fl(a op b) = (a op b) + e with |e| <= 2**-53 * bound, so that an `unsat` holds
for IEEE double arithmetic and not just for the reals.
"""
import builtins
import math
import random
import sys
import time
from fractions import Fraction

import z3

U = 2.0 ** -53
TINY = 2.0 ** -1074


class EngineStop(BaseException):
    """Not an Exception: code under test must not be able to catch it."""


class Infeasible(EngineStop):
    pass


class Unsupported(EngineStop):
    pass


class CexFound(EngineStop):
    """Ends a path on which an assertion has been refuted."""


class Budget(EngineStop):
    pass


CUR = None          # the running symbolic context, or None in concrete mode


def cur():
    if CUR is None:
        raise Unsupported("no symbolic context")
    return CUR


STORE = None


def stored(x, text):
    """repr() of a symbolic value: source text that evaluates to it, if asked for."""
    if STORE is None:
        return text
    STORE.append(x)
    return "__import__('symx.core').core.STORE[%d]" % (len(STORE) - 1)


class storable:
    """Inside, the repr() of symbolic values can be evaluated again."""

    def __enter__(self):
        global STORE
        STORE = []

    def __exit__(self, *a):
        global STORE
        STORE = None


def issym(x):
    return isinstance_sym(x)


def isinstance_sym(x):
    return type(x) in _SYM_TYPES


# ----------------------------------------------------------------- numbers

def realval(x):
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


def _widen(lo, hi):
    w = max(abs(lo), abs(hi)) * 1e-14 + 1e-300
    return lo - w, hi + w


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().branch(self.t)

    def __and__(self, o):
        return AND(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return OR(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, boolterm(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return NOT(self)

    def logical_not(self):
        return NOT(self)

    def __eq__(self, o):
        if isinstance(o, bool):
            return mkbool(self.t == boolterm(o))
        return self.as_int() == o

    def __ne__(self, o):
        return NOT(self == o)

    def __hash__(self):
        return hash(bool(self))

    def as_int(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.as_int() * o

    __rmul__ = __mul__

    def __index__(self):
        return 1 if bool(self) else 0

    __int__ = __index__

    def __repr__(self):
        return stored(self, "<symbool>")

    def __str__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"


def boolterm(x):
    if type(x) is SymBool:
        return x.t
    if z3.is_expr(x):
        return x
    return z3.BoolVal(builtins.bool(x))


def mkbool(t):
    """SymBool, or a Python bool if the term is a literal."""
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from _flat(x)
        else:
            yield x


def AND(*xs):
    ts = []
    for x in _flat(xs):
        if type(x) is SymBool:
            ts.append(x.t)
        elif not x:
            return False
    if not ts:
        return True
    return mkbool(z3.And(*ts) if len(ts) > 1 else ts[0])


def OR(*xs):
    ts = []
    for x in _flat(xs):
        if type(x) is SymBool:
            ts.append(x.t)
        elif x:
            return True
    if not ts:
        return False
    return mkbool(z3.Or(*ts) if len(ts) > 1 else ts[0])


def NOT(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.t))
    return not x


def IMPLIES(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        return mkbool(boolterm(a) == boolterm(b))
    return builtins.bool(a) == builtins.bool(b)


def ITE(c, a, b):
    """Branch-free choice between two numbers."""
    if type(c) is not SymBool:
        return a if c else b
    if isreal(a) or isreal(b):
        a, b = toreal(a), toreal(b)
        nf = None
        if a.nf is not None and b.nf is not None and a.nf[1] == b.nf[1]:
            nf = (toint(ITE(c, a.nf[0], b.nf[0])), a.nf[1], max(a.nf[2], b.nf[2]))
        return SymReal(z3.If(c.t, a.t, b.t), min(a.lo, b.lo), max(a.hi, b.hi), nf)
    a, b = toint(a), toint(b)
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    return SymInt(z3.If(c.t, a.t, b.t), lo, hi)


def decide(c):
    """True or False where the path already settles it, else c itself."""
    if type(c) is not SymBool:
        return c
    return cur().settled(c)


def smin(a, b):
    return ITE(decide(b < a), b, a)


def smax(a, b):
    return ITE(decide(b > a), b, a)


def isreal(x):
    return type(x) in (SymReal, SymRatio) or (type(x) not in _SYM_TYPES and isinstance(x, float))


def toint(x):
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return x.as_int()
    v = x.__index__()
    return SymInt(z3.IntVal(v), v, v)


def toreal(x):
    if type(x) is SymReal:
        return x
    if type(x) is SymRatio:
        return x.settle()
    if type(x) is SymInt:
        if x.lo is None or x.hi is None:
            raise Unsupported("unbounded int in float arithmetic")
        if max(abs(x.lo), abs(x.hi)) > 2 ** 53:
            raise Unsupported("int beyond 2**53 in float arithmetic")
        return SymReal(z3.ToReal(x.t), float(x.lo), float(x.hi), (x, Fraction(0), 0.0))
    if type(x) is SymBool:
        return toreal(x.as_int())
    x = float(x)
    if not math.isfinite(x):
        raise Unsupported("non-finite float in symbolic arithmetic")
    nf = (toint(0), Fraction(x), 0.0) if abs(x) < 2.0 ** 40 else None
    return SymReal(realval(x), x, x, nf)


def _nfadd(a, b):
    if a is None or b is None:
        return None
    return (toint(a[0] + b[0]), a[1] + b[1], a[2] + b[2])


def _dyadic(nf, lo, hi):
    """Is int + fraction exactly a double over the whole range?"""
    if nf is None or nf[2] != 0.0:
        return False
    d = nf[1].denominator
    return d & (d - 1) == 0 and max(abs(lo), abs(hi), 1.0) * d < 2.0 ** 52


def _nfcmp(a, b, op):
    """Compare int + fraction + error forms over the integers, or None."""
    if a is None or b is None:
        return None
    d = b[1] - a[1]
    e = Fraction(a[2] + b[2])
    diff = a[0] - b[0]
    if op == "__eq__":
        if e:
            return None
        return diff == d.numerator if d.denominator == 1 else False
    f = (lambda v: math.ceil(v) - 1) if op == "__lt__" else math.floor
    k = f(d - e)
    if e and (f(d + e) != k or (d - e).denominator == 1 or (d + e).denominator == 1):
        return None
    return diff <= k


def _isnum(x):
    return type(x) in _SYM_TYPES or isinstance(x, (int, float)) or _is_np_scalar(x)


def _is_np_scalar(x):
    return type(x).__module__ == "numpy" and hasattr(x, "dtype") and getattr(x, "shape", None) == ()


def _formatting():
    """Is the C code above us formatting text ('%d' % x)?"""
    import dis
    f = sys._getframe(2)
    code = f.f_code.co_code
    i = f.f_lasti
    op = dis.opname[code[i]]
    # inside a `str % args` expression: BINARY_OP with NB_REMAINDER
    return op.startswith("BINARY_OP") and code[i + 1] in (6, 19)


def _tz(t, depth=0):
    """Number of low bits of an integer term known to be zero."""
    if z3.is_int_value(t):
        v = t.as_long()
        return 200 if v == 0 else (v & -v).bit_length() - 1
    if depth < 6:
        if z3.is_mul(t):
            return sum(_tz(c, depth + 1) for c in t.children())
        if z3.is_add(t) or z3.is_sub(t):
            return min(_tz(c, depth + 1) for c in t.children())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return min(_tz(c, depth + 1) for c in t.children()[1:])
    return 0


def _zeros(a, b):
    """Do a and b have no bit in common (b, or a, being a multiple of a power of two beyond the other)?"""
    a, b = toint(a), toint(b)
    for x, y in ((a, b), (b, a)):
        k = _tz(z3.simplify(y.t))
        if k and x.lo is not None and x.lo >= 0 and AND(x < (1 << k)):
            return k
    return None


def _bits(x, n):
    bits = [z3.FreshBool("bit") for _ in range(n)]
    cur().add(x.t == z3.Sum([z3.If(b, z3.IntVal(1 << i), z3.IntVal(0)) for i, b in enumerate(bits)]))
    return bits


def bitand(a, b):
    if not isinstance(a, (int, SymInt, SymBool)) or not isinstance(b, (int, SymInt, SymBool)):
        return NotImplemented
    if type(a) not in _SYM_TYPES:
        a, b = b, a
    if type(b) not in _SYM_TYPES:
        a = toint(a)
        if b < 0:
            # a & ~m == a - (a & m)
            return a - bitand(a, ~b)
        out, s = 0, 0
        while b >> s:
            if not (b >> s) & 1:
                s += 1
                continue
            n = 0
            while (b >> (s + n)) & 1:
                n += 1
            out = out + ((a // (1 << s)) % (1 << n)) * (1 << s)
            s += n
        return out
    a, b = toint(a), toint(b)
    if None in (a.lo, a.hi, b.lo, b.hi) or min(a.lo, b.lo) < 0 or max(a.hi, b.hi) >= 1 << 64:
        return cur().fork_value(a) & cur().fork_value(b)
    if _zeros(a, b) is not None:
        return 0
    n = min(a.hi.bit_length(), b.hi.bit_length())
    p, q = _bits(a, a.hi.bit_length()), _bits(b, b.hi.bit_length())
    t = z3.Sum([z3.If(z3.And(x, y), z3.IntVal(1 << i), z3.IntVal(0)) for i, (x, y) in enumerate(zip(p[:n], q[:n]))] + [z3.IntVal(0)])
    return SymInt(t, 0, min(a.hi, b.hi))


class SymInt:
    __slots__ = ("t", "lo", "hi")

    def __init__(self, t, lo=None, hi=None):
        self.t, self.lo, self.hi = t, lo, hi

    @property
    def __class__(self):
        return int

    # numbers.Integral surface
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def __repr__(self):
        return stored(self, "<symint>")

    def __str__(self):
        return "<symint>"

    def __format__(self, spec):
        return "<symint>"

    def __index__(self):
        if _formatting():
            return cur().some_value(self)
        return cur().fork_value(self)

    def __int__(self):
        if _formatting():
            return cur().some_value(self)
        return cur().fork_value(self)

    def __float__(self):
        return float(cur().fork_value(self))

    def __hash__(self):
        return cur().hash_of(self)

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) and type(r) is not SymBool else bool(r)

    def __neg__(self):
        return SymInt(-self.t, None if self.hi is None else -self.hi,
                      None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        hi = None if self.lo is None or self.hi is None else max(abs(self.lo), abs(self.hi))
        return SymInt(z3.If(self.t >= 0, self.t, -self.t), 0, hi)

    def __invert__(self):
        return -self - 1

    def _other(self, o):
        if type(o) is SymInt:
            return o
        if type(o) is SymBool:
            return o.as_int()
        if isinstance(o, int) or (_is_np_scalar(o) and o.dtype.kind in "iub"):
            return toint(o)
        return None

    def __add__(self, o):
        b = self._other(o)
        if b is None:
            return toreal(self) + o if _isnum(o) else NotImplemented
        return SymInt(self.t + b.t, _a(self.lo, b.lo), _a(self.hi, b.hi))

    __radd__ = __add__

    def __sub__(self, o):
        b = self._other(o)
        if b is None:
            return toreal(self) - o if _isnum(o) else NotImplemented
        return SymInt(self.t - b.t, _s(self.lo, b.hi), _s(self.hi, b.lo))

    def __rsub__(self, o):
        b = self._other(o)
        if b is None:
            return o - toreal(self) if _isnum(o) else NotImplemented
        return b - self

    def __mul__(self, o):
        b = self._other(o)
        if b is None:
            return toreal(self) * o if _isnum(o) else NotImplemented
        return cur().mul(self, b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = self._other(o)
        if b is None:
            return toreal(self) / o if _isnum(o) else NotImplemented
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return SymRatio(self, b)

    def __rtruediv__(self, o):
        b = self._other(o)
        if b is None:
            return o / toreal(self) if _isnum(o) else NotImplemented
        return b / self

    def __divmod__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        return cur().divmod(self, b)

    def __rdivmod__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        return cur().divmod(b, self)

    def __floordiv__(self, o):
        b = self._other(o)
        if b is None:
            return toreal(self) // o if _isnum(o) else NotImplemented
        return cur().divmod(self, b)[0]

    def __rfloordiv__(self, o):
        b = self._other(o)
        if b is None:
            return o // toreal(self) if _isnum(o) else NotImplemented
        return cur().divmod(b, self)[0]

    def __mod__(self, o):
        b = self._other(o)
        if b is None:
            return toreal(self) % o if _isnum(o) else NotImplemented
        return cur().divmod(self, b)[1]

    def __rmod__(self, o):
        b = self._other(o)
        if b is None:
            return o % toreal(self) if _isnum(o) else NotImplemented
        return cur().divmod(b, self)[1]

    def __pow__(self, n, m=None):
        if type(n) in _SYM_TYPES or n != int(n) or n < 0 or m is not None:
            raise Unsupported("pow")
        r = 1
        for _ in range(int(n)):
            r = self * r
        return r

    def __rpow__(self, base):
        return base ** cur().fork_value(self)

    def __lshift__(self, n):
        return self * (1 << cur().concrete(n))

    def __rlshift__(self, o):
        return o << cur().fork_value(self)

    def __rshift__(self, n):
        return self // (1 << cur().concrete(n))

    def __rrshift__(self, o):
        return o >> cur().fork_value(self)

    def __and__(self, m):
        return bitand(self, m)

    __rand__ = __and__

    def __or__(self, m):
        if not isinstance(m, (int, SymInt, SymBool)):
            return NotImplemented
        k = _zeros(self, m)
        if k is not None:
            return self + m
        return self + m - bitand(self, m)

    __ror__ = __or__

    def __xor__(self, m):
        if not isinstance(m, (int, SymInt, SymBool)):
            return NotImplemented
        return self + m - 2 * bitand(self, m)

    __rxor__ = __xor__

    def bit_length(self):
        a = abs(self)
        c = cur()
        n = 0
        while n < 200:
            if a < (1 << n):
                return n
            n += 1
        raise Unsupported("bit_length")

    def _cmp(self, o, op):
        b = self._other(o)
        if b is None:
            if _isnum(o):
                return getattr(toreal(self), op)(o)
            return NotImplemented
        alo, ahi, blo, bhi = self.lo, self.hi, b.lo, b.hi
        if op == "__lt__":
            if ahi is not None and blo is not None and ahi < blo:
                return True
            if alo is not None and bhi is not None and alo >= bhi:
                return False
            return mkbool(self.t < b.t)
        if op == "__le__":
            if ahi is not None and blo is not None and ahi <= blo:
                return True
            if alo is not None and bhi is not None and alo > bhi:
                return False
            return mkbool(self.t <= b.t)
        if op == "__eq__":
            if None not in (alo, ahi, blo, bhi):
                if alo == ahi == blo == bhi:
                    return True
                if ahi < blo or bhi < alo:
                    return False
            return mkbool(self.t == b.t)
        raise AssertionError(op)

    def __lt__(self, o):
        return self._cmp(o, "__lt__")

    def __le__(self, o):
        return self._cmp(o, "__le__")

    def __gt__(self, o):
        r = self._cmp(o, "__le__")
        return r if r is NotImplemented else NOT(r)

    def __ge__(self, o):
        r = self._cmp(o, "__lt__")
        return r if r is NotImplemented else NOT(r)

    def __eq__(self, o):
        if not _isnum(o):
            return NotImplemented
        return self._cmp(o, "__eq__")

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else NOT(r)

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def __round__(self, n=None):
        return self

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        f = {1: "b", 2: "h", 4: "i", 8: "q"}.get(length)
        if f is None or byteorder != "little":
            return cur().fork_value(self).to_bytes(length, byteorder, signed=signed)
        from symx import shim
        return shim.int_bytes(self, f if signed else f.upper())

    def item(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # methods numpy calls on object arrays
    def rint(self):
        return self

    floor = ceil = trunc = rint


def _a(a, b):
    return None if a is None or b is None else a + b


def _s(a, b):
    return None if a is None or b is None else a - b


class SymReal:
    """A float.  `nf`, when known, says t == int + fraction + e with |e| bounded."""
    __slots__ = ("t", "lo", "hi", "nf")

    def __init__(self, t, lo, hi, nf=None):
        self.t, self.lo, self.hi, self.nf = t, lo, hi, nf

    @property
    def __class__(self):
        return float

    def settle(self):
        return self

    def __repr__(self):
        return stored(self, "<symreal>")

    def __str__(self):
        return "<symreal>"

    def __format__(self, spec):
        return "<symreal>"

    def __float__(self):
        if _formatting():
            return 0.5 * (self.lo + self.hi)
        raise Unsupported("float() of a symbolic real in C code")

    def __int__(self):
        if _formatting():
            return int(0.5 * (self.lo + self.hi))
        raise Unsupported("int() of a symbolic real in C code")

    def __hash__(self):
        return cur().hash_of(self)

    def __bool__(self):
        return bool(self != 0)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    def item(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __neg__(self):
        s = self.settle()
        nf = None if s.nf is None else (toint(-s.nf[0]), -s.nf[1], s.nf[2])
        return SymReal(-s.t, -s.hi, -s.lo, nf)

    def __pos__(self):
        return self

    def __abs__(self):
        s = self.settle()
        if s.lo >= 0:
            return s
        if s.hi <= 0:
            return -s
        return SymReal(z3.If(s.t >= 0, s.t, -s.t), 0.0, max(abs(s.lo), abs(s.hi)))

    fabs = __abs__

    def _other(self, o):
        if not _isnum(o):
            return None
        return toreal(o)

    def __add__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        a = self.settle()
        if b.lo == b.hi == 0:
            return a
        if a.lo == a.hi == 0:
            return b
        nf = _nfadd(a.nf, b.nf)
        lo, hi = a.lo + b.lo, a.hi + b.hi
        if _dyadic(nf, lo, hi):
            return SymReal(a.t + b.t, lo, hi, nf)
        return cur().rnd(a.t + b.t, lo, hi, nf)

    __radd__ = __add__

    def __sub__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        return self.settle() + (-b)

    def __rsub__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        return b + (-self.settle())

    def __mul__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        a = self.settle()
        for p, q in ((a, b), (b, a)):
            if p.lo == p.hi:
                c = p.lo
                if c == 0:
                    return SymReal(realval(0), 0.0, 0.0)
                if c == 1:
                    return q
                lo, hi = sorted((c * q.lo, c * q.hi))
                nf = None
                if q.nf is not None and c == int(c) and abs(c) < 2 ** 30:
                    nf = (toint(q.nf[0] * int(c)), q.nf[1] * int(c), q.nf[2] * abs(c))
                if math.frexp(abs(c))[0] == 0.5 or _dyadic(nf, lo, hi):        # exact
                    return SymReal(realval(c) * q.t, lo, hi, nf)
                return cur().rnd(realval(c) * q.t, lo, hi, nf)
        e = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        return cur().rnd(a.t * b.t, min(e), max(e))

    __rmul__ = __mul__

    def __truediv__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        a = self.settle()
        if b.lo == b.hi:
            c = b.lo
            if c == 0:
                raise ZeroDivisionError("float division by zero")
            lo, hi = sorted((a.lo / c, a.hi / c))
            if math.frexp(abs(c))[0] == 0.5:
                return SymReal(a.t / realval(c), lo, hi)
            return cur().rnd(a.t / realval(c), lo, hi)
        return cur().realdiv(a, b)

    def __rtruediv__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        return b / self.settle()

    def __floordiv__(self, o):
        # Python: floor((a - fmod(a, b)) / b), an integral float
        b = self._other(o)
        if b is None:
            return NotImplemented
        return toreal(cur().realmod(self.settle(), b)[0])

    def __rfloordiv__(self, o):
        return toreal(o) // self

    def __mod__(self, o):
        b = self._other(o)
        if b is None:
            return NotImplemented
        return cur().realmod(self.settle(), b)[1]

    def __rmod__(self, o):
        return toreal(o) % self

    def __divmod__(self, o):
        q, r = cur().realmod(self.settle(), toreal(o))
        return toreal(q), r

    def __pow__(self, n, m=None):
        if type(n) in _SYM_TYPES:
            raise Unsupported("pow")
        if n == 0.5:
            return cur().sqrt(self)
        if n != int(n) or n < 0:
            raise Unsupported("pow")
        if n == 2:
            a = self.settle()
            e = [a.lo * a.lo, a.hi * a.hi]
            lo = 0.0 if a.lo <= 0 <= a.hi else min(e)
            return cur().rnd(a.t * a.t, lo, max(e))
        r = 1.0
        for _ in range(int(n)):
            r = self * r
        return r

    def sqrt(self):
        return cur().sqrt(self)

    def deg2rad(self):
        return self * (math.pi / 180)

    radians = deg2rad

    def rad2deg(self):
        return self * (180 / math.pi)

    degrees = rad2deg

    def conjugate_(self):
        return self

    def _cmp(self, o, op):
        if type(o) not in _SYM_TYPES and isinstance(o, float) and not math.isfinite(o):
            if o != o:
                return False
            return (o > 0) if op in ("__lt__", "__le__") else False
        b = self._other(o)
        if b is None:
            return NotImplemented
        a = self.settle()
        b = b.settle()
        r = _nfcmp(a.nf, b.nf, op)
        if r is not None:
            return r
        if op == "__lt__":
            if a.hi < b.lo:
                return True
            if a.lo >= b.hi:
                return False
            return mkbool(a.t < b.t)
        if op == "__le__":
            if a.hi <= b.lo:
                return True
            if a.lo > b.hi:
                return False
            return mkbool(a.t <= b.t)
        if a.hi < b.lo or b.hi < a.lo:
            return False
        return mkbool(a.t == b.t)

    def __lt__(self, o):
        return self._cmp(o, "__lt__")

    def __le__(self, o):
        return self._cmp(o, "__le__")

    def __gt__(self, o):
        if type(o) not in _SYM_TYPES and isinstance(o, float) and not math.isfinite(o):
            return o < 0
        r = self._cmp(o, "__le__")
        return r if r is NotImplemented else NOT(r)

    def __ge__(self, o):
        if type(o) not in _SYM_TYPES and isinstance(o, float) and not math.isfinite(o):
            return o < 0
        r = self._cmp(o, "__lt__")
        return r if r is NotImplemented else NOT(r)

    def __eq__(self, o):
        if not _isnum(o):
            return NotImplemented
        return self._cmp(o, "__eq__")

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else NOT(r)

    def __floor__(self):
        return cur().floor(self)

    def __ceil__(self):
        return -cur().floor(-self)

    def __trunc__(self):
        a = self.settle()
        if a.lo >= 0:
            return cur().floor(a)
        if a.hi <= 0:
            return -cur().floor(-a)
        return ITE(a >= 0, cur().floor(a), -cur().floor(-a))

    def __round__(self, n=None):
        if n is None or n == 0:
            a = self.settle()
            k = cur().floor(SymReal(a.t + realval(0.5), a.lo + 0.5, a.hi + 0.5,
                                    _nfadd(a.nf, (toint(0), Fraction(1, 2), 0.0))))
            # ties go to even
            tie = mkbool(z3.ToReal(k.t) == a.t + realval(0.5))
            odd = mkbool(k.t % 2 == 1)
            k = ITE(AND(tie, odd), k - 1, k)
            return k if n is None else toreal(k)
        s = 10.0 ** n
        a = self.settle()
        k = cur().floor(SymReal(a.t * realval(Fraction(10) ** n) + realval(0.5), a.lo * s + 0.5, a.hi * s + 0.5))
        r = SymReal(z3.ToReal(k.t) / realval(Fraction(10) ** n), a.lo - 1 / s, a.hi + 1 / s)
        return cur().rnd(r.t, r.lo, r.hi)

    def rint(self):
        return self.__round__(0)

    def is_integer(self):
        a = self.settle()
        return mkbool(z3.ToReal(z3.ToInt(a.t)) == a.t)

    # numpy calls these on elements of object arrays
    def floor(self):
        return toreal(self.__floor__())

    def ceil(self):
        return toreal(self.__ceil__())

    def trunc(self):
        return toreal(self.__trunc__())

    def isfinite(self):
        return True


class SymRatio(SymReal):
    """int / int: a correctly rounded double, kept as a pair until needed.

    floor and trunc of the rounded quotient equal those of the exact quotient
    when both operands are below 2**26 in magnitude times 2**26 (the distance
    of a/b to the next integer k is at least 1/b, the rounding error at most
    k*2**-53, and k*b <= |a| + b), which `_exact_ok` checks.
    """
    __slots__ = ("n", "d", "done")

    def __init__(self, n, d):
        self.n, self.d, self.done = n, d, None

    @property
    def t(self):
        return self.settle().t

    @property
    def lo(self):
        return self.settle().lo

    @property
    def hi(self):
        return self.settle().hi

    def settle(self):
        if self.done is None:
            n, d = toreal(self.n), toreal(self.d)
            if d.lo == d.hi:
                self.done = n / d.lo
            else:
                self.done = cur().realdiv(n, d)
        return self.done

    def _exact_ok(self):
        n, d = self.n, self.d
        if None in (n.lo, n.hi, d.lo, d.hi):
            return False
        return max(abs(n.lo), abs(n.hi)) + max(abs(d.lo), abs(d.hi)) < 2 ** 52

    def __floor__(self):
        if self._exact_ok():
            return self.n // self.d
        return cur().floor(self.settle())

    def __ceil__(self):
        if self._exact_ok():
            return -((-self.n) // self.d)
        return -cur().floor(-self.settle())

    def __trunc__(self):
        if self._exact_ok():
            q = self.n // self.d
            if self.n.lo >= 0 and self.d.lo >= 0:
                return q
            neg = (self.n < 0) if self.d.lo >= 0 else OR(AND(self.n < 0, self.d > 0),
                                                         AND(self.n > 0, self.d < 0))
            return ITE(neg, -((-self.n) // self.d), q)
        return SymReal.__trunc__(self.settle())

    def __neg__(self):
        return SymRatio(-self.n, self.d)


_SYM_TYPES = frozenset((SymInt, SymBool, SymReal, SymRatio))


# ----------------------------------------------------------------- contexts

class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.branches = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.unknown = 0
        self.cvc5 = 0

    def as_dict(self):
        return dict(self.__dict__)


class Ctx:
    """One symbolic run of a harness along one path."""
    symbolic = True

    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.trace = []
        self.solver = z3.Solver() if run.logic is None else z3.SolverFor(run.logic)
        self.solver.set("timeout", run.query_ms)
        self.model = None
        self.inputs = {}
        self.choices = {}
        self.errs = []
        self.rcache = {}
        self.fcache = {}
        self.dcache = {}
        self.fresh = 0
        self.prods = []
        self.fixed = {}
        self.loose = set()
        self.sqrts = {}
        self.keep = []
        self.plabels = {}

    # -- solver plumbing
    def add(self, t):
        self.solver.add(t)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(t, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def check(self, *extra):
        st = self.run.stats
        st.queries += 1
        t0 = time.time()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if r == z3.unknown:
            r, m = self.retry()
        if extra:
            self.solver.pop()
        st.solver_s += time.time() - t0
        if time.time() > self.run.deadline:
            raise Budget("time budget")
        return r, m

    def retry(self):
        """Another engine for what the first could not decide."""
        asserts = self.solver.assertions()
        for mk in (lambda: z3.Tactic("qfnra-nlsat").solver(),
                   lambda: z3.Then("simplify", "solve-eqs", "smt").solver()):
            try:
                s = mk()
                s.set("timeout", self.run.query_ms)
                s.add(asserts)
                r = s.check()
                if r == z3.sat:
                    return r, s.model()
                if r == z3.unsat:
                    return r, None
            except z3.Z3Exception:
                pass
        if cvc5_check(self.solver.to_smt2(), self.run.query_ms) == "unsat":
            self.run.stats.cvc5 += 1
            return z3.unsat, None
        return z3.unknown, None

    def get_model(self):
        if self.model is None:
            r, m = self.check()
            if r == z3.unsat:
                raise Infeasible()
            self.model = m
        return self.model

    def settled(self, c):
        """The value c must have on this path, or c."""
        t = z3.simplify(c.t)
        if z3.is_true(t) or z3.is_false(t):
            return z3.is_true(t)
        pos = len(self.trace)
        if pos < len(self.prefix):
            kind, val = self.prefix[pos]
            self.trace.append((kind, val))
        else:
            m = self.get_model()
            val = None
            if m is not None:
                v = z3.is_true(m.eval(t, model_completion=True))
                r, mm = self.check(z3.Not(t) if v else t)
                if r == z3.unsat:
                    val = v
            self.trace.append(("s", val))
        return c if val is None else val

    # -- branching
    def branch(self, t):
        st = self.run.stats
        pos = len(self.trace)
        if pos < len(self.prefix):
            kind, val = self.prefix[pos]
            self.trace.append((kind, val))
            if kind == "b":
                self.add(t if val else z3.Not(t))
            return val
        if pos > self.run.max_trace:
            raise Unsupported("more than %d decisions on one path" % self.run.max_trace)
        if time.time() > self.run.deadline:
            raise Budget("time budget")
        t = z3.simplify(t)
        if z3.is_true(t) or z3.is_false(t):
            val = z3.is_true(t)
            self.trace.append(("f", val))
            return val
        m = self.get_model()
        if m is None:
            sides = []
            for val in (True, False):
                r, mm = self.check(t if val else z3.Not(t))
                if r != z3.unsat:
                    sides.append((val, mm))
            if not sides:
                raise Infeasible()
        else:
            v = m.eval(t, model_completion=True)
            val = bool(z3.is_true(v))
            sides = [(val, m)]
            r, mm = self.check(z3.Not(t) if val else t)
            if r != z3.unsat:
                sides.append((not val, mm))
        if len(sides) == 1:
            self.trace.append(("f", sides[0][0]))
            return sides[0][0]
        st.branches += 1
        self.run.todo.append(self.trace + [("b", sides[1][0])])
        val = sides[0][0]
        self.trace.append(("b", val))
        self.solver.add(t if val else z3.Not(t))
        self.model = sides[0][1]
        return val

    def fork_value(self, x, limit=None):
        """A concrete value for a symbolic int, one path for each."""
        if type(x) not in _SYM_TYPES:
            return x
        if type(x) is SymBool:
            return bool(x)
        limit = limit or self.run.fork_limit
        if x.lo is not None and x.lo == x.hi:
            return x.lo
        t = z3.simplify(x.t)
        if z3.is_int_value(t):
            return t.as_long()
        key = t.get_id()
        if key in self.fixed:
            return self.fixed[key]
        pos = len(self.trace)
        if pos < len(self.prefix):
            kind, val = self.prefix[pos]
            self.trace.append((kind, val))
            if kind == "b":
                self.add(t == val)
        else:
            vals = []
            self.solver.push()
            try:
                while True:
                    r, m = self.check()
                    if r == z3.unsat:
                        break
                    if r == z3.unknown:
                        raise Unsupported("cannot enumerate a symbolic int")
                    v = m.eval(t, model_completion=True).as_long()
                    vals.append((v, m))
                    if len(vals) > limit:
                        raise Unsupported("too many values for a symbolic int")
                    self.solver.add(t != v)
            finally:
                self.solver.pop()
            if not vals:
                raise Infeasible()
            vals.sort(key=lambda p: p[0])
            val, m = vals[0]
            if len(vals) == 1:
                self.trace.append(("f", val))
            else:
                self.run.stats.branches += len(vals) - 1
                for v, _ in reversed(vals[1:]):
                    self.run.todo.append(self.trace + [("b", v)])
                self.trace.append(("b", val))
                self.solver.add(t == val)
            self.model = m
        self.fixed[key] = val
        self.keep.append(t)
        return val

    def hash_of(self, x):
        """A hash: of the value if there are few, otherwise one for all.

        With one for all, whether two keys are equal is decided by comparing
        them; only their equality with keys that are ordinary numbers is lost.
        """
        if type(x) is SymInt:
            t = z3.simplify(x.t)
            pos = len(self.trace)
            if t.get_id() not in self.loose:
                if not (pos < len(self.prefix) and self.prefix[pos][0] == "h"):
                    try:
                        return hash(self.fork_value(x))
                    except Unsupported:
                        pass
                self.trace.append(("h", None))
                self.loose.add(t.get_id())
                self.keep.append(t)
        self.run.loosely()
        return 0x5eed

    def concrete(self, x):
        return self.fork_value(x) if type(x) in _SYM_TYPES else x

    def some_value(self, x):
        m = self.get_model()
        if m is None:
            return 0
        return m.eval(x.t, model_completion=True).as_long()

    # -- integer arithmetic
    def small(self, x, n=None):
        n = n or self.run.small
        return x.lo is not None and x.hi is not None and x.hi - x.lo <= n

    def mul(self, a, b):
        for p, q in ((a, b), (b, a)):
            if p.lo is not None and p.lo == p.hi:
                c = p.lo
                if q.lo is None or q.hi is None:
                    lo = hi = None
                else:
                    lo, hi = sorted((c * q.lo, c * q.hi))
                if c == 0:
                    return 0
                return SymInt(q.t * c, lo, hi)
        for p, q in ((a, b), (b, a)):
            t = z3.simplify(p.t)
            if t.get_id() in self.fixed:
                return q * self.fixed[t.get_id()]
        for p, q in ((a, b), (b, a)):
            if self.run.fork_mul and self.small(p):
                v = self.fork_value(p)
                return q * v
        if None in (a.lo, a.hi, b.lo, b.hi):
            lo = hi = None
        else:
            e = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            lo, hi = min(e), max(e)
        r = SymInt(a.t * b.t, lo, hi)
        self.note_product(a, b)
        return r

    def note_product(self, a, b):
        """Monotonicity lemmas between products that share a factor.

        For c >= 0:  x < y  =>  c*x + c <= c*y.  They are consequences of
        integer arithmetic, stated so that linear reasoning can use them.
        """
        key = tuple(sorted((a.t.get_id(), b.t.get_id())))
        if any(p[0] == key for p in self.prods):
            return
        for _, c, d in self.prods:
            for s, o in ((a, b), (b, a)):
                for s2, o2 in ((c, d), (d, c)):
                    if s.t.get_id() == s2.t.get_id() or z3.is_true(z3.simplify(s.t == s2.t)):
                        self._mono(s, o, o2)
                        self._mono(s, o2, o)
        for s, o in ((a, b), (b, a)):
            one = toint(1)
            self.add(z3.Implies(z3.And(s.t >= 0, o.t >= 1), s.t * o.t >= s.t))
            self.add(z3.Implies(z3.And(s.t >= 0, o.t >= 0), s.t * o.t >= 0))
            self.add(z3.Implies(z3.And(s.t >= 0, o.t <= -1), s.t * o.t <= -s.t))
            self.add(z3.Implies(o.t == 0, s.t * o.t == 0))
        self.prods.append((key, a, b))

    def _mono(self, c, x, y):
        self.add(z3.Implies(z3.And(c.t >= 0, x.t < y.t), c.t * x.t + c.t <= c.t * y.t))

    def divmod(self, a, b):
        if b.lo is not None and b.lo == b.hi:
            c = b.lo
            if c == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if a.lo is not None and a.lo == a.hi:
                q, r = divmod(a.lo, c)
                return q, r
            if c < 0:
                q, r = self.divmod(-a, toint(-c))
                return q, -r
            if c == 1:
                return a, 0
            q = SymInt(a.t / c, None if a.lo is None else a.lo // c, None if a.hi is None else a.hi // c)
            rhi = c - 1
            rlo = 0
            if a.lo is not None and a.hi is not None and a.lo >= 0 and a.hi < c:
                return 0, a
            return q, SymInt(a.t % c, rlo, rhi)
        key = (a.t.get_id(), b.t.get_id())
        if key in self.dcache:
            return self.dcache[key]
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if b < 0:
            q, r = self.divmod(-a, -b)
            return q, -r
        res = None
        if self.run.quot_hint:
            res = self.known_quotient(a, b)
        if res is None and self.run.fork_div:
            res = self.fork_quotient(a, b)
        if res is None:
            q = self.freshint("q")
            r = self.freshint("r")
            self.add(z3.And(r.t >= 0, r.t < b.t, a.t == q.t * b.t + r.t))
            if a.lo is not None and a.lo >= 0:
                q.lo = 0
                self.add(q.t >= 0)
                if a.hi is not None:
                    q.hi = a.hi // max(1, b.lo or 1)
                    self.add(q.t <= a.t)
            r.lo = 0
            if b.hi is not None:
                r.hi = b.hi - 1
            self.note_product(q, b)
            res = (q, r)
        self.dcache[key] = res
        self.keep += [a.t, b.t]
        return res

    def known_quotient(self, a, b):
        """A factor q of an earlier product with 0 <= a - q*b < b on this path.

        The quotient and remainder of an integer division are unique, so such
        a q is the quotient.
        """
        seen = set()
        for _, c, d in self.prods:
            for q in (c, d):
                if q.t.get_id() in seen:
                    continue
                seen.add(q.t.get_id())
                r = z3.simplify(a.t - q.t * b.t, som=True)
                t0 = time.time()
                self.solver.push()
                self.solver.set("timeout", 2000)
                self.solver.add(z3.Or(r < 0, r >= b.t))
                ok = self.solver.check() == z3.unsat
                self.solver.pop()
                self.solver.set("timeout", self.run.query_ms)
                self.run.stats.queries += 1
                self.run.stats.solver_s += time.time() - t0
                if ok:
                    return q, SymInt(r, 0, None if b.hi is None else b.hi - 1)
        return None

    def fork_quotient(self, a, b):
        """Case-split on a // b so that the products stay linear."""
        lim = self.run.quot_limit
        q = 0
        # going up
        if a >= 0:
            while q <= lim:
                if a < b * q + b:
                    return q, a - b * q
                q += 1
        else:
            q = -1
            while q >= -lim:
                if a >= b * q:
                    return q, a - b * q
                q -= 1
        if self.run.quot_strict:
            raise Unsupported("quotient beyond the stated bound")
        return None

    def freshint(self, name, lo=None, hi=None):
        self.fresh += 1
        return SymInt(z3.Int("_%s%d" % (name, self.fresh)), lo, hi)

    def freshreal(self, name, lo, hi, constrain=True):
        self.fresh += 1
        t = z3.Real("_%s%d" % (name, self.fresh))
        if constrain:
            self.add(z3.And(t >= realval(lo), t <= realval(hi)))
        return SymReal(t, lo, hi)

    # -- float arithmetic
    def rnd(self, exact, lo, hi, nf=None):
        """fl(exact): exact + e, |e| <= u * max|exact| (+ underflow)."""
        if self.run.fp == "ideal":
            lo, hi = _widen(lo, hi)
            return SymReal(exact, lo, hi, nf)
        exact = z3.simplify(exact)
        if z3.is_rational_value(exact):
            v = exact.as_fraction()
            f = v.numerator / v.denominator
            return toreal(f)
        key = exact.get_id()
        if key in self.rcache:
            return self.rcache[key]
        bound = max(abs(lo), abs(hi)) * U * 1.0000001 + TINY
        self.fresh += 1
        e = z3.Real("_e%d" % self.fresh)
        self.add(z3.And(e <= realval(bound), e >= realval(-bound)))
        self.errs.append(e)
        lo, hi = _widen(lo, hi)
        if nf is not None:
            nf = (nf[0], nf[1], nf[2] + bound * 1.0000001)
        r = SymReal(exact + e, lo, hi, nf)
        self.rcache[key] = r
        self.keep.append(exact)
        return r

    def realdiv(self, a, b):
        if b == 0:
            raise ZeroDivisionError("float division by zero")
        blo, bhi = b.lo, b.hi
        if blo <= 0 <= bhi:
            # bound the quotient by asking nothing: caller must bound b away
            pos = bool(b > 0)
            tiny = self.run.div_min
            if pos:
                if not bool(b >= tiny):
                    raise Unsupported("division by a number near zero")
                blo = tiny
            else:
                if not bool(b <= -tiny):
                    raise Unsupported("division by a number near zero")
                bhi = -tiny
        e = [x / y for x in (a.lo, a.hi) for y in (blo, bhi)]
        key = ("div", z3.simplify(a.t).get_id(), z3.simplify(b.t).get_id())
        if key in self.rcache:
            return self.rcache[key]
        q = self.freshreal("d", min(e), max(e), constrain=False)
        self.add(q.t * b.t == a.t)
        r = self.rnd(q.t, q.lo, q.hi)
        self.rcache[key] = r
        self.keep += [a.t, b.t]
        return r

    def sqrt(self, x):
        x = toreal(x)
        if x < 0:
            raise ValueError("math domain error")
        key = z3.simplify(x.t).get_id()
        if key in self.sqrts:
            return self.sqrts[key]
        y = self.freshreal("s", 0.0, math.sqrt(max(0.0, x.hi)) * (1 + 1e-12), constrain=False)
        self.add(z3.And(y.t >= 0, y.t * y.t == x.t))
        r = self.rnd(y.t, y.lo, y.hi)
        self.sqrts[key] = r
        self.keep.append(x.t)
        return r

    def realmod(self, a, b):
        """Python's a % b for floats, b a positive constant."""
        if b.lo != b.hi:
            raise Unsupported("float % symbolic")
        c = b.lo
        if c == 0:
            raise ZeroDivisionError("float modulo")
        if c < 0:
            raise Unsupported("float % negative")
        if a.lo >= 0 and a.hi < c:
            return 0, a
        k = SymInt(z3.ToInt(a.t / realval(c)), math.floor(a.lo / c) - 1, math.floor(a.hi / c) + 1)
        key = ("mod", z3.simplify(a.t).get_id(), c)
        if key in self.rcache:
            return self.rcache[key]
        # fmod is exact; the only rounding is adding c back to a negative one.
        exact = a.t - z3.ToReal(k.t) * realval(c)
        if a.lo >= 0 or self.run.fp == "ideal":
            r = SymReal(exact, 0.0, c)
        else:
            rr = self.rnd(exact, 0.0, c)
            self.add(z3.Implies(a.t >= 0, rr.t == exact))
            self.add(z3.And(rr.t >= 0, rr.t <= realval(c)))
            r = SymReal(rr.t, 0.0, c)
        self.rcache[key] = (k, r)
        self.keep.append(a.t)
        return k, r

    def floor(self, x):
        x = x.settle()
        if x.nf is not None:
            e = Fraction(x.nf[2])
            k = math.floor(x.nf[1] - e)
            if k == math.floor(x.nf[1] + e) and (not e or (x.nf[1] - e).denominator != 1):
                return x.nf[0] + k
        t = z3.simplify(x.t)
        key = t.get_id()
        if key in self.fcache:
            return self.fcache[key]
        if z3.is_rational_value(t):
            f = t.as_fraction()
            v = f.numerator // f.denominator
            return v
        if self.run.floor_fresh:
            k = self.freshint("k", math.floor(x.lo), math.floor(x.hi))
            self.add(z3.And(z3.ToReal(k.t) <= t, t < z3.ToReal(k.t) + 1))
            r = k
        else:
            r = SymInt(z3.ToInt(t), math.floor(x.lo), math.floor(x.hi))
        self.fcache[key] = r
        self.keep.append(t)
        return r

    # -- harness interface
    def int(self, name, lo, hi):
        if name in self.inputs:
            return self.inputs[name][1]
        x = SymInt(z3.Int(name), lo, hi)
        self.add(z3.And(x.t >= lo, x.t <= hi))
        self.inputs[name] = ("int", x)
        self.run.ranges[name] = ("int", lo, hi)
        return x

    def real(self, name, lo, hi):
        if name in self.inputs:
            return self.inputs[name][1]
        x = SymReal(z3.Real(name), float(lo), float(hi))
        self.add(z3.And(x.t >= realval(float(lo)), x.t <= realval(float(hi))))
        self.inputs[name] = ("real", x)
        self.run.ranges[name] = ("real", float(lo), float(hi))
        return x

    def bool(self, name):
        if name in self.inputs:
            return self.inputs[name][1]
        x = SymBool(z3.Bool(name))
        self.inputs[name] = ("bool", x)
        self.run.ranges[name] = ("bool", 0, 1)
        return x

    def ite(self, c, a, b):
        return ITE(c, a, b)

    def choice(self, name, options):
        """One of `options`, each explored on its own path."""
        if name in self.choices:
            return options[self.choices[name]]
        i = self.int("choice:" + name, 0, len(options) - 1)
        v = self.fork_value(i)
        self.choices[name] = v
        return options[v]

    def assume(self, cond):
        if type(cond) is SymBool:
            self.add(cond.t)
            if self.model is None and len(self.trace) >= len(self.prefix):
                self.get_model()
        elif not cond:
            raise Infeasible()

    def reach(self, label):
        if self.get_model() is not None or self.run.fp:
            self.run.reached.add(label)

    def prove(self, cond, label, note=None):
        st = self.run.stats
        st.obligations += 1
        self.run.labels[label] = self.run.labels.get(label, 0) + 1
        self.plabels[label] = self.plabels.get(label, 0) + 1
        if type(cond) is not SymBool:
            if cond:
                # The path itself must be feasible for this to mean anything.
                st.trivial += 1
                st.discharged += 1
                return
            m = self.get_model()
            if m is None:
                st.unknown += 1
                self.run.notes.append("unknown path at %s" % label)
                return
            self.run.record_cex(self, m, label, z3.BoolVal(True))
            raise CexFound()
        neg = z3.Not(cond.t)
        r, m = self.check(neg)
        if r == z3.unsat:
            st.discharged += 1
            if self.run.cross is not None:
                self.run.cross_check(self, neg, label)
            return
        if r == z3.unknown:
            st.unknown += 1
            self.run.notes.append("solver gave up on %s" % label)
            return
        self.run.record_cex(self, m, label, neg)
        raise CexFound()

    def values(self, m):
        """Concrete inputs out of a model."""
        out = {}
        for name, (kind, x) in self.inputs.items():
            v = m.eval(x.t, model_completion=True)
            if kind == "int":
                out[name] = v.as_long()
            elif kind == "bool":
                out[name] = bool(z3.is_true(v))
            else:
                out[name] = num(v)
        return out


def num(v):
    if z3.is_algebraic_value(v):
        v = v.approx(40)
    f = v.as_fraction()
    return f.numerator / f.denominator


def cvc5_check(smt2, ms):
    """The same query put to cvc5; 'unsat', 'sat' or 'unknown'."""
    try:
        import cvc5
    except ImportError:
        return "unknown"
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(ms)))
        slv.setLogic("ALL")
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, "q")
        sm = parser.getSymbolManager()
        out = ""
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out += str(cmd.invoke(slv, sm) or "")
        if "error" in out:
            return "unknown"
        for w in ("unsat", "sat"):
            if w in out.split():
                return w
    except Exception:
        pass
    return "unknown"


class ConcreteCtx:
    """The same harness run on ordinary numbers: a replay."""
    symbolic = False

    def __init__(self, values):
        self.vals = values
        self.failures = []
        self.labels = {}
        self.reached = set()

    def int(self, name, lo, hi):
        v = self.vals.get(name)
        if v is None:
            return (lo + hi) // 2
        if not lo <= int(v) <= hi:
            raise Infeasible()
        return int(v)

    def real(self, name, lo, hi):
        v = self.vals.get(name)
        if v is None:
            return 0.5 * (lo + hi)
        if not lo - 1e-9 * (1 + abs(lo)) <= v <= hi + 1e-9 * (1 + abs(hi)):
            raise Infeasible()
        return min(max(float(v), float(lo)), float(hi))

    def bool(self, name):
        return bool(self.vals.get(name, False))

    def choice(self, name, options):
        return options[int(self.vals.get("choice:" + name, 0))]

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def reach(self, label):
        self.reached.add(label)

    def prove(self, cond, label, note=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            self.failures.append(label)
            raise CexFound()

    def ite(self, c, a, b):
        return a if c else b

    def concrete(self, x):
        return x

    def fork_value(self, x):
        return x


class Run:
    """All paths of one harness with one set of parameters."""

    def __init__(self, fn, params, *, logic=None, query_ms=20000, fork_limit=200, small=64, fp="err",
                 fork_mul=True, fork_div=True, quot_hint=False, quot_limit=64, quot_strict=False, div_min=1e-6,
                 floor_fresh=False, max_paths=20000, budget_s=600, witnesses=24, max_cex=3, seed=1, cross=None,
                 max_trace=4000, harness_fault=None):
        self.fn, self.params = fn, params
        self.logic, self.query_ms = logic, query_ms
        self.fork_limit, self.small, self.fp = fork_limit, small, fp
        self.fork_mul, self.fork_div, self.quot_hint = fork_mul, fork_div, quot_hint
        self.quot_limit, self.quot_strict, self.div_min = quot_limit, quot_strict, div_min
        self.floor_fresh = floor_fresh
        self.max_paths, self.max_cex, self.want = max_paths, max_cex, witnesses
        self.deadline = time.time() + budget_s
        self.stats = Stats()
        self.todo = [[]]
        self.labels = {}
        self.reached = set()
        self.notes = []
        self.cexs = []
        self.wits = []
        self.incon = []         # paths the engine could not finish
        self.paths = 0
        self.infeasible = 0
        self.truncated = None
        self.rng = random.Random(seed)
        self.cross = cross      # None, or a count of obligations to re-ask cvc5
        self.crossed = [0, 0]
        self.max_trace = max_trace
        self.harness_fault = harness_fault or (lambda e: False)
        self.ranges = {}

    def loosely(self):
        why = "symbolic numbers used as dictionary keys: their equality with keys that are ordinary numbers is not explored"
        if not any(c["why"] == why for c in self.incon):
            self.incon.append(dict(why=why, values=None))

    def cross_check(self, ctx, neg, label):
        if self.crossed[0] >= self.cross:
            return
        self.crossed[0] += 1
        ctx.solver.push()
        ctx.solver.add(neg)
        smt2 = ctx.solver.to_smt2()
        ctx.solver.pop()
        r = cvc5_check(smt2, 10000)
        if r == "unsat":
            self.crossed[1] += 1
        elif r == "sat":
            self.notes.append("cvc5 disagrees on %s" % label)
            self.incon.append(dict(why="cvc5 disagrees on " + label, values=None))

    def record_cex(self, ctx, m, label, neg):
        """Several concrete candidates for one refuted assertion.

        The first prefers no rounding error at all; others are moved inside
        the violating region, so that a replay in doubles reproduces it.
        """
        cands = []
        s = ctx.solver
        s.push()
        s.add(neg)
        if ctx.errs:
            s.push()
            s.add(*[e == 0 for e in ctx.errs])
            if s.check() == z3.sat:
                m0 = s.model()
                cands.append(ctx.values(m0))
                for _ in range(3):
                    mm = self.jiggle(ctx, s)
                    if mm is not None:
                        cands.append(ctx.values(mm))
            s.pop()
        cands.append(ctx.values(m))
        for _ in range(3):
            mm = self.jiggle(ctx, s)
            if mm is not None:
                cands.append(ctx.values(mm))
        s.pop()
        self.cexs.append(dict(label=label, candidates=cands))

    def jiggle(self, ctx, s):
        names = [(n, x) for n, (k, x) in ctx.inputs.items() if k in ("real", "int") and not n.startswith("choice:")]
        self.rng.shuffle(names)
        depth = 0
        best = None
        t0 = time.time()
        for n, x in names[:12]:
            lo, hi = float(x.lo), float(x.hi)
            for _ in range(2):
                a = self.rng.uniform(lo, hi)
                w = (hi - lo) * self.rng.choice((0.02, 0.2))
                s.push()
                s.add(x.t >= realval(a - w) if type(x) is not SymInt else x.t >= int(a - w),
                      x.t <= realval(a + w) if type(x) is not SymInt else x.t <= int(a + w) + 1)
                if time.time() - t0 < 8 and s.check() == z3.sat:
                    depth += 1
                    best = s.model()
                    break
                s.pop()
        for _ in range(depth):
            s.pop()
        return best

    def witness(self, ctx):
        if len(self.wits) < self.want or self.rng.random() < self.want / (self.paths + 1.0):
            try:
                m = ctx.get_model()
                if m is None:
                    return
                v = dict(values=ctx.values(m), labels=dict(ctx.plabels))
                if len(self.wits) < self.want:
                    self.wits.append(v)
                else:
                    self.wits[self.rng.randrange(self.want)] = v
            except (Infeasible, z3.Z3Exception):
                pass

    def sample_path(self, ctx, why):
        """Concrete inputs for a path the engine could not follow."""
        vals = []
        try:
            s = ctx.solver
            r, m = ctx.check()
            if m is not None:
                vals.append(ctx.values(m))
                for _ in range(6):
                    mm = self.jiggle(ctx, s)
                    if mm is not None:
                        vals.append(ctx.values(mm))
        except (EngineStop, z3.Z3Exception):
            pass
        self.incon.append(dict(why=why, values=vals))

    def go(self):
        global CUR
        while self.todo:
            if self.paths >= self.max_paths:
                self.truncated = "path limit %d" % self.max_paths
                break
            if time.time() > self.deadline:
                self.truncated = "time budget"
                break
            prefix = self.todo.pop()
            ctx = Ctx(self, prefix)
            CUR = ctx
            try:
                self.fn(ctx, **self.params)
                self.paths += 1
                self.witness(ctx)
            except Infeasible:
                self.infeasible += 1
            except CexFound:
                self.paths += 1
                if len(self.cexs) >= self.max_cex:
                    self.truncated = "violation found"
                    break
            except Budget as e:
                self.truncated = str(e)
                break
            except Unsupported as e:
                self.paths += 1
                self.sample_path(ctx, "engine: %s" % e)
            except z3.Z3Exception as e:
                self.paths += 1
                self.sample_path(ctx, "z3: %s" % e)
            except Exception as e:                    # from the code under test
                self.paths += 1
                import traceback
                if self.harness_fault(e):
                    self.sample_path(ctx, "harness: %s: %s" % (type(e).__name__, e))
                    continue
                tb = traceback.extract_tb(e.__traceback__)
                where = "; ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in tb[-3:])
                try:
                    m = ctx.get_model()
                except (EngineStop, z3.Z3Exception):
                    m = None
                if m is None:
                    self.sample_path(ctx, "%s: %s" % (type(e).__name__, e))
                else:
                    self.record_cex(ctx, m, "no unexpected exception", z3.BoolVal(True))
                    self.cexs[-1]["exception"] = "%s: %s (%s)" % (type(e).__name__, e, where)
                    if len(self.cexs) >= self.max_cex:
                        self.truncated = "violation found"
                        break
            finally:
                CUR = None
        return self

    def as_dict(self):
        return dict(paths=self.paths, infeasible=self.infeasible, stats=self.stats.as_dict(),
                    labels=self.labels, reached=sorted(self.reached), notes=self.notes[:20],
                    cexs=self.cexs, wits=self.wits, incon=self.incon, truncated=self.truncated,
                    crossed=self.crossed, ranges=self.ranges)
