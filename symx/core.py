"""Symbolic execution of real Python code with z3-backed proxy values.

The code under test runs in CPython unchanged.  Inputs are proxies (SymReal,
SymInt, SymBool, SymName); a branch on a SymBool asks z3 which outcomes are
feasible under the current path condition and the run is re-executed once per
feasible outcome (depth first over decision prefixes).  ``Ctx.check`` turns a
property assertion into the query  path-condition AND NOT assertion.

The same harness also runs in *concrete* mode (replay): inputs are then ordinary
floats / ints / strings taken from a solver model and nothing is stubbed with
proxies, so the real code runs as a user would run it.
"""

import fractions
import math
import os
import signal
import sys
import threading
import time

_Z3PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
sys.path.append(_Z3PATH)
import z3  # noqa: E402

sys.path.remove(_Z3PATH)

Fraction = fractions.Fraction

class Watchdog:
    """Interrupts queries that run far past z3's own timeout."""

    def __init__(self):
        self.deadline = None
        self.pid = None

    def start(self, ms):
        if self.pid != os.getpid():
            self.pid = os.getpid()
            threading.Thread(target=self.loop, daemon=True).start()
        self.deadline = time.monotonic() + ms / 1000.0 * 1.5 + 1.0

    def stop(self):
        self.deadline = None

    def loop(self):
        while True:
            time.sleep(0.5)
            d = self.deadline
            if d is not None and time.monotonic() > d:
                z3.main_ctx().interrupt()


WATCH = Watchdog()

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)


class PathEnd(BaseException):
    """Ends the current path (infeasible assumption, deliberate cut)."""


class PathTimeout(BaseException):
    """The path exceeded its wall-clock allowance."""


class Unsupported(BaseException):
    """The engine cannot encode an operation; the run is inconclusive."""


class Budget(BaseException):
    """Exploration budget used up."""


CTX = None  # the active context


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# --------------------------------------------------------------------------
# z3 helpers


def rv(x):
    """Exact z3 real for a Python number."""
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator) + "/" + str(x.denominator))
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, int):
        return z3.RealVal(x)
    f = float(x)
    if math.isnan(f) or math.isinf(f):
        raise NonFinite(f)
    fr = Fraction(f)
    return z3.RealVal(str(fr.numerator) + "/" + str(fr.denominator))


class NonFinite(Exception):
    def __init__(self, value):
        self.value = value


def is_num(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


def is_fd(e, depth=0):
    """Is the term an if-then-else tree over numerals?"""
    if is_num(e):
        return True
    if depth < 6 and z3.is_app_of(e, z3.Z3_OP_ITE):
        return is_fd(e.arg(1), depth + 1) and is_fd(e.arg(2), depth + 1)
    return False


def map_fd(e, f):
    if is_num(e):
        return f(e)
    return z3.If(e.arg(0), map_fd(e.arg(1), f), map_fd(e.arg(2), f))


def num_of(e):
    """Fraction value of a z3 numeral (None if not a numeral)."""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


NUMERIC = (int, float, Fraction)


def _isnum(x):
    if isinstance(x, NUMERIC):
        return True
    import numpy as np

    return isinstance(x, (np.floating, np.integer, np.bool_))


# --------------------------------------------------------------------------
# proxies


class Sym:
    """Marker base class of all proxies."""

    __slots__ = ()


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __and__(self, o):
        return mkbool(z3.And(self.e, tobool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, tobool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, tobool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)) or type(o).__name__ in ("bool_", "bool"):
            return mkbool(self.e == tobool(o))
        return self.as_real() == o

    def __ne__(self, o):
        if isinstance(o, (SymBool, bool)) or type(o).__name__ in ("bool_", "bool"):
            return mkbool(self.e != tobool(o))
        return self.as_real() != o

    def __hash__(self):
        return 7

    def as_real(self):
        return SymReal(z3.If(self.e, z3.RealVal(1), z3.RealVal(0)))

    def __add__(self, o):
        return self.as_real() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.as_real() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.as_real() - o

    def __rsub__(self, o):
        return o - self.as_real()

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def tobool(o):
    """z3 Bool term of a bool-like Python value."""
    if isinstance(o, SymBool):
        return o.e
    if isinstance(o, z3.BoolRef):
        return o
    if isinstance(o, SymReal):
        return o.e != 0
    if isinstance(o, SymInt):
        return o.e != 0
    return z3.BoolVal(bool(o))


def And(*xs):
    return mkbool(z3.And(*[tobool(x) for x in xs])) if xs else True


def Or(*xs):
    return mkbool(z3.Or(*[tobool(x) for x in xs])) if xs else False


def Not(x):
    return mkbool(z3.Not(tobool(x)))


def Implies(a, b):
    return mkbool(z3.Implies(tobool(a), tobool(b)))


def Iff(a, b):
    return mkbool(tobool(a) == tobool(b))


def term(o):
    """z3 Real term of a number-like value."""
    if isinstance(o, SymReal):
        return o.e
    if isinstance(o, SymInt):
        return z3.ToReal(o.e)
    if isinstance(o, SymBool):
        return z3.If(o.e, z3.RealVal(1), z3.RealVal(0))
    if _isnum(o):
        return rv(o)
    if isinstance(o, z3.ArithRef):
        return o
    return None


def Ite(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (SymName,)) or isinstance(b, (SymName,)):
        return a if bool(c) else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c.e, tobool(a), tobool(b)))
    try:
        ta, tb = term(a), term(b)
    except NonFinite:
        return a if bool(c) else b
    if ta is None or tb is None:
        return a if bool(c) else b
    if ta.eq(tb):
        return a
    return SymReal(z3.If(c.e, ta, tb))


class _Arith(Sym):
    __slots__ = ()


def _sm(e):
    """Cheap local simplification, to keep constants folded."""
    return z3.simplify(e)


_NPFUNC = None  # set by nparr: dispatcher for numpy ufuncs on scalars


class SymReal(_Arith):
    __slots__ = ("e", "pos", "logof", "num")
    __array_priority__ = 1000.0

    def __init__(self, e, pos=False, logof=None, num=None):
        self.e = e
        self.num = num  # numerator, for a quotient whose denominator is known positive
        self.pos = pos  # known to be > 0 on every path
        self.logof = logof  # the SymReal whose natural log this is

    # numpy scalars / arrays on the left hand side
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return _NPFUNC(ufunc, method, inputs, kwargs)

    # ---- arithmetic
    def _bin(self, o, f):
        try:
            t = term(o)
        except NonFinite as nf:
            return f(1.0, nf.value)  # inf/nan absorb any finite operand (sign aside)
        if t is None:
            return NotImplemented
        return SymReal(_sm(f(self.e, t)))

    def __add__(self, o):
        if _isnum(o) and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if _isnum(o) and o == 0:
            return self
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        if _isnum(o) and o == 0:
            return self
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if _isnum(o):
            if o == 1:
                return self
            if o == 0:
                return 0.0
        try:
            t = term(o)
        except NonFinite as nf:
            if bool(self > 0):
                return nf.value
            if bool(self < 0):
                return -nf.value
            return float("nan")
        if t is None:
            return NotImplemented
        a = self.e
        pos = self.pos and (getattr(o, "pos", False) or (_isnum(o) and o > 0))
        if not is_num(a) and not is_num(t):
            if is_fd(a):
                return SymReal(_sm(map_fd(a, lambda v: v * t)))
            if is_fd(t):
                return SymReal(_sm(map_fd(t, lambda v: v * a)))
        return SymReal(_sm(a * t), pos=pos)

    __rmul__ = __mul__

    def __truediv__(self, o):
        try:
            t = term(o)
        except NonFinite as nf:
            return 0.0 if math.isinf(nf.value) else nf.value
        if t is None:
            return NotImplemented
        if _isnum(o):
            if o == 0:
                raise ZeroDivisionError("float division by zero")
            if o == 1:
                return self
            return SymReal(_sm(self.e / t), pos=self.pos and o > 0)
        return _div(self.e, t, self.pos, getattr(o, "pos", False))

    def __rtruediv__(self, o):
        try:
            t = term(o)
        except NonFinite as nf:
            return nf.value if bool(self > 0) else -nf.value
        if t is None:
            return NotImplemented
        return _div(t, self.e, _isnum(o) and o > 0, self.pos)

    def __floordiv__(self, o):
        return (self / o).__floor__()

    def __rfloordiv__(self, o):
        return (o / self).__floor__()

    def __mod__(self, o):
        return self - o * SymReal(z3.ToReal(z3.ToInt((self / o).e)))

    def __floor__(self):
        return SymReal(z3.ToReal(z3.ToInt(self.e)))

    def __ceil__(self):
        return SymReal(-z3.ToReal(z3.ToInt(-self.e)))

    def __trunc__(self):
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __neg__(self):
        return SymReal(_sm(-self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.pos:
            return self
        return SymReal(_sm(z3.If(self.e >= 0, self.e, -self.e)))

    def __pow__(self, o):
        if isinstance(o, SymReal):
            n = num_of(_sm(o.e))
            if n is None:
                return opaque("pow", self, o)
            o = float(n)
        if o == 0:
            return 1.0
        if float(o) == int(o) and 0 < abs(int(o)) <= 6:
            r = self
            for _ in range(abs(int(o)) - 1):
                r = r * self
            return r if o > 0 else 1.0 / r
        if o == 0.5:
            return self.sqrt()
        return opaque("pow", self, o)

    def __rpow__(self, o):
        return opaque("pow", o, self)

    # ---- comparisons
    def _cmp(self, o, f, nanv, infpos, infneg):
        try:
            t = term(o)
        except NonFinite as nf:
            if math.isnan(nf.value):
                return nanv
            return infpos if nf.value > 0 else infneg
        if t is None:
            return NotImplemented
        if self.num is not None and num_of(t) == 0:
            return mkbool(f(self.num, t))
        return mkbool(f(self.e, t))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, False, True, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, False, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, False, True)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, False, False, False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, True, True, True)
        return True if r is NotImplemented else r

    def __hash__(self):
        return 11

    def __bool__(self):
        return CTX.branch(_sm(self.e != 0))

    # ---- conversions
    def __float__(self):
        n = num_of(_sm(self.e))
        if n is not None:
            return float(n)
        return float(CTX.concretize(self.e))

    def __int__(self):
        return int(self.__trunc__())

    def __round__(self, nd=None):
        x = self if not nd else self * Fraction(10) ** nd
        down = z3.ToInt(x.e)
        part = x.e - z3.ToReal(down)
        half = z3.Q(1, 2)
        n = SymInt(z3.If(z3.Or(part < half, z3.And(part == half, down % 2 == 0)), down, down + 1))
        if nd is None:
            return int(n)
        return SymReal(z3.ToReal(n.e) / z3.Q(*(Fraction(10) ** nd).as_integer_ratio()))

    def __format__(self, spec):
        return CTX.format(self, spec)

    def __str__(self):
        return CTX.format(self, "")

    __repr__ = __str__

    # ---- numpy-style methods used by object loops
    def sqrt(self):
        return CTX.sqrt(self)

    def exp(self):
        return CTX.exp(self)

    def log(self):
        return CTX.log(self)

    def log10(self):
        return opaque("log10", self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))


def _div(a, b, apos, bpos):
    """a / b with b a non-constant term: numpy float semantics need b != 0."""
    bn = num_of(b)
    if bn is not None:
        if bn == 0:
            return float("nan")
        return SymReal(_sm(a / b), pos=apos and bn > 0)
    an = num_of(a)
    if an is not None and an == 0:
        return 0.0
    if bpos and z3.is_const(b) and b.decl().name().startswith("norm!"):
        # component of a direction: only its sign and size are kept
        q = CTX.fresh("dir")
        CTX._add(z3.And((q > 0) == (a > 0), (q < 0) == (a < 0), q <= 1, q >= -1))
        CTX.model = None
        return SymReal(q, num=a)
    # inside an if-then-else guarded division z3's total division is harmless;
    # the division term is kept literally and b == 0 gives an unconstrained value
    return SymReal(a / b, pos=apos and bpos, num=a if bpos else None)


def opaque(name, *args):
    """An uninterpreted value: sound over-approximation for feasibility, and a
    violation found through it must still replay on the real code."""
    return CTX.uninterpreted(name, args)


class SymInt(_Arith):
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo=None, hi=None):
        self.e = e
        self.lo = lo
        self.hi = hi

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return _NPFUNC(ufunc, method, inputs, kwargs)

    def _bin(self, o, f, real_f):
        if isinstance(o, SymInt):
            return SymInt(_sm(f(self.e, o.e)))
        if isinstance(o, bool) or (_isnum(o) and float(o) == int(o) and not isinstance(o, float)):
            return SymInt(_sm(f(self.e, z3.IntVal(int(o)))))
        if isinstance(o, SymReal) or _isnum(o):
            return real_f(SymReal(z3.ToReal(self.e)), o)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        return o / SymReal(z3.ToReal(self.e))

    def __floordiv__(self, o):
        return int(self) // o

    def __mod__(self, o):
        return int(self) % o

    def __pow__(self, o):
        return SymReal(z3.ToReal(self.e)) ** o

    def __rpow__(self, o):
        return o ** int(self)

    def __neg__(self):
        return SymInt(_sm(-self.e))

    def __abs__(self):
        return SymInt(_sm(z3.If(self.e >= 0, self.e, -self.e)))

    def _cmp(self, o, f):
        if isinstance(o, SymInt):
            return mkbool(f(self.e, o.e))
        try:
            t = term(o)
        except NonFinite as nf:
            return f(0, nf.value)
        if t is None:
            return NotImplemented
        return mkbool(f(z3.ToReal(self.e), t))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        return 13

    def __bool__(self):
        return CTX.branch(_sm(self.e != 0))

    def __index__(self):
        n = num_of(_sm(self.e))
        if n is not None:
            return int(n)
        return CTX.enum_int(self)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __repr__(self):
        return str(self.__index__())

    __str__ = __repr__


class SymFP(Sym):
    """An IEEE double, with the rounding of every operation (nearest, ties to even)."""

    __slots__ = ("e",)
    __array_priority__ = 1000.0

    def __init__(self, e):
        self.e = e

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return _NPFUNC(ufunc, method, inputs, kwargs)

    @staticmethod
    def lift(o):
        if isinstance(o, SymFP):
            return o.e
        if _isnum(o):
            return z3.FPVal(float(o), z3.Float64())
        return None

    def _do(self, o, f):
        t = self.lift(o)
        return NotImplemented if t is None else SymFP(_sm(f(self.e, t)))

    def _cmp(self, o, f):
        t = self.lift(o)
        return NotImplemented if t is None else mkbool(f(self.e, t))

    def __add__(self, o):
        return self._do(o, lambda a, b: z3.fpAdd(z3.RNE(), a, b))

    def __radd__(self, o):
        return self._do(o, lambda a, b: z3.fpAdd(z3.RNE(), b, a))

    def __sub__(self, o):
        return self._do(o, lambda a, b: z3.fpSub(z3.RNE(), a, b))

    def __rsub__(self, o):
        return self._do(o, lambda a, b: z3.fpSub(z3.RNE(), b, a))

    def __mul__(self, o):
        if _isnum(o) and o == 1:
            return self
        return self._do(o, lambda a, b: z3.fpMul(z3.RNE(), a, b))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._do(o, lambda a, b: z3.fpDiv(z3.RNE(), a, b))

    def __rtruediv__(self, o):
        return self._do(o, lambda a, b: z3.fpDiv(z3.RNE(), b, a))

    def __neg__(self):
        return SymFP(z3.fpNeg(self.e))

    def __abs__(self):
        return SymFP(z3.fpAbs(self.e))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        return self._cmp(o, z3.fpNEQ)

    def __hash__(self):
        return 19

    def __bool__(self):
        return bool(self != 0.0)

    def __float__(self):
        raise Unsupported("float() of a floating-point term")


class SymName(Sym):
    """A string drawn from a finite universe; equality is symbolic."""

    __slots__ = ("e", "universe")

    def __init__(self, e, universe):
        self.e = e
        self.universe = universe  # tuple of strings, id = position

    def __eq__(self, o):
        if isinstance(o, SymName):
            if o.universe is not self.universe and o.universe != self.universe:
                return Or(*[And(mkbool(self.e == i), mkbool(o.e == o.universe.index(s)))
                            for i, s in enumerate(self.universe) if s in o.universe])
            return mkbool(self.e == o.e)
        if isinstance(o, str):
            if o in self.universe:
                return mkbool(self.e == self.universe.index(o))
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self):
        return 17

    def concrete(self):
        n = num_of(_sm(self.e))
        if n is not None:
            return self.universe[int(n)]
        for i, s in enumerate(self.universe):
            if CTX.branch(_sm(self.e == i)):
                return s
        raise PathEnd()

    def __str__(self):
        return self.concrete()

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __add__(self, o):
        return self.concrete() + o

    def __radd__(self, o):
        return o + self.concrete()

    def __len__(self):
        return len(self.concrete())

    def __getattr__(self, name):  # str methods
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.concrete(), name)

    def __lt__(self, o):
        return self.concrete() < str(o)

    def __gt__(self, o):
        return self.concrete() > str(o)

    def __bool__(self):
        return True


class HName(str):
    """A concrete string with the hash of SymName, so that both meet in dicts and
    sets.  Behaves as str otherwise."""

    def __hash__(self):
        return 17

    def __eq__(self, o):
        if isinstance(o, SymName):
            return o.__eq__(str(self))
        return str.__eq__(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)


def is_sym(x):
    return isinstance(x, Sym)


# --------------------------------------------------------------------------
# statistics


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.forks = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.unknown = 0
        self.concretizations = 0
        self.uninterpreted = 0
        self.validated = 0
        self.mismatches = 0
        self.float_divergences = 0
        self.covers = {}
        self.functions = set()
        self.samples = []
        self.notes = []

    def merge(self, o):
        for k in ("paths", "infeasible", "forks", "decisions", "queries", "solver_s",
                  "obligations", "discharged", "trivial", "unknown", "concretizations",
                  "uninterpreted", "validated", "mismatches", "float_divergences"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v
        self.functions |= o.functions
        self.samples = (self.samples + o.samples)[:6]
        self.notes = (self.notes + o.notes)[:40]


class Violation:
    def __init__(self, label, key, values, detail="", kind="check"):
        self.label = label
        self.key = key or label
        self.values = values
        self.detail = detail
        self.kind = kind

    def as_dict(self):
        return {"label": self.label, "key": self.key, "values": self.values,
                "detail": self.detail, "kind": self.kind}


# --------------------------------------------------------------------------
# contexts


class BaseCtx:
    concrete = False

    def __init__(self):
        self.covers = {}
        self.obs = []
        self.fp = {}
        self.cleanups = []

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def on_exit(self, f):
        self.cleanups.append(f)

    def finish(self):
        while self.cleanups:
            self.cleanups.pop()()

    def check_eq(self, a, b, label, key=None, detail=""):
        return self.check(self.eq(a, b), label, key, detail)


class SymCtx(BaseCtx):
    """One symbolic path."""

    concrete = False

    def __init__(self, prefix, stats, timeout_ms=10000):
        super().__init__()
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.alts = []
        self.stats = stats
        self.solver = z3.Solver()
        self.timeout_ms = timeout_ms
        self.solver.set("timeout", timeout_ms)
        self.pc = []
        self.model = None
        self.known = {}
        self._keep = []
        self.inputs = {}  # name -> (kind, term, meta)
        self.violations = []
        self.tokens = {}
        self.nfresh = 0
        self.sqrts = {}
        self.exps = []  # (x term, exp term)
        self.uns = {}
        self.formatter = None
        self.prefs = []
        self.unknown_labels = []

    # ---- solver
    def _check(self, solver, extra, ms):
        WATCH.start(ms)
        try:
            return solver.check(*extra)
        except z3.Z3Exception:
            return z3.unknown
        finally:
            WATCH.stop()

    def _add(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def _query(self, *extra, want_model=False):
        t0 = time.perf_counter()
        self.stats.queries += 1
        r = self._check(self.solver, extra, self.timeout_ms)
        m = self.solver.model() if r == z3.sat else None
        if r == z3.unknown and extra and self.prefs:
            # a counterexample among the preferred values is easier to find
            s = z3.Solver()
            s.set("timeout", self.timeout_ms)
            for p in list(self.pc) + list(extra) + self.prefs:
                s.add(p)
            self.stats.queries += 1
            if self._check(s, (), self.timeout_ms) == z3.sat:
                r, m = z3.sat, s.model()
        if r == z3.unknown:
            # second opinion: a fresh, non-incremental solver (nlsat etc.)
            s = z3.Solver()
            s.set("timeout", self.timeout_ms * 4)
            for p in self.pc:
                s.add(p)
            for p in extra:
                s.add(p)
            self.stats.queries += 1
            r = self._check(s, (), self.timeout_ms * 4)
            m = s.model() if r == z3.sat else None
        self.stats.solver_s += time.perf_counter() - t0
        return r, m

    def get_model(self):
        if self.model is None:
            r, m = self._query()
            if r == z3.unsat:
                self.stats.infeasible += 1
                raise PathEnd()
            if r == z3.unknown:
                return None
            self.model = m
        return self.model

    def branch(self, e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = self.known.get(e.get_id())
        if k is not None:
            return k
        val = self._decide(e)
        self._remember(e, val)
        return val

    def _remember(self, e, val):
        self.known[e.get_id()] = val
        self._keep.append(e)
        n = z3.simplify(z3.Not(e))
        self.known[n.get_id()] = not val
        self._keep.append(n)

    def _decide(self, e):
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(val)
            self._add(e if val else z3.Not(e))
            self.model = None
            return val
        self.pos += 1
        m = self.get_model()
        v = None
        if m is not None:
            ev = m.eval(e, model_completion=True)
            if z3.is_true(ev):
                v = True
            elif z3.is_false(ev):
                v = False
        if v is None:
            r, mm = self._query(e)
            if r == z3.unsat:
                v, other = False, "done"
            else:
                v, other = True, None
                self.model = mm
        r, mm = self._query(z3.Not(e) if v else e)
        if r != z3.unsat:
            self.stats.forks += 1
            self.alts.append(self.trace + [not v])
        self.trace.append(v)
        if self.model is not None:
            ev = self.model.eval(e, model_completion=True)
            if not (z3.is_true(ev) if v else z3.is_false(ev)):
                self.model = None
        self._add(e if v else z3.Not(e))
        return v

    def choose(self, e, lo, hi):
        """Enumerate the feasible integer values of a term by forking."""
        for v in range(lo, hi):
            if self.branch(_sm(e == v)):
                return v
        self.branch(_sm(e == hi))
        return hi

    def enum_int(self, si):
        lo, hi = si.lo, si.hi
        if lo is None or hi is None:
            lo, hi = -2, 40
        for v in range(lo, hi + 1):
            if self.branch(_sm(si.e == v)):
                return v
        raise PathEnd()

    def concretize(self, e):
        """Fallback: fix a term to one feasible value (recorded as incompleteness)."""
        self.stats.concretizations += 1
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.model = None
        else:
            self.pos += 1
            m = self.get_model()
            v = m.eval(e, model_completion=True) if m is not None else None
            n = num_of(v) if v is not None else None
            if n is None:
                n = Fraction(0) if v is None else to_fraction(v)
            val = ["val", n.numerator, n.denominator]
        self.trace.append(val)
        fr = Fraction(val[1], val[2])
        self._add(e == rv(fr))
        self.model = None
        return fr

    # ---- inputs
    def _new(self, name, kind, t, meta=None):
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        self.inputs[name] = (kind, t, meta)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        t = z3.Real(name)
        self._new(name, "real", t)
        if lo is not None:
            self._add(t > rv(lo) if lo_open else t >= rv(lo))
        if hi is not None:
            self._add(t < rv(hi) if hi_open else t <= rv(hi))
        self.model = None
        pos = lo is not None and (lo > 0 or (lo == 0 and lo_open))
        return SymReal(t, pos=pos)

    def double(self, name, lo, hi):
        """A double in [lo, hi], with rounding."""
        t = z3.FP(name, z3.Float64())
        self._new(name, "fp", t)
        x = SymFP(t)
        self._add(z3.And(z3.fpGEQ(t, SymFP.lift(lo)), z3.fpLEQ(t, SymFP.lift(hi))))
        self.model = None
        return x

    def int(self, name, lo, hi):
        t = z3.Int(name)
        self._new(name, "int", t)
        self._add(z3.And(t >= lo, t <= hi))
        self.model = None
        return SymInt(t, lo, hi)

    def fd(self, name, values):
        """A real drawn from a finite list (kept as an if-then-else term)."""
        t = z3.Int(name)
        self._new(name, "fd", t, list(values))
        self._add(z3.And(t >= 0, t < len(values)))
        self.model = None
        e = rv(values[-1])
        for i in range(len(values) - 2, -1, -1):
            e = z3.If(t == i, rv(values[i]), e)
        return SymReal(e)

    def bool(self, name):
        t = z3.Bool(name)
        self._new(name, "bool", t)
        return SymBool(t)

    def flag(self, name):
        """A boolean, decided now by forking."""
        return bool(self.bool(name))

    def choice(self, name, options):
        """One of the options, decided now by forking."""
        options = list(options)
        t = z3.Int(name)
        self._new(name, "choice", t, options)
        self._add(z3.And(t >= 0, t < len(options)))
        self.model = None
        if len(options) == 1:
            return options[0]
        return options[self.choose(t, 0, len(options) - 1)]

    def name(self, name, universe):
        universe = tuple(universe)
        t = z3.Int(name)
        self._new(name, "name", t, universe)
        self._add(z3.And(t >= 0, t < len(universe)))
        self.model = None
        return SymName(t, universe)

    # ---- assumptions and assertions
    def assume(self, c):
        if isinstance(c, bool) or type(c).__name__ == "bool_":
            if not c:
                self.stats.infeasible += 1
                raise PathEnd()
            return
        e = tobool(c)
        if z3.is_true(e):
            return
        self._add(e)
        if self.model is not None and not z3.is_true(
            self.model.eval(e, model_completion=True)
        ):
            self.model = None
        if self.pos >= len(self.prefix):
            self.get_model()

    def feasible(self, c):
        """Is c possible on this path? (coverage witnesses only)"""
        e = tobool(c)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return self._query(e)[0] == z3.sat

    def values(self, model):
        out = {}
        for name, (kind, t, meta) in self.inputs.items():
            v = model.eval(t, model_completion=True)
            if kind == "real":
                f = to_fraction(v)
                out[name] = [f.numerator, f.denominator]
            elif kind == "fp":
                f = to_fraction(z3.simplify(z3.fpToReal(v)))
                out[name] = [f.numerator, f.denominator]
            elif kind == "bool":
                out[name] = bool(z3.is_true(v))
            else:
                out[name] = v.as_long()
        return out

    def nice_model(self, extra):
        """Prefer a model whose reals are short dyadic numbers (exact in floats)."""
        s = z3.Solver()
        s.set("timeout", 3000)
        for p in self.pc:
            s.add(p)
        for p in extra:
            s.add(p)
        reals = [(n, t) for n, (k, t, _) in self.inputs.items() if k == "real"]
        best = None
        if self.prefs and extra:
            s.push()
            for p in self.prefs:
                s.add(p)
            if s.check() == z3.sat:
                best = s.model()
            else:
                s.pop()
        for den in (16, 4096):
            s.push()
            for n, t in reals:
                s.add(t * den == z3.ToReal(z3.Int("nice!%d!%s" % (den, n))))
            if s.check() == z3.sat:
                return s.model()
            s.pop()
        return best

    def _defer_interior(self, ne):
        """A last candidate for the replay, computed only if the others fail to
        reproduce: one away from the boundaries of the comparisons made on the path,
        where rounding could decide them differently."""
        pc = list(self.pc) + ([ne] if ne is not None else [])

        def values():
            m = self._interior(pc)
            return None if m is None else self.values(m)

        self.violations[-1].interior = values

    def _interior(self, pc, seconds=20.0):
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(*pc)
        gaps = []
        for p in pc:
            neg = z3.is_not(p)
            a = p.arg(0) if neg else p
            if not (z3.is_le(a) or z3.is_lt(a) or z3.is_ge(a) or z3.is_gt(a)):
                continue
            x, y = a.arg(0), a.arg(1)
            if not z3.is_real(x):
                continue
            gaps.append(y - x if (z3.is_le(a) or z3.is_lt(a)) != neg else x - y)
        end = time.perf_counter() + seconds
        best = s.model() if self._check(s, (), 2000) == z3.sat else None
        for margin in (z3.Q(1, 64), z3.Q(1, 4096), z3.Q(1, 10**6)):
            left = []
            for g in gaps:
                if time.perf_counter() > end:
                    break
                s.push()
                s.add(g >= margin)
                if self._check(s, (), 2000) == z3.sat:
                    best = s.model()
                else:
                    s.pop()
                    left.append(g)
            gaps = left
        return best

    def prefer(self, cond):
        """Counterexamples satisfying this are preferred (no effect on verdicts)."""
        self.prefs.append(tobool(cond))

    def check(self, c, label, key=None, detail=""):
        self.stats.obligations += 1
        if isinstance(c, bool) or type(c).__name__ == "bool_":
            if c:
                self.stats.discharged += 1
                self.stats.trivial += 1
                return True
            m = self.get_model()
            if m is None:
                self.stats.unknown += 1
                self.unknown_labels.append(label)
                return False
            m = self.nice_model([]) or m
            self.violations.append(Violation(label, key, self.values(m), str(detail)))
            self._defer_interior(None)
            return False
        e = tobool(c)
        if z3.is_true(e):
            self.stats.discharged += 1
            self.stats.trivial += 1
            return True
        k = self.known.get(e.get_id())
        if k is True:
            self.stats.discharged += 1
            return True
        ne = z3.Not(e)
        if nonlinear(ne) and self._abstract_unsat(ne):
            self.stats.discharged += 1
            self._remember(e, True)
            return True
        r, m = self._query(ne)
        if r == z3.unsat:
            self.stats.discharged += 1
            self._remember(e, True)
            return True
        if r == z3.unknown:
            self.stats.unknown += 1
            self.unknown_labels.append(label)
            return False
        m2 = self.nice_model([ne]) or m
        self.violations.append(Violation(label, key, self.values(m2), str(detail)))
        if m2 is not m:
            # keep the plain model too: a second candidate for the replay
            self.violations[-1].alt = self.values(m)
        self._defer_interior(ne)
        # go on under the assumption that it holds, if possible
        self._add(e)
        self.model = None
        return False

    def _abstract_unsat(self, ne):
        """Try to refute path-condition AND ne in a linear abstraction: quotients
        and products of terms become constants related by congruence, sign and
        unit-interval lemmas (each valid over the reals, so unsat is sound)."""
        t0 = time.perf_counter()
        ab = LinearAbstraction()
        fs = [ab.go(f) for f in self.pc + [ne]]
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        for f in fs + ab.lemmas():
            s.add(f)
        self.stats.queries += 1
        r = self._check(s, (), self.timeout_ms)
        self.stats.solver_s += time.perf_counter() - t0
        return r == z3.unsat

    def fail(self, label, key=None, detail=""):
        return self.check(False, label, key, detail)

    # ---- equality for the oracle (exact over the reals)
    def eq(self, a, b):
        import numpy as np

        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
            if a.shape != b.shape:
                return False
            return And(*[self.eq(x, y) for x, y in zip(a.ravel(), b.ravel())])
        if is_sym(a) and not is_sym(b):
            a, b = b, a
        if is_sym(a) or is_sym(b):
            if isinstance(b, (SymReal, SymInt)) and not is_sym(a):
                if not _isnum(a):
                    return False
                if isinstance(a, (float, np.floating)) and not math.isfinite(a):
                    return False
            if isinstance(a, SymReal) and isinstance(b, SymReal):
                return mkbool(div_eq(a.e, b.e))
            r = b == a
            return False if r is NotImplemented else r
        if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
            # both concrete although symbolic mode: float arithmetic happened
            return close(a, b)
        return bool(a == b)

    def le(self, a, b):
        r = a <= b
        return r

    # ---- derived values
    def fresh(self, base):
        self.nfresh += 1
        return z3.Real("%s!%d" % (base, self.nfresh))

    def sqrt(self, x, pos=False, nonneg=False, least=0):
        e = _sm(x.e)
        n = num_of(e)
        if n is not None:
            return math.sqrt(float(n))
        # sqrt(y*y) -> |y|
        if z3.is_app_of(e, z3.Z3_OP_POWER) and num_of(e.arg(1)) == 2:
            return abs(SymReal(e.arg(0)))
        if z3.is_mul(e) and e.num_args() == 2 and e.arg(0).eq(e.arg(1)):
            return abs(SymReal(e.arg(0)))
        k = e.get_id()
        if k not in self.sqrts:
            s = self.fresh("sqrt")
            fact = z3.And(s >= rv(least), s * s == e)
            self._add(fact if nonneg else z3.Implies(e >= 0, fact))
            self.model = None
            self.sqrts[k] = (s, e)
        return SymReal(self.sqrts[k][0], pos=pos or x.pos)

    def exp(self, x):
        if x.logof is not None:
            return x.logof
        e = _sm(x.e)
        for xe, ee in self.exps:
            if xe.eq(e):
                return SymReal(ee, pos=True)
        t = self.fresh("exp")
        self._add(t > 0)
        self._link_exp(e, t)
        return SymReal(t, pos=True)

    def _link_exp(self, x, t):
        self._add((x > 0) == (t > 1))
        self._add((x < 0) == (t < 1))
        for xe, ee in self.exps:
            self._add((x < xe) == (t < ee))
            self._add((x == xe) == (t == ee))
        self.exps.append((x, t))
        self.model = None

    def log(self, x):
        for xe, ee in self.exps:
            if ee.eq(x.e):
                return SymReal(xe, logof=x)
        s = self.fresh("log")
        self._add(x.e > 0)
        self._link_exp(s, x.e)
        return SymReal(s, logof=SymReal(x.e, pos=True))

    def log_const(self, c):
        """Register the logarithm of a concrete number (used with log terms)."""
        v = math.log(c)
        self._link_exp(rv(v), rv(c))
        return v

    def uninterpreted(self, name, args):
        self.stats.uninterpreted += 1
        ts = []
        for a in args:
            t = term(a)
            if t is None:
                raise Unsupported(name)
            ts.append(t)
        f = self.uns.get((name, len(ts)))
        if f is None:
            f = z3.Function("un_" + name, *([z3.RealSort()] * (len(ts) + 1)))
            self.uns[(name, len(ts))] = f
        return SymReal(f(*ts))

    def format(self, v, spec):
        if self.formatter is not None:
            return self.formatter(v, spec)
        return "<sym>"

    def observe(self, name, value):
        self.obs.append((name, value))


_NL = {}


def _nl_node(e):
    if z3.is_div(e):
        return not is_num(e.arg(1))
    if z3.is_mul(e):
        return sum(1 for a in e.children() if not is_num(a)) > 1
    if z3.is_app_of(e, z3.Z3_OP_POWER):
        return not is_num(e)
    return False


def nonlinear(e):
    seen = set()
    work = [e]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if _nl_node(x):
            return True
        work.extend(x.children())
    return False


class LinearAbstraction:
    def __init__(self):
        self.memo = {}
        self.divs = []
        self.muls = []
        self.keep = []
        self.n = 0

    def fresh(self):
        self.n += 1
        return z3.Real("abs!%d" % self.n)

    def go(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        self.keep.append(e)
        ch = [self.go(x) for x in e.children()]
        if _nl_node(e):
            if z3.is_div(e):
                r = self.fresh()
                self.divs.append((r, ch[0], ch[1]))
            elif z3.is_mul(e):
                num = [c for c in ch if is_num(c)]
                oth = [c for c in ch if not is_num(c)]
                r = oth[0]
                for x in oth[1:]:
                    r = self.product(r, x)
                for c in num:
                    r = c * r
            else:
                n = num_of(e.arg(1))
                if n is not None and n.denominator == 1 and 2 <= n <= 4:
                    r = ch[0]
                    for _ in range(int(n) - 1):
                        r = self.product(r, ch[0])
                else:
                    r = self.fresh()
        else:
            r = e.decl()(*ch) if ch and not z3.is_quantifier(e) else e
        self.memo[k] = r
        self.keep.append(r)
        return r

    def product(self, a, b):
        for r, x, y in self.muls:
            if (x.eq(a) and y.eq(b)) or (x.eq(b) and y.eq(a)):
                return r
        r = self.fresh()
        self.muls.append((r, a, b))
        return r

    def lemmas(self):
        out = []
        for i, (r, a, b) in enumerate(self.divs):
            out += [
                z3.Implies(z3.And(b > 0, a >= 0), r >= 0),
                z3.Implies(z3.And(b > 0, a > 0), r > 0),
                z3.Implies(z3.And(b > 0, a <= 0), r <= 0),
                z3.Implies(z3.And(b > 0, a <= b), r <= 1),
                z3.Implies(z3.And(b > 0, a >= b), r >= 1),
                z3.Implies(z3.And(b > 0, a >= -b), r >= -1),
                z3.Implies(z3.And(b != 0, a == 0), r == 0),
                z3.Implies(z3.And(b != 0, a == b), r == 1),
            ]
            for r2, a2, b2 in self.divs[:i]:
                out.append(z3.Implies(z3.And(a == a2, b == b2), r == r2))
                out.append(z3.Implies(z3.And(b > 0, b == b2, a <= a2), r <= r2))
                out.append(z3.Implies(z3.And(b > 0, b == b2, a >= a2), r >= r2))
                out.append(z3.Implies(z3.And(a == -a2, b == b2), r == -r2))
        for i, (r, a, b) in enumerate(self.muls):
            out += [
                z3.Implies(z3.Or(a == 0, b == 0), r == 0),
                z3.Implies(z3.And(a > 0, b > 0), r > 0),
                z3.Implies(z3.And(a >= 0, b >= 0), r >= 0),
                z3.Implies(z3.And(a >= 0, b >= 0, a <= 1), r <= b),
                z3.Implies(z3.And(a >= 0, b >= 0, b <= 1), r <= a),
                z3.Implies(a == 1, r == b), z3.Implies(b == 1, r == a),
                z3.Implies(a == -1, r == -b), z3.Implies(b == -1, r == -a),
            ]
            for r2, a2, b2 in self.muls[:i]:
                out.append(z3.Implies(z3.And(a == a2, b == b2), r == r2))
                out.append(z3.Implies(z3.And(a == b2, b == a2), r == r2))
                out.append(z3.Implies(z3.And(a == -a2, b == b2), r == -r2))
        for r, a, b in self.muls:  # (n/d) * d == n
            for q, n, d in self.divs:
                if a.eq(q):
                    out.append(z3.Implies(z3.And(b == d, d != 0), r == n))
                if b.eq(q):
                    out.append(z3.Implies(z3.And(a == d, d != 0), r == n))
        return out


def div_eq(a, b):
    """a == b, comparing quotients by components when both are divisions."""
    if a.eq(b):
        return z3.BoolVal(True)
    return a == b


def to_fraction(v):
    n = num_of(v)
    if n is not None:
        return n
    if z3.is_algebraic_value(v):
        ap = v.approx(30)
        return Fraction(ap.numerator_as_long(), ap.denominator_as_long())
    return Fraction(0)


def close(a, b, rel=1e-9, ab=1e-12):
    try:
        a = float(a)
        b = float(b)
    except Exception:
        return a == b
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), ab)


class ConCtx(BaseCtx):
    """Concrete run of the same harness on the values of a model."""

    concrete = True

    def __init__(self, values, exact=False):
        super().__init__()
        self.vals = values
        self.violations = []
        self.used = {}
        self.atol = 1e-12
        self.stats = Stats()

    def _get(self, name, default):
        v = self.vals.get(name, default)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self._get(name, None)
        if v is None:
            if lo is not None and hi is not None:
                return (lo + hi) / 2.0
            if lo is not None:
                return float(lo) + 1.0
            if hi is not None:
                return float(hi) - 1.0
            return 0.0
        return float(Fraction(v[0], v[1]))

    def double(self, name, lo, hi):
        return self.real(name, lo, hi)

    def int(self, name, lo, hi):
        return int(self._get(name, lo))

    def fd(self, name, values):
        return float(values[self._get(name, 0)])

    def bool(self, name):
        return bool(self._get(name, False))

    flag = bool

    def choice(self, name, options):
        options = list(options)
        i = self._get(name, 0)
        return options[min(i, len(options) - 1)]

    def name(self, name, universe):
        return str(tuple(universe)[self._get(name, 0)])

    def assume(self, c):
        if not c:
            raise PathEnd()

    def check(self, c, label, key=None, detail=""):
        if not bool(c):
            self.violations.append(Violation(label, key, self.vals, str(detail)))
            return False
        return True

    def fail(self, label, key=None, detail=""):
        return self.check(False, label, key, detail)

    def prefer(self, cond):
        pass

    def eq(self, a, b):
        import numpy as np

        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a, b = np.asarray(a), np.asarray(b)
            if a.shape != b.shape:
                return False
            return all(self.eq(x, y) for x, y in zip(a.ravel(), b.ravel()))
        if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
            return close(a, b, ab=self.atol)
        return bool(a == b)

    def le(self, a, b):
        return a <= b or close(a, b)

    def log_const(self, c):
        return math.log(c)

    def observe(self, name, value):
        self.obs.append((name, value))


ConCtx.flag = ConCtx.bool


# --------------------------------------------------------------------------
# running harnesses


def _alarm(signum, frame):
    raise PathTimeout()


def run_guarded(fn, c, seconds):
    """Run fn(c) with the context installed and a wall-clock limit."""
    set_ctx(c)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        fn(c)
        return None
    except PathEnd:
        return "cut"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        try:
            c.finish()
        finally:
            set_ctx(None)


def exc_key(ex):
    return "exception:" + type(ex).__name__


def run_concrete(fn, values, seconds=60):
    """Returns (violations, ctx)."""
    c = ConCtx(values)
    try:
        run_guarded(fn, c, seconds)
    except PathTimeout:
        c.violations.append(Violation("does not terminate", "hang", values, kind="hang"))
    except Unsupported as ex:
        c.violations.append(Violation("unsupported: %s" % ex, "unsupported", values, kind="error"))
    except Exception as ex:  # noqa: BLE001
        import traceback

        c.violations.append(
            Violation("raises %s: %s" % (type(ex).__name__, ex), exc_key(ex), values,
                      detail=traceback.format_exc()[-1500:], kind="exception"))
    return c.violations, c


class Explorer:
    """Depth-first exploration of one harness from a list of prefixes."""

    def __init__(self, fn, known=(), validate_every=1, max_validate=40, path_seconds=60,
                 timeout_ms=10000):
        self.fn = fn
        self.known = set(known)
        self.stats = Stats()
        self.violations = []  # reproduced
        self.unreproduced = []
        self.known_hits = {}
        self.errors = []
        self.validate_every = validate_every
        self.max_validate = max_validate
        self.path_seconds = path_seconds
        self.timeout_ms = timeout_ms
        self.stop_on_violation = True

    def explore(self, prefixes, deadline, max_paths=None):
        """Explores until done or deadline; returns the unexplored prefixes."""
        work = list(prefixes)
        n = 0
        while work:
            if time.time() > deadline or (max_paths and n >= max_paths):
                break
            if self.violations and self.stop_on_violation:
                return []
            prefix = work.pop()
            work.extend(self.one(prefix))
            n += 1
        return work

    def one(self, prefix):
        c = SymCtx(prefix, self.stats, self.timeout_ms)
        extra = None
        status = None
        try:
            status = run_guarded(self.fn, c, self.path_seconds)
        except PathTimeout:
            extra = ("does not terminate within %ss" % self.path_seconds, "hang", "hang")
        except Unsupported as ex:
            self.errors.append("unsupported operation: %s" % ex)
        except Exception as ex:  # noqa: BLE001
            import traceback

            extra = ("raises %s: %s" % (type(ex).__name__, ex), exc_key(ex), "exception",
                     traceback.format_exc()[-1500:])
        if extra is not None:
            set_ctx(c)
            try:
                m = c.get_model()
                if m is not None:
                    m = c.nice_model([]) or m
                    c.violations.append(
                        Violation(extra[0], extra[1], c.values(m),
                                  extra[3] if len(extra) > 3 else "", kind=extra[2]))
                else:
                    self.errors.append("no model for failing path: " + extra[0])
            except PathEnd:
                pass
            finally:
                set_ctx(None)
        if status is None and extra is None:
            self.stats.paths += 1
            for k, v in c.covers.items():
                self.stats.covers[k] = self.stats.covers.get(k, 0) + v
            if (self.stats.paths % self.validate_every == 0
                    and self.stats.validated < self.max_validate and not c.violations):
                self.validate(c)
        for lab in c.unknown_labels:
            self.errors.append("solver answered unknown for: " + lab)
        for v in c.violations:
            self.replay(v)
        return c.alts

    def validate(self, c):
        """Run the path's model on the real code and compare observations.  If that
        disagrees, try once more away from the comparisons' boundaries, where
        rounding cannot be the reason."""
        for again in (False, True):
            try:
                set_ctx(c)
                m = c._interior(list(c.pc), 5.0) if again else c.nice_model([]) or c.get_model()
                if m is None:
                    break
                vals = c.values(m)
            except PathEnd:
                return
            finally:
                set_ctx(None)
            note = self._compare(c, m, vals)
            if note is None:
                self.stats.validated += 1
                return
            first = note if not again else first
        if not again or not first:
            return
        if first.startswith("observation"):
            self.stats.mismatches += 1
        else:
            self.stats.float_divergences += 1
        self.stats.notes.append(first)

    def _compare(self, c, m, vals):
        vio, cc = run_concrete(self.fn, vals, self.path_seconds)
        if vio and all(v.key in self.known for v in vio):
            vio = []
        if vio:
            return "concrete run of a proved path fails: %s %s" % (
                vio[0].label, vio[0].detail[-300:])
        if len(cc.obs) != len(c.obs):
            return ""  # an assumption failed in floating point: says nothing
        for (n1, sv), (n2, cv) in zip(c.obs, cc.obs):
            if n1 != n2 or not same_under_model(m, sv, cv):
                return "observation %s: symbolic %s, real %s" % (
                    n1, eval_under(m, sv), cv) + " at %s" % {
                        k: show(x) for k, x in list(vals.items())[:12]}
        if len(self.stats.samples) < 3:
            self.stats.samples.append({
                "inputs": {k: show(v) for k, v in list(vals.items())[:24]},
                "observed": [[n, str(v)[:160]] for n, v in cc.obs[:6]]})
        return None

    def replay(self, v):
        candidates = [v.values] + ([v.alt] if hasattr(v, "alt") else [])
        while True:
            if not candidates and hasattr(v, "interior"):
                candidates = [v.interior()]
                del v.interior
            if not candidates or candidates[0] is None:
                break
            vals = candidates.pop(0)
            vio, cc = run_concrete(self.fn, vals, self.path_seconds)
            hits = [x for x in vio if x.kind != "error"]
            if hits:
                same = [x for x in hits if x.key == v.key]
                x = (same or hits)[0]
                if x.key in self.known:
                    unk = [y for y in hits if y.key not in self.known]
                    if not unk:
                        self.known_hits.setdefault(x.key, x.label)
                        return
                    x = unk[0]
                x.values = vals
                self.violations.append(x)
                return
        self.unreproduced.append("%s [%s] %s" % (v.label, v.key, str(v.values)[:400]))


def show(v):
    if isinstance(v, list) and len(v) == 2:
        return float(Fraction(v[0], v[1]))
    return v


def eval_under(m, v):
    import numpy as np

    if isinstance(v, (SymReal, SymInt)):
        r = m.eval(v.e, model_completion=True)
        return float(to_fraction(r))
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, SymName):
        return v.universe[m.eval(v.e, model_completion=True).as_long()]
    if isinstance(v, np.ndarray):
        return [eval_under(m, x) for x in v.ravel()]
    if isinstance(v, (list, tuple)):
        return [eval_under(m, x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(str(eval_under(m, x)) for x in v)
    if isinstance(v, dict):
        return {str(eval_under(m, k)): eval_under(m, x) for k, x in v.items()}
    return v


def same_under_model(m, sv, cv):
    import numpy as np

    a = eval_under(m, sv)
    if isinstance(cv, np.ndarray):
        b = [x for x in cv.ravel()]
    elif isinstance(cv, (set, frozenset)):
        b = sorted(str(x) for x in cv)
    elif isinstance(cv, tuple):
        b = list(cv)
    else:
        b = cv
    return _same(a, b)


def _same(a, b):
    if isinstance(a, list) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == {str(k) for k in b} and all(
            _same(a[str(k)], v) for k, v in b.items())
    try:
        return close(float(a), float(b), rel=1e-7, ab=1e-9)
    except Exception:
        return str(a) == str(b)
