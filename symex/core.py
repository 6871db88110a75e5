"""
Dynamic symbolic execution core.

The functions under test are the *real* functions imported from /repo: they
are called with proxy values (``Sym``) that carry z3 terms.  Control flow that
depends on a symbolic value forks the execution (re-execution with a decision
prefix), so that the set of explored paths is exhaustive within the declared
bounds.  Assertions (``ctx.prove``) are discharged by z3 for every value that
satisfies the path condition.

Arithmetic is over the reals/integers (see DESIGN.md, "Number model").
"""

import math
import os
import time
import fractions
import numbers
import operator
import random

import numpy as _np
import z3

Fraction = fractions.Fraction

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class PathAbort(BaseException):
    """Current path is infeasible or was cut by an assumption."""


class PathCut(BaseException):
    """Current path leaves the declared bounds (recorded)."""


class Unsupported(Exception):
    """The engine cannot encode an operation."""


class Inconclusive(Exception):
    """The solver gave no answer, or a cap was hit."""


# --------------------------------------------------------------------------
# current context
# --------------------------------------------------------------------------
_CUR = [None]


def cur():
    return _CUR[0]


def symbolic_active():
    return _CUR[0] is not None and _CUR[0].symbolic


# --------------------------------------------------------------------------
# conversions
# --------------------------------------------------------------------------
_NUMCACHE = {}


def to_fraction(v):
    if isinstance(v, (bool, _np.bool_)):
        return Fraction(int(v))
    if isinstance(v, (int, _np.integer)):
        return Fraction(int(v))
    if isinstance(v, Fraction):
        return v
    f = float(v)
    fr = Fraction(repr(f))
    if fr.denominator > 10 ** 13:
        # floats stand for reals: undo the rounding of e.g. 2/3
        g = fr.limit_denominator(10 ** 5)
        if abs(g - fr) <= abs(fr) * Fraction(1, 10 ** 14):
            return g
    return fr


def z3num(v):
    """Python number -> z3 numeral (Int if integral type, else Real)."""
    if isinstance(v, (bool, _np.bool_)):
        return z3.IntVal(int(v))
    if isinstance(v, (int, _np.integer)):
        return z3.IntVal(int(v))
    fr = to_fraction(v)
    return z3.RealVal("{}/{}".format(fr.numerator, fr.denominator))


def is_num(v):
    return isinstance(v, (int, float, Fraction, _np.number, _np.bool_)) \
        and not isinstance(v, Sym)


def is_nonfinite(v):
    return isinstance(v, (float, _np.floating)) and not math.isfinite(v)


def is_sym(v):
    return isinstance(v, Sym)


def has_sym(v, depth=3):
    if isinstance(v, Sym):
        return True
    if isinstance(v, _np.ndarray):
        if hasattr(v, "_raw"):
            v = v._raw()
        if v.dtype != object:
            return False
        return any(isinstance(e, Sym) or (isinstance(e, _np.ndarray) and
                                          has_sym(e))
                   for e in _np.asarray(v, dtype=object).ravel().tolist()) \
            if v.size else False
    if depth and isinstance(v, (list, tuple)):
        return any(has_sym(e, depth - 1) for e in v)
    return False


def zr(v):
    """value -> z3 arithmetic expr (Int or Real)."""
    if isinstance(v, Sym):
        if v.kind == "b":
            return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
        return v.e
    return z3num(v)


def zreal(v):
    e = zr(v)
    if e.is_int():
        return z3.ToReal(e) if not z3.is_int_value(e) else \
            z3.RealVal(e.as_long())
    return e


def zb(v):
    """value -> z3 Bool."""
    if isinstance(v, Sym):
        if v.kind == "b":
            return v.e
        return v.e != 0
    if isinstance(v, z3.BoolRef):
        return v
    return z3.BoolVal(bool(v))


def lift(e):
    """z3 expr -> Sym or python constant."""
    if z3.is_bool(e):
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return Sym(e, "b")
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return const_from_fraction(
            Fraction(e.numerator_as_long(), e.denominator_as_long()))
    return Sym(e, "i" if e.is_int() else "r")


def const_from_fraction(fr):
    f = float(fr)
    if Fraction(repr(f)) == fr:
        return f
    return fr_const(fr)


class fr_const(float):
    """Rational constant which is not an exact float; behaves as float."""
    def __new__(cls, fr):
        o = float.__new__(cls, float(fr))
        return o


def b01(e):
    """Boolean z3 expr seen as a 0/1 integer decision variable."""
    s = Sym(z3.If(e, z3.IntVal(1), z3.IntVal(0)), "i")
    s.b01 = e
    return s


# --------------------------------------------------------------------------
# symbolic scalars
# --------------------------------------------------------------------------
class Sym:
    __slots__ = ("e", "kind", "b01", "q")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __new__(cls, e, kind):
        return object.__new__(_KINDS.get(kind, Sym))

    def __init__(self, e, kind):
        self.e = e
        self.kind = kind
        self.b01 = None
        self.q = None

    # -- python protocol ---------------------------------------------------
    def __bool__(self):
        c = cur()
        if c is None:
            raise Unsupported("symbolic value escaped its context")
        return c.branch(zb(self))

    def __hash__(self):
        if cur().meta.get("hash_id"):      # values only put in messages
            return id(self)
        raise Unsupported("hash of a symbolic value")

    def __index__(self):
        return cur().concretize_int(self)

    def __int__(self):
        return cur().concretize_int(sym_int(self))

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __repr__(self):
        return "<{}>".format(str(self.e)[:60])

    def __str__(self):
        return self.__format__("")

    def __format__(self, spec):
        return cur().token(self, spec)

    # -- arithmetic --------------------------------------------------------
    def _bin(self, other, f, swap=False):
        if isinstance(other, _np.ndarray):
            from . import npx
            r = npx.elementwise(f, other, self) if swap else \
                npx.elementwise(f, self, other)
            if type(other) is _np.ndarray and other.dtype == object and \
                    isinstance(r, npx.SymArray):
                return r._raw()      # pandas object column: stays one
            return r
        if isinstance(other, Sym) or is_num(other):
            r = f(other, self) if swap else f(self, other)
            # symbolic values come from arrays: numpy scalar arithmetic
            return _np.float64(r) if type(r) is float else r
        return NotImplemented

    def __add__(self, o): return self._bin(o, s_add)
    def __radd__(self, o): return self._bin(o, s_add, True)
    def __sub__(self, o): return self._bin(o, s_sub)
    def __rsub__(self, o): return self._bin(o, s_sub, True)
    def __mul__(self, o): return self._bin(o, s_mul)
    def __rmul__(self, o): return self._bin(o, s_mul, True)
    def __truediv__(self, o): return self._bin(o, s_div)
    def __rtruediv__(self, o): return self._bin(o, s_div, True)
    def __floordiv__(self, o): return self._bin(o, s_floordiv)
    def __rfloordiv__(self, o): return self._bin(o, s_floordiv, True)
    def __mod__(self, o): return self._bin(o, s_mod)
    def __rmod__(self, o): return self._bin(o, s_mod, True)
    def __pow__(self, o): return self._bin(o, s_pow)
    def __rpow__(self, o): return self._bin(o, s_pow, True)
    def __neg__(self): return s_neg(self)
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)
    def __round__(self, n=0): return s_round(self, n or 0)
    def __floor__(self): return s_floor(self)
    def __ceil__(self): return s_ceil(self)
    def __trunc__(self): return sym_int(self)

    # -- comparisons -------------------------------------------------------
    def __lt__(self, o): return self._bin(o, s_lt)
    def __le__(self, o): return self._bin(o, s_le)
    def __gt__(self, o): return self._bin(o, s_gt)
    def __ge__(self, o): return self._bin(o, s_ge)

    def __eq__(self, o):
        r = self._bin(o, s_eq)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._bin(o, s_ne)
        return True if r is NotImplemented else r

    # -- boolean -----------------------------------------------------------
    def __and__(self, o): return self._bin(o, s_and)
    def __rand__(self, o): return self._bin(o, s_and, True)
    def __or__(self, o): return self._bin(o, s_or)
    def __ror__(self, o): return self._bin(o, s_or, True)
    def __xor__(self, o): return self._bin(o, s_xor)
    def __rxor__(self, o): return self._bin(o, s_xor, True)
    def __invert__(self): return s_invert(self)

    # -- numpy-scalar-like attributes ---------------------------------------
    @property
    def dtype(self):
        return {"i": _np.dtype(_np.int64), "r": _np.dtype(float),
                "b": _np.dtype(bool)}[self.kind]

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, t):
        return cast(self, t)

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self != 0

    def all(self, *a, **k):
        return self != 0

    def ravel(self):
        from . import npx
        return npx.wrap([self])

    # object-array ufunc hooks
    def log(self): return s_log(self)
    def exp(self): return s_exp(self)
    def sqrt(self): return s_sqrt(self)
    def rint(self): return s_round(self, 0)
    def floor(self): return s_floor(self)
    def ceil(self): return s_ceil(self)
    def conjugate(self): return self

    # solver-variable API (ortools stubs)
    def Not(self):
        return s_sub(1, self) if self.b01 is None else b01(z3.Not(self.b01))

    def negated(self):
        return self.Not()

    def solution_value(self):
        c = cur()
        return c.solution_value(self)

    def Name(self):
        return str(self.e)


class SymI(Sym):
    """symbolic integer: numbers.Integral for parameter validation"""
    __slots__ = ()


class SymR(Sym):
    __slots__ = ()


_KINDS = {"i": SymI, "r": SymR}
numbers.Integral.register(SymI)
numbers.Real.register(SymR)


def _both_const(a, b):
    return not isinstance(a, Sym) and not isinstance(b, Sym)


def _nf(a, b):
    return is_nonfinite(a) or is_nonfinite(b)


def py(v):
    if isinstance(v, _np.generic):
        return v.item()
    return v


def s_add(a, b):
    if _both_const(a, b):
        return py(a) + py(b)
    if _nf(a, b):
        return a if is_nonfinite(a) else b
    if not isinstance(a, Sym) and a == 0:
        return b if b.kind != "b" else lift(zr(b))
    if not isinstance(b, Sym) and b == 0:
        return a if a.kind != "b" else lift(zr(a))
    if isinstance(a, Sym) and isinstance(b, Sym) and a.kind == b.kind == "b":
        pass
    return lift(zr(a) + zr(b))


def s_sub(a, b):
    if _both_const(a, b):
        return py(a) - py(b)
    if _nf(a, b):
        return a if is_nonfinite(a) else -b
    if not isinstance(b, Sym) and b == 0:
        return a if a.kind != "b" else lift(zr(a))
    if isinstance(a, Sym) and isinstance(b, Sym) and a.e.eq(b.e):
        return 0 if a.kind != "r" else 0.0
    return lift(zr(a) - zr(b))


def s_mul(a, b):
    if _both_const(a, b):
        return py(a) * py(b)
    if _nf(a, b):
        s, c = (a, b) if isinstance(a, Sym) else (b, a)
        if isinstance(s, Sym):
            if math.isnan(c):
                return math.nan
            if cur().branch(zr(s) > 0):
                return c
            if cur().branch(zr(s) == 0):
                return math.nan
            return -c
    for u, v in ((a, b), (b, a)):
        if not isinstance(u, Sym):
            if u == 1:
                return v if v.kind != "b" else lift(zr(v))
            if u == 0:
                return 0 if (isinstance(u, (int, _np.integer)) and
                             v.kind != "r") else 0.0
    for u, v in ((a, b), (b, a)):
        if isinstance(u, Sym) and u.b01 is not None:
            if isinstance(v, Sym) and v.b01 is not None:
                return b01(z3.And(u.b01, v.b01))
            ve = zr(v)
            zero = z3.IntVal(0) if ve.is_int() else z3.RealVal(0)
            return Sym(z3.If(u.b01, ve, zero), "i" if ve.is_int() else "r")
        if isinstance(u, Sym) and u.kind == "b":
            ve = zr(v)
            zero = z3.IntVal(0) if ve.is_int() else z3.RealVal(0)
            return Sym(z3.If(u.e, ve, zero), "i" if ve.is_int() else "r")
    # quotient * denominator
    for u, v in ((a, b), (b, a)):
        if isinstance(u, Sym) and u.q is not None and isinstance(v, Sym):
            if zreal(v).eq(u.q[1]):
                return lift(u.q[0])
    if isinstance(a, Sym) and isinstance(b, Sym):
        cur().nonlinear = True
    return lift(zr(a) * zr(b))


def s_div(a, b):
    if _both_const(a, b):
        a, b = float(a), float(b)
        if b == 0:
            if a == 0 or math.isnan(a):
                return math.nan
            return math.inf if a > 0 else -math.inf
        try:
            return a / b
        except OverflowError:
            return math.inf
    if _nf(a, b):
        if is_nonfinite(b):
            return math.nan if math.isnan(b) else 0.0
        if math.isnan(a):
            return math.nan
        if cur().branch(zr(b) >= 0):
            return a
        return -a
    if not isinstance(b, Sym):
        if b == 0:
            if cur().branch(zr(a) == 0):
                return math.nan
            if cur().branch(zr(a) > 0):
                return math.inf
            return -math.inf
        fr = 1 / to_fraction(b)
        return lift(z3.simplify(
            zreal(a) * z3.RealVal("{}/{}".format(fr.numerator,
                                                 fr.denominator))))
    c = cur()
    if c.branch(zr(b) == 0):
        if not isinstance(a, Sym):
            if a == 0:
                return math.nan
            return math.inf if a > 0 else -math.inf
        if c.branch(zr(a) == 0):
            return math.nan
        if c.branch(zr(a) > 0):
            return math.inf
        return -math.inf
    return c.quotient(zreal(a), zreal(b))


def s_floordiv(a, b):
    if _both_const(a, b):
        return py(a) // py(b)
    if isinstance(b, Sym):
        if cur().branch(zr(b) == 0):
            raise ZeroDivisionError
        ea, eb = zr(a), zr(b)
        if ea.is_int() and eb.is_int():
            if cur().branch(eb > 0):
                return lift(ea / eb)
            raise Unsupported("floordiv by negative")
        return s_floor(s_div(a, b))
    ea = zr(a)
    if ea.is_int() and isinstance(b, (int, _np.integer)) and b > 0:
        return lift(ea / z3num(b))
    return lift(z3.ToReal(zr(s_floor(s_div(a, b)))))


def s_mod(a, b):
    if _both_const(a, b):
        return py(a) % py(b)
    ea, eb = zr(a), zr(b)
    if ea.is_int() and eb.is_int():
        if isinstance(b, Sym) and not cur().branch(eb > 0):
            raise Unsupported("mod by non positive")
        return lift(ea % eb)
    return s_sub(a, s_mul(b, s_floor(s_div(a, b))))


def s_pow(a, b):
    if _both_const(a, b):
        return py(a) ** py(b)
    if isinstance(b, Sym):
        if not isinstance(a, Sym) and a > 0:
            return s_exp(s_mul(math.log(a), b))
        return s_exp(s_mul(b, s_log(a)))
    if isinstance(b, (float, _np.floating)) and float(b).is_integer():
        b = int(b)
    if isinstance(b, (int, _np.integer)):
        b = int(b)
        if b == 0:
            return 1
        if b < 0:
            return s_div(1, s_pow(a, -b))
        r = a
        for _ in range(b - 1):
            r = s_mul(r, a)
        return r
    if b == 0.5:
        return s_sqrt(a)
    return s_exp(s_mul(b, s_log(a)))


def s_neg(a):
    if not isinstance(a, Sym):
        return -py(a)
    return lift(-zr(a))


def s_abs(a):
    if not isinstance(a, Sym):
        return abs(py(a))
    e = zr(a)
    return lift(z3.If(e >= 0, e, -e))


def s_floor(a):
    if not isinstance(a, Sym):
        if is_nonfinite(a):
            return a
        return math.floor(a)
    e = zr(a)
    if e.is_int():
        return lift(e)
    return lift(z3.ToInt(e))


def s_ceil(a):
    if not isinstance(a, Sym):
        if is_nonfinite(a):
            return a
        return math.ceil(a)
    e = zr(a)
    if e.is_int():
        return lift(e)
    return lift(-z3.ToInt(-e))


def s_round(a, n=0):
    if not isinstance(a, Sym):
        return round(py(a), n)
    e = zreal(a)
    k = 10 ** n
    y = e * k if n >= 0 else e / (10 ** -n)
    f = z3.ToInt(y)
    d = y - z3.ToReal(f)
    half = z3.RealVal("1/2")
    r = z3.If(d < half, f, z3.If(d > half, f + 1,
                                 z3.If(f % 2 == 0, f, f + 1)))
    if n == 0:
        return lift(z3.ToReal(r))
    if n > 0:
        return lift(z3.ToReal(r) / k)
    return lift(z3.ToReal(r) * (10 ** -n))


def sym_int(a):
    """int(): truncation toward zero."""
    if not isinstance(a, Sym):
        return int(a)
    if a.kind == "b":
        return lift(zr(a))
    if a.kind == "i":
        return a
    e = a.e
    return lift(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def cast(a, t):
    """astype for one element."""
    dt = _np.dtype(t) if not isinstance(t, str) or t != "int" else \
        _np.dtype(int)
    k = dt.kind
    if isinstance(a, Sym):
        if k in "iu":
            return sym_int(a)
        if k == "f":
            e = zr(a)
            return lift(z3.ToReal(e)) if e.is_int() else a
        if k == "b":
            return a if a.kind == "b" else s_ne(a, 0)
        return a
    if k in "iu":
        if is_nonfinite(a):
            return -9223372036854775808
        return int(a)
    if k == "f":
        return float("nan") if a is None else float(a)
    if k == "b":
        return bool(a)
    if k in "US":
        return str(a)
    return a


def _cmp(a, b, pyop, zop):
    if _both_const(a, b):
        return bool(pyop(py(a), py(b)))
    if _nf(a, b):
        # finite symbolic value against inf / nan
        if isinstance(a, Sym):
            return bool(pyop(0.0, b))
        return bool(pyop(a, 0.0))
    ea, eb = zr(a), zr(b)
    if ea.eq(eb):
        return bool(pyop(0, 0))
    for s, o in ((a, b), (b, a)):
        # boolean decision variable against a constant
        if isinstance(s, Sym) and s.b01 is not None and \
                not isinstance(o, Sym):
            t = pyop(1, o) if s is a else pyop(o, 1)
            f = pyop(0, o) if s is a else pyop(o, 0)
            if t and f:
                return True
            if not t and not f:
                return False
            return lift(s.b01 if t else z3.Not(s.b01))
    return lift(zop(ea, eb))


def s_lt(a, b): return _cmp(a, b, operator.lt, operator.lt)
def s_le(a, b): return _cmp(a, b, operator.le, operator.le)
def s_gt(a, b): return _cmp(a, b, operator.gt, operator.gt)
def s_ge(a, b): return _cmp(a, b, operator.ge, operator.ge)


def s_eq(a, b):
    if isinstance(a, Sym) and isinstance(b, Sym) and a.kind == b.kind == "b":
        return lift(a.e == b.e)
    if (isinstance(a, Sym) or isinstance(b, Sym)):
        o = b if isinstance(a, Sym) else a
        if not isinstance(o, Sym) and not is_num(o):
            return False
    return _cmp(a, b, operator.eq, operator.eq)


def s_ne(a, b):
    if isinstance(a, Sym) and isinstance(b, Sym) and a.kind == b.kind == "b":
        return lift(a.e != b.e)
    if (isinstance(a, Sym) or isinstance(b, Sym)):
        o = b if isinstance(a, Sym) else a
        if not isinstance(o, Sym) and not is_num(o):
            return True
    return _cmp(a, b, operator.ne, operator.ne)


def _bool_like(a):
    return (isinstance(a, Sym) and a.kind == "b") or \
        isinstance(a, (bool, _np.bool_))


def s_and(a, b):
    if _both_const(a, b):
        return py(a) & py(b)
    if not (_bool_like(a) and _bool_like(b)):
        raise Unsupported("bitwise and on integers")
    if not isinstance(a, Sym):
        return b if a else False
    if not isinstance(b, Sym):
        return a if b else False
    return lift(z3.And(a.e, b.e))


def s_or(a, b):
    if _both_const(a, b):
        return py(a) | py(b)
    if not (_bool_like(a) and _bool_like(b)):
        raise Unsupported("bitwise or on integers")
    if not isinstance(a, Sym):
        return True if a else b
    if not isinstance(b, Sym):
        return True if b else a
    return lift(z3.Or(a.e, b.e))


def s_xor(a, b):
    if _both_const(a, b):
        return py(a) ^ py(b)
    if not (_bool_like(a) and _bool_like(b)):
        raise Unsupported("bitwise xor on integers")
    return lift(z3.Xor(zb(a), zb(b)))


def s_invert(a):
    if not isinstance(a, Sym):
        if isinstance(a, (bool, _np.bool_)):
            return not a
        return ~a
    if a.kind != "b":
        raise Unsupported("bitwise not on integers")
    return lift(z3.Not(a.e))


def s_not(a):
    if not isinstance(a, Sym):
        return not a
    return lift(z3.Not(zb(a)))


def s_ite(c, a, b):
    if not isinstance(c, Sym):
        return a if c else b
    if a is b:
        return a
    k = cur().known(zb(c))
    if k is not None:
        return a if k else b
    if not (isinstance(a, Sym) or is_num(a)) or \
            not (isinstance(b, Sym) or is_num(b)) or _nf(a, b):
        # not mergeable: fork
        return a if cur().branch(zb(c)) else b
    if _bool_like(a) and _bool_like(b):
        return lift(z3.If(zb(c), zb(a), zb(b)))
    ea, eb = zr(a), zr(b)
    if ea.eq(eb):
        return a
    if ea.is_int() != eb.is_int():
        ea, eb = zreal(a), zreal(b)
    return lift(z3.If(zb(c), ea, eb))


def _forkmm():
    """case split on extremes instead of a conditional term"""
    c = cur()
    return c is not None and c.meta.get("fork_minmax")


def s_max(a, b):
    if _both_const(a, b):
        return max(py(a), py(b))
    if _nf(a, b):
        c = a if is_nonfinite(a) else b
        o = b if c is a else a
        if math.isnan(c):
            return c
        return c if c > 0 else o
    if _forkmm():
        return a if bool(s_ge(a, b)) else b
    return s_ite(s_ge(a, b), a, b)


def s_min(a, b):
    if _both_const(a, b):
        return min(py(a), py(b))
    if _nf(a, b):
        c = a if is_nonfinite(a) else b
        o = b if c is a else a
        if math.isnan(c):
            return c
        return c if c < 0 else o
    if _forkmm():
        return a if bool(s_le(a, b)) else b
    return s_ite(s_le(a, b), a, b)


def s_sign(a):
    if not isinstance(a, Sym):
        return float(_np.sign(a))
    return lift(z3.If(zr(a) > 0, z3.IntVal(1),
                      z3.If(zr(a) < 0, z3.IntVal(-1), z3.IntVal(0))))


# -- transcendental (uninterpreted + lemmas) --------------------------------
LOG = z3.Function("log", z3.RealSort(), z3.RealSort())
EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())


def s_log(a):
    if not isinstance(a, Sym):
        a = float(a)
        if a > 0:
            return math.log(a) if math.isfinite(a) else a
        if a == 0:
            return -math.inf
        return math.nan
    c = cur()
    if not c.branch(zr(a) > 0):
        if c.branch(zr(a) == 0):
            return -math.inf
        return math.nan
    return c.log(a)


def s_exp(a):
    if not isinstance(a, Sym):
        try:
            return math.exp(a)
        except OverflowError:
            return math.inf
    return cur().exp(a)


def s_sqrt(a):
    if not isinstance(a, Sym):
        a = float(a)
        return math.sqrt(a) if a >= 0 else math.nan
    c = cur()
    if c.meta.get("lazy"):
        return c.uf("opaque_sqrt", a)
    if not c.branch(zr(a) >= 0):
        return math.nan
    return c.sqrt(a)
