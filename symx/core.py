"""Symbolic scalars and the path explorer.

A value of the program under test is a `Num`: either an exact constant (int,
Fraction, bool, or a non-finite float) or a z3 term over Int / Real / Bool.
Python's own interpreter executes the code of /repo; whenever it needs the truth
value of a symbolic condition (``if``, ``while``, ``min`` ...) or a concrete
index, the explorer asks the solver which outcomes are feasible under the path
condition and explores every one of them by re-execution.
"""
import math
import sys
import time
from fractions import Fraction

import numpy as _np
import z3

from .ival import Facts


class Unsupported(Exception):
    """The encoding has no rule for an operation: the check is inconclusive."""


class PathAbort(BaseException):
    """The current path is infeasible (an assumption is false)."""


class Budget(BaseException):
    """Path or time budget of the exploration is exhausted."""


ENG = None  # current engine


def eng():
    if ENG is None:
        raise Unsupported("symbolic branch outside an exploration")
    return ENG


# ---------------------------------------------------------------- scalars
def is_sym(v):
    return isinstance(v, z3.ExprRef)


TEXT = {}


def from_text(x):
    """Numbers for the tokens in a value read from text."""
    if isinstance(x, str):
        return TEXT.get(x, x)
    if isinstance(x, list):
        return [from_text(e) for e in x]
    if isinstance(x, dict):
        return {k: from_text(v) for k, v in x.items()}
    return x


class Num:
    __slots__ = ("v", "k")
    __array_priority__ = 1000.0
    __array_ufunc__ = None

    def __init__(self, v, k):
        self.v = v
        self.k = k

    # --- inspection
    @property
    def sym(self):
        return isinstance(self.v, z3.ExprRef)

    @property
    def special(self):
        return isinstance(self.v, float)

    @property
    def dtype(self):
        return {"i": _np.dtype("int64"), "f": _np.dtype("float64"),
                "b": _np.dtype("bool")}[self.k]

    shape = ()
    ndim = 0
    size = 1

    @property
    def real(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def ravel(self):
        from .npshim import SArr
        return SArr(_np.array([self], dtype=object), self.dtype)

    flatten = ravel

    def tolist(self):
        return self

    def any(self, *a, **k):
        return truth(self)

    def all(self, *a, **k):
        return truth(self)

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def astype(self, dt, **kw):
        return cast(self, kind_of_dtype(dt))

    def __repr__(self):
        if self.sym:
            s = str(self.v)
            return "<%s %s>" % (self.k, s if len(s) < 200 else s[:200] + "...")
        return "<%s %s>" % (self.k, self.v)

    def __str__(self):
        """Symbolic numbers in text: a token that from_text turns back into the number."""
        if not self.sym:
            return str(self.to_py())
        t = "sym%s_%d_" % (self.k, self.v.get_id())
        TEXT[t] = self
        return t

    def __format__(self, spec):
        if self.sym:
            return "<sym>" if spec else str(self)
        try:
            return format(self.to_py(), spec)
        except Exception:
            return str(self.v)

    def to_py(self):
        if self.sym:
            raise Unsupported("concrete value of a symbolic number needed")
        if self.k == "f":
            return float(self.v)
        return self.v

    # --- conversions python asks for
    def __bool__(self):
        t = truth(self)
        if not t.sym:
            return bool(t.v)
        return eng().branch(t.v)

    def __index__(self):
        if self.k == "f":
            raise TypeError("float used as an index")
        n = cast(self, "i")
        if not n.sym:
            return int(n.v)
        return eng().concretize(n.v)

    def __int__(self):
        n = to_int(self)
        if not n.sym:
            return int(n.v)
        return eng().concretize(n.v)

    def __float__(self):
        if self.sym:
            raise Unsupported("float() of a symbolic number outside the shim")
        return float(self.v)

    def __trunc__(self):
        return to_int(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __round__(self, nd=None):
        if nd is None:
            return rint(self, "i")
        if not self.sym:
            return lift(round(self.to_py(), nd))
        sc = 10 ** nd if nd >= 0 else Fraction(1, 10 ** (-nd))
        return rint(self * sc, "f") / sc

    def __hash__(self):
        if self.sym:
            return self.v.hash()
        return hash(self.v)

    # --- arithmetic
    def __add__(self, o):
        return _bin(add, self, o)

    def __radd__(self, o):
        return _bin(add, o, self)

    def __sub__(self, o):
        return _bin(sub, self, o)

    def __rsub__(self, o):
        return _bin(sub, o, self)

    def __mul__(self, o):
        return _bin(mul, self, o)

    def __rmul__(self, o):
        return _bin(mul, o, self)

    def __truediv__(self, o):
        return _bin(div, self, o)

    def __rtruediv__(self, o):
        return _bin(div, o, self)

    def __floordiv__(self, o):
        return _bin(floordiv, self, o)

    def __rfloordiv__(self, o):
        return _bin(floordiv, o, self)

    def __mod__(self, o):
        return _bin(mod, self, o)

    def __rmod__(self, o):
        return _bin(mod, o, self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o):
        return _bin(power, self, o)

    def __rpow__(self, o):
        return _bin(power, o, self)

    def __neg__(self):
        if self.k == "b":
            return -cast(self, "i")
        return Num(-self.v, self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __invert__(self):
        if self.k == "b":
            return lnot(self)
        return -self - 1

    def __and__(self, o):
        return _bin(band, self, o)

    def __rand__(self, o):
        return _bin(band, o, self)

    def __or__(self, o):
        return _bin(bor, self, o)

    def __ror__(self, o):
        return _bin(bor, o, self)

    def __xor__(self, o):
        return _bin(bxor, self, o)

    def __rxor__(self, o):
        return _bin(bxor, o, self)

    # --- comparisons
    def __lt__(self, o):
        return _bin(lt, self, o)

    def __le__(self, o):
        return _bin(le, self, o)

    def __gt__(self, o):
        return _bin(gt, self, o)

    def __ge__(self, o):
        return _bin(ge, self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return _bin(eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return _bin(ne, self, o)


def _liftable(o):
    return isinstance(o, (Num, bool, int, float, Fraction, _np.generic))


def _bin(f, a, b):
    if not (_liftable(a) and _liftable(b)):
        # arrays handle mixed operations themselves
        from .npshim import SArr, asarr, elementwise
        for x in (a, b):
            if isinstance(x, (SArr, _np.ndarray, list, tuple)) or hasattr(x, "_is_msel"):
                return elementwise(f, a, b)
        return NotImplemented
    return f(lift(a), lift(b))


def lift(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Num(bool(x), "b")
    if isinstance(x, (int, _np.integer)):
        return Num(int(x), "i")
    if isinstance(x, Fraction):
        return Num(x, "f")
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if math.isfinite(x):
            return Num(Fraction(x), "f")
        return Num(x, "f")
    if isinstance(x, z3.BoolRef):
        return Num(x, "b")
    if isinstance(x, z3.ArithRef):
        return Num(x, "i" if x.is_int() else "f")
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise Unsupported("cannot use %r as a number" % (type(x),))


def kind_of_dtype(dt):
    if dt is None:
        return "f"
    if dt in (int,) or getattr(dt, "_is_shim_int", False):
        return "i"
    if dt in (float,) or getattr(dt, "_is_shim_float", False):
        return "f"
    if dt is bool:
        return "b"
    k = _np.dtype(getattr(dt, "_dt", dt)).kind
    if k in "iu":
        return "i"
    if k == "f":
        return "f"
    if k == "b":
        return "b"
    if k == "O":
        return "O"
    raise Unsupported("dtype %r" % (dt,))


def z(n, want=None):
    """z3 term of a Num (finite)."""
    v = n.v
    k = n.k
    if isinstance(v, float):
        raise Unsupported("non-finite value in a symbolic expression")
    if not isinstance(v, z3.ExprRef):
        if k == "b":
            if want in (None, "b"):
                return z3.BoolVal(bool(v))
            return z3.IntVal(int(v)) if want == "i" else z3.RealVal(int(v))
        if k == "i":
            if want == "f":
                return z3.RealVal(v)
            return z3.IntVal(v)
        return z3.RealVal("%d/%d" % (v.numerator, v.denominator))
    if want is None or want == k:
        return v
    if k == "b":
        return z3.If(v, z3.IntVal(1), z3.IntVal(0)) if want == "i" else \
            z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if k == "i" and want == "f":
        return z3.ToReal(v)
    raise Unsupported("coercion %s->%s" % (k, want))


def cast(n, k):
    """Value-preserving cast as numpy's astype does it."""
    if n.k == k or k == "O":
        return n
    if k == "b":
        return truth(n)
    if k == "i":
        if n.k == "b":
            if n.sym:
                return Num(z(n, "i"), "i")
            return Num(int(n.v), "i")
        return to_int(n)
    # to float
    if n.sym:
        return Num(z(n, "f"), "f")
    return Num(Fraction(int(n.v)), "f")


def truth(n):
    if n.k == "b":
        return n
    if not n.sym:
        return Num(bool(n.v), "b")
    return Num(z3.simplify(n.v != 0), "b")


def to_int(n):
    if n.k == "i":
        return n
    if n.k == "b":
        return cast(n, "i")
    if n.special:
        raise ValueError("cannot convert non-finite float to integer")
    if not n.sym:
        return Num(math.trunc(n.v), "i")
    x = n.v
    return Num(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)), "i")


def floor(n):
    if n.k != "f":
        return cast(n, "i")
    if n.special:
        raise OverflowError("floor of a non-finite float")
    if not n.sym:
        return Num(math.floor(n.v), "i")
    return Num(z3.ToInt(n.v), "i")


def rint(n, k):
    """Round half to even, result of kind k."""
    if n.k != "f":
        return cast(cast(n, "i"), k)
    if n.special:
        if k == "f":
            return n
        raise OverflowError("round of a non-finite float")
    if not n.sym:
        return cast(Num(round(n.v), "i"), k)
    h = n.v + z3.RealVal("1/2")
    r = z3.ToInt(h)
    res = z3.If(z3.And(z3.IsInt(h), r % 2 != 0), r - 1, r)
    return cast(Num(res, "i"), k)


def _numk(a, b):
    if a.k == "f" or b.k == "f":
        return "f"
    return "i"


def _spec(a, b):
    return isinstance(a.v, float) or isinstance(b.v, float)


def _pyf(n):
    return float(n.v)


def _arith(a, b, pyop, zop):
    k = _numk(a, b)
    if not (a.sym or b.sym):
        if _spec(a, b):
            return lift(pyop(_pyf(a), _pyf(b)))
        r = pyop(int(a.v) if a.k == "b" else a.v, int(b.v) if b.k == "b" else b.v)
        if k == "f" and not isinstance(r, Fraction):
            r = Fraction(r)
        return Num(r, k)
    return Num(zop(z(a, k), z(b, k)), k)


def _isconst(n, c):
    return (not n.sym) and (not n.special) and n.v == c


def add(a, b):
    if _spec(a, b) and (a.sym or b.sym):
        return a if a.special else b
    if a.sym and _isconst(b, 0) and b.k != "b":
        return cast(a, _numk(a, b)) if a.k != "b" else cast(a, _numk(a, b))
    if b.sym and _isconst(a, 0) and a.k != "b":
        return cast(b, _numk(a, b))
    return _arith(a, b, lambda x, y: x + y, lambda x, y: x + y)


def sub(a, b):
    if _spec(a, b) and (a.sym or b.sym):
        return a if a.special else -b
    if a.sym and _isconst(b, 0) and b.k != "b":
        return cast(a, _numk(a, b))
    if a.sym and b.sym and a.v.eq(b.v):
        return Num(0, "i") if _numk(a, b) == "i" else Num(Fraction(0), "f")
    return _arith(a, b, lambda x, y: x - y, lambda x, y: x - y)


def mul(a, b):
    if a.k == "b" and b.k == "b":
        return land(a, b)
    if _spec(a, b) and (a.sym or b.sym):
        s, o = (a, b) if a.special else (b, a)
        if math.isnan(s.v):
            return s
        o = cast(o, "f")
        if bool(o > 0):
            return s
        if bool(o < 0):
            return -s
        return Num(float("nan"), "f")
    k = _numk(a, b)
    for x, y in ((a, b), (b, a)):
        if x.sym and not y.sym and not y.special:
            if y.v == 0:
                return Num(0, "i") if k == "i" else Num(Fraction(0), "f")
            if y.v == 1 and y.k != "b":
                return cast(x, k)
    # a boolean times a number is a selection
    for x, y in ((a, b), (b, a)):
        if x.k == "b" and x.sym:
            zero = Num(0, "i") if k == "i" else Num(Fraction(0), "f")
            return ite(x, cast(y, k), zero)
    return _arith(a, b, lambda x, y: x * y, lambda x, y: x * y)


def div(a, b):
    a, b = cast(a, "f"), cast(b, "f")
    if not (a.sym or b.sym):
        if _spec(a, b):
            x, y = _pyf(a), _pyf(b)
            if y == 0:
                return lift(float("nan") if (math.isnan(x)) else math.copysign(float("inf"), x))
            return lift(x / y)
        if b.v == 0:
            return _divzero(a)
        return Num(a.v / b.v, "f")
    if b.special:
        return Num(Fraction(0), "f") if not math.isnan(b.v) else b
    if a.special:
        if math.isnan(a.v):
            return a
        if bool(b > 0):
            return a
        return -a
    if not b.sym:
        if b.v == 0:
            return _divzero(a)
        return Num(a.v * z3.RealVal("%d/%d" % (b.v.denominator, b.v.numerator)), "f")
    if ENG is not None and ENG.guard is not True:
        g = ENG.guard
        if ENG.branch(z3.And(z(g, "b"), b.v == 0)):
            raise Unsupported("masked division by zero")
        return Num(z(a, "f") / b.v, "f")
    if eng().branch(b.v == 0):
        return _divzero(a)
    return eng().quotient(a, b)


def _divzero(a):
    if eng_scalar_div():
        raise ZeroDivisionError("division by zero")
    if bool(a > 0):
        return Num(float("inf"), "f")
    if bool(a < 0):
        return Num(float("-inf"), "f")
    return Num(float("nan"), "f")


def eng_scalar_div():
    return False


def floordiv(a, b):
    if not (a.sym or b.sym):
        if _spec(a, b):
            return lift(_pyf(a) // _pyf(b))
        r = (a.v * 1) // (b.v * 1)
        return cast(Num(int(r), "i"), _numk(a, b))
    if _numk(a, b) == "i":
        if b.sym:
            if bool(b == 0):
                raise ZeroDivisionError("integer division by zero")
            # python floors; z3 div rounds so that the remainder is >= 0
            za, zb = z(a, "i"), z(b, "i")
            q = za / zb
            return Num(z3.If(zb > 0, q, z3.If(za % zb == 0, q, q - 1)), "i")
        if b.v > 0:
            return Num(z(a, "i") / z(b, "i"), "i")
        return floordiv(-a, -b)
    return cast(floor(div(a, b)), "f")


def mod(a, b):
    if not (a.sym or b.sym):
        if _spec(a, b):
            return lift(_pyf(a) % _pyf(b))
        return Num(a.v % b.v, _numk(a, b)) if _numk(a, b) == "i" else \
            Num(Fraction(a.v) % Fraction(b.v), "f")
    if _numk(a, b) == "i" and not b.sym and b.v > 0:
        return Num(z(a, "i") % z(b, "i"), "i")
    return a - b * cast(floordiv(a, b), _numk(a, b))


def _ipow(a, n):
    r = None
    for _ in range(n):
        r = a if r is None else r * a
    return r if r is not None else (Num(1, "i") if a.k == "i" else Num(Fraction(1), "f"))


def power(a, b):
    if b.sym:
        return eng().pow_uf(cast(a, "f"), cast(b, "f"))
    if b.special or a.special:
        return lift(_np.float64(_pyf(a)) ** _np.float64(_pyf(b)))
    e = b.v
    k = _numk(a, b)
    if e == int(e):
        e = int(e)
        if e >= 0:
            if not a.sym:
                return cast(Num(Fraction(a.v) ** e if a.k == "f" else int(a.v) ** e, a.k if a.k != "b" else "i"), k)
            return cast(_ipow(cast(a, "i") if a.k == "b" else a, e), k)
        return div(Num(Fraction(1), "f"), power(cast(a, "f"), Num(-e, "i")))
    if (2 * e) == int(2 * e):
        n = int(2 * e)
        r = sqrt(a)
        if n > 0:
            return _ipow(r, n)
        return div(Num(Fraction(1), "f"), _ipow(r, -n))
    if not a.sym:
        if a.v < 0:
            return Num(float("nan"), "f")
        return lift(float(a.v) ** float(e))
    return eng().pow_uf(cast(a, "f"), cast(b, "f"))


def sqrt(a):
    a = cast(a, "f")
    if a.special:
        return a if (math.isnan(a.v) or a.v > 0) else Num(float("nan"), "f")
    if not a.sym:
        if a.v < 0:
            return Num(float("nan"), "f")
        n, d = a.v.numerator, a.v.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Num(Fraction(rn, rd), "f")
        return lift(math.sqrt(a.v))
    return eng().sqrt(a)


def absolute(a):
    if a.k == "b":
        return a
    if not a.sym:
        return Num(abs(a.v), a.k)
    return Num(z3.If(a.v >= 0, a.v, -a.v), a.k)


def sign(a):
    a_k = a.k if a.k != "b" else "i"
    one, zero = cast(Num(1, "i"), a_k), cast(Num(0, "i"), a_k)
    return ite(a > 0, one, ite(a < 0, -one, zero))


def hypot(a, b):
    return sqrt(a * a + b * b)


def _cmp(a, b, pyop, zop):
    if not (a.sym or b.sym):
        return Num(bool(pyop(a.v, b.v)), "b")
    if _spec(a, b):
        s = a.v if a.special else b.v
        if math.isnan(s):
            return Num(bool(pyop(float("nan"), 0.0)), "b")
        return Num(bool(pyop(s, 0.0) if a.special else pyop(0.0, s)), "b")
    k = _numk(a, b)
    r = zop(z(a, k), z(b, k))
    if isinstance(r, bool):
        return Num(r, "b")
    return Num(r, "b")


def lt(a, b):
    return _cmp(a, b, lambda x, y: x < y, lambda x, y: x < y)


def le(a, b):
    return _cmp(a, b, lambda x, y: x <= y, lambda x, y: x <= y)


def gt(a, b):
    return _cmp(a, b, lambda x, y: x > y, lambda x, y: x > y)


def ge(a, b):
    return _cmp(a, b, lambda x, y: x >= y, lambda x, y: x >= y)


def eq(a, b):
    if a.k == "b" and b.k == "b" and (a.sym or b.sym):
        return Num(z(a) == z(b), "b")
    return _cmp(a, b, lambda x, y: x == y, lambda x, y: x == y)


def ne(a, b):
    if a.k == "b" and b.k == "b" and (a.sym or b.sym):
        return Num(z(a) != z(b), "b")
    return _cmp(a, b, lambda x, y: x != y, lambda x, y: x != y)


def land(a, b):
    a, b = truth(a), truth(b)
    if not a.sym:
        return b if a.v else a
    if not b.sym:
        return a if b.v else b
    return Num(z3.And(a.v, b.v), "b")


def lor(a, b):
    a, b = truth(a), truth(b)
    if not a.sym:
        return a if a.v else b
    if not b.sym:
        return b if b.v else a
    return Num(z3.Or(a.v, b.v), "b")


def lnot(a):
    a = truth(a)
    if not a.sym:
        return Num(not a.v, "b")
    if z3.is_not(a.v):
        return Num(a.v.arg(0), "b")
    return Num(z3.Not(a.v), "b")


def lxor(a, b):
    a, b = truth(a), truth(b)
    if not a.sym:
        return lnot(b) if a.v else b
    if not b.sym:
        return lnot(a) if b.v else a
    return Num(z3.Xor(a.v, b.v), "b")


def band(a, b):
    if a.k == "b" and b.k == "b":
        return land(a, b)
    a, b = cast(a, "i"), cast(b, "i")
    if a.sym or b.sym:
        raise Unsupported("bitwise & of symbolic integers")
    return Num(a.v & b.v, "i")


def bor(a, b):
    if a.k == "b" and b.k == "b":
        return lor(a, b)
    a, b = cast(a, "i"), cast(b, "i")
    if a.sym or b.sym:
        raise Unsupported("bitwise | of symbolic integers")
    return Num(a.v | b.v, "i")


def bxor(a, b):
    if a.k == "b" and b.k == "b":
        return lxor(a, b)
    a, b = cast(a, "i"), cast(b, "i")
    if a.sym or b.sym:
        raise Unsupported("bitwise ^ of symbolic integers")
    return Num(a.v ^ b.v, "i")


def ite(c, a, b):
    c = truth(lift(c))
    a, b = lift(a), lift(b)
    if not c.sym:
        return a if c.v else b
    if a is b:
        return a
    if a.k == "b" and b.k == "b":
        if a.sym and b.sym and a.v.eq(b.v):
            return a
        if not a.sym and not b.sym:
            if bool(a.v) == bool(b.v):
                return a
            return c if a.v else lnot(c)
        return Num(z3.If(c.v, z(a), z(b)), "b")
    k = _numk(a, b)
    if not a.sym and not b.sym and a.v == b.v:
        return cast(a, k)
    if a.sym and b.sym and a.v.eq(b.v):
        return cast(a, k)
    if a.special or b.special:
        return a if eng().branch(c.v) else b
    return Num(z3.If(c.v, z(a, k), z(b, k)), k)


def minimum(a, b):
    k = _numk(a, b)
    if not (a.sym or b.sym):
        if a.special and math.isnan(a.v):
            return a
        if b.special and math.isnan(b.v):
            return b
        return cast(a if a.v <= b.v else b, k) if not (a.k == "b" and b.k == "b") else land(a, b)
    if _spec(a, b):
        s, o = (a, b) if a.special else (b, a)
        return s if (math.isnan(s.v) or s.v < 0) else cast(o, k)
    return ite(le(a, b), cast(a, k), cast(b, k))


def maximum(a, b):
    k = _numk(a, b)
    if not (a.sym or b.sym):
        if a.special and math.isnan(a.v):
            return a
        if b.special and math.isnan(b.v):
            return b
        return cast(a if a.v >= b.v else b, k) if not (a.k == "b" and b.k == "b") else lor(a, b)
    if _spec(a, b):
        s, o = (a, b) if a.special else (b, a)
        return s if (math.isnan(s.v) or s.v > 0) else cast(o, k)
    return ite(ge(a, b), cast(a, k), cast(b, k))


def isnan(a):
    return Num(bool(a.special and math.isnan(a.v)), "b")


def isfinite(a):
    return Num(not a.special, "b")


def isinf(a):
    return Num(bool(a.special and math.isinf(a.v)), "b")


# ---------------------------------------------------------------- engine
class Stats:
    def __init__(self):
        self.paths = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.ival = 0
        self.funcs = set()

    def merge(self, o):
        self.paths += o.paths
        self.forks += o.forks
        self.queries += o.queries
        self.solver_s += o.solver_s
        self.unknown += o.unknown
        self.funcs |= o.funcs


class Engine:
    """Depth-first exploration by re-execution."""

    def __init__(self, max_paths=20000, max_time=600.0, branch_timeout=3000):
        self.max_paths = max_paths
        self.deadline = time.time() + max_time
        self.branch_timeout = branch_timeout
        self.stats = Stats()
        self.guard = True
        self.frames = []
        self.trace_funcs = None

    # -- one run
    def explore(self, fn, on_path):
        """Run fn() on every feasible path; on_path(result, exception)."""
        global ENG
        self.stack = [[]]
        first = True
        while self.stack:
            if self.stats.paths >= self.max_paths:
                raise Budget("path budget (%d) exhausted" % self.max_paths)
            if time.time() > self.deadline:
                raise Budget("time budget exhausted")
            prefix = self.stack.pop()
            TEXT.clear()
            self._reset(prefix)
            ENG = self
            exc = None
            res = None
            try:
                res = fn()
            except PathAbort:
                continue
            except (Unsupported, Budget, KeyboardInterrupt):
                raise
            except Exception as e:  # the program's own exceptions
                exc = e
            self.stats.paths += 1
            on_path(res, exc)
            first = False
        ENG = None

    def _reset(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.facts = Facts()
        self.solver = z3.Solver()
        self.solver.set("timeout", self.branch_timeout)
        self.fresh_n = 0
        self.memo = {}
        self.guard = True
        self.frames = []
        self.merge_depth = 0

    def fresh(self, name, sort="Real"):
        self.fresh_n += 1
        n = "%s!%d" % (name, self.fresh_n)
        return {"Real": z3.Real, "Int": z3.Int, "Bool": z3.Bool}[sort](n)

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)
        self.facts.learn(c)

    def assume(self, c):
        c = truth(lift(c))
        if not c.sym:
            if not c.v:
                raise PathAbort()
            return
        s = z3.simplify(c.v)
        if z3.is_false(s):
            raise PathAbort()
        if not z3.is_true(s):
            self.add(s)

    def _check(self, *cs):
        t = time.time()
        if t > self.deadline:
            raise Budget("time budget exhausted")
        self.solver.push()
        try:
            for c in cs:
                self.solver.add(c)
            self.solver.set("timeout", min(self.branch_timeout, 500))
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
        self.stats.queries += 1
        if r == z3.unknown:
            # a non-incremental solver picks its strategy from the whole problem
            s = z3.Solver()
            s.set("timeout", self.branch_timeout)
            s.add(*self.pc)
            s.add(*cs)
            r = s.check()
            m = s.model() if r == z3.sat else None
            self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r, m

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = ("b", c.get_id())
        hit = self.memo.get(key)
        if hit is not None and hit[1].eq(c):
            return hit[0]
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            rt = rf = None
            iv = self.facts.bv(c)
            if iv is not None:
                self.stats.ival += 1
                rt, rf = (z3.sat, z3.unsat) if iv else (z3.unsat, None)
            if rt is None:
                rt, _ = self._check(c)
            if rt == z3.unsat:
                d = ("b", False, False)
            else:
                if rf is None:
                    rf, _ = self._check(z3.Not(c))
                if rf == z3.unsat:
                    if rt == z3.unknown:
                        pass
                    d = ("b", True, False)
                else:
                    d = ("b", True, True)
                    self.stack.append(self.trace + [("b", False, True)])
                    self.stats.forks += 1
        self.trace.append(d)
        val = d[1]
        if d[2]:
            self.add(c if val else z3.Not(c))
        self.memo[key] = (val, c)
        nc = z3.simplify(z3.Not(c))
        self.memo[("b", nc.get_id())] = (not val, nc)
        return val

    def concretize(self, term):
        t = z3.simplify(term)
        if z3.is_int_value(t):
            return t.as_long()
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                v = d[3]
            else:
                r, m = self._check()
                if r == z3.unsat:
                    raise PathAbort()
                if r == z3.unknown:
                    raise Unsupported("cannot concretise an index")
                v = m.eval(t, model_completion=True).as_long()
                ro, _ = self._check(t != v)
                if ro == z3.unsat:
                    d = ("v", True, False, v)
                else:
                    d = ("v", True, True, v)
                    self.stack.append(self.trace + [("v", False, True, v)])
                    self.stats.forks += 1
            self.trace.append(d)
            if d[2]:
                self.add(t == v if d[1] else t != v)
            if d[1]:
                return v

    def name(self, t):
        """A variable equal to the term (keeps products of terms small)."""
        if z3.is_const(t) or z3.is_rational_value(t):
            return t
        key = ("name", t.get_id())
        hit = self.memo.get(key)
        if hit is not None and hit[1].eq(t):
            return hit[0]
        v = self.fresh("t", "Real")
        self.add(v == t)
        self.memo[key] = (v, t)
        return v

    def name_sum(self, t):
        """As `name`, with the addends of a sum named one by one."""
        parts, todo = [], [t]
        while todo:
            x = todo.pop()
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ADD:
                todo.extend(x.children())
            else:
                parts.append(x)
        if len(parts) == 1:
            return self.name(z3.simplify(t))
        parts = [z3.simplify(x) for x in parts[::-1]]
        if all(z3.is_const(x) or z3.is_rational_value(x) for x in parts):
            return self.name(z3.simplify(t))
        return self.name(z3.simplify(z3.Sum([self.name(x) for x in parts])))

    def quotient(self, a, b):
        """a / b for b != 0 (already on the path): a times the inverse of b."""
        bv = self.name_sum(b.v)
        key = ("inv", bv.get_id())
        hit = self.memo.get(key)
        if hit is not None and hit[1].eq(bv):
            r = hit[0]
        else:
            r = self.fresh("inv", "Real")
            self.add(r * bv == 1)
            x = self.facts.iv(bv)
            if x[0] >= 0:
                self.add(bv > 0)
                self.add(r > 0)
                if x[2] < math.inf:
                    self.add(r >= z3.RealVal(str(1 / Fraction(x[2]))))
                if x[0] > 0:
                    self.add(r <= z3.RealVal(str(1 / Fraction(x[0]))))
            elif x[2] <= 0:
                self.add(bv < 0)
                self.add(r < 0)
            else:
                self.add(z3.And(z3.Implies(bv > 0, r > 0), z3.Implies(bv < 0, r < 0)))
            self.memo[key] = (r, bv)
        av = z(a, "f")
        if z3.is_rational_value(av):
            return Num(av * r, "f")
        return Num(self.name(z3.simplify(av)) * r, "f")

    def sqrt(self, a):
        e = z3.simplify(a.v, som=True)
        key = ("sqrt", e.get_id())
        hit = self.memo.get(key)
        if hit is not None and hit[1].eq(e):
            return hit[0]
        if self.branch(a.v < 0):
            return Num(float("nan"), "f")
        r = self.fresh("sqrt")
        self.add(r >= 0)
        self.add(r * r == e)
        self.add(z3.Implies(e > 0, r > 0))
        n = Num(r, "f")
        self.memo[key] = (n, e)
        return n

    def pow_uf(self, a, b):
        """x**y with a symbolic (or irrational-power) exponent: uninterpreted,
        with the sign facts every real power has."""
        f = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
        x, y = z3.simplify(z(a, "f")), z3.simplify(z(b, "f"))
        t = f(x, y)
        self.add(z3.Implies(x > 0, t > 0))
        self.add(z3.Implies(z3.And(x == 0, y > 0), t == 0))
        self.add(z3.Implies(y == 0, t == 1))
        self.add(z3.Implies(y == 1, t == x))
        self.add(z3.Implies(x == 1, t == 1))
        return Num(t, "f")
