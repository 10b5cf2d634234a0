"""Symbolic values: z3-backed stand-ins for Python numbers.

The real sawatabi code is run over these objects.  Arithmetic builds z3
terms, `__bool__` on a symbolic condition asks the engine which outcomes are
feasible and forks the path.  Python `float` arithmetic is idealised to exact
real arithmetic (a stated bound); Python `int` is mathematical integer.
"""
import math
import numbers
import sys
from fractions import Fraction

if "z3" not in sys.modules:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402


class PathAbort(BaseException):
    """Stops the current path (infeasible assumption, budget, truncation)."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class Found(BaseException):
    """A check failed on the current path."""

    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


ENGINE = None  # the engine that owns the running path


def set_engine(e):
    global ENGINE
    ENGINE = e


_rv_cache = {}


def frac(x):
    """Exact value given to a concrete Python number."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(float(x)))


def realval(x):
    f = frac(x)
    r = _rv_cache.get(f)
    if r is None:
        if len(_rv_cache) > 20000:
            _rv_cache.clear()
        r = _rv_cache[f] = z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
    return r


def _plain(x):
    """numpy scalar -> python scalar; others unchanged."""
    t = type(x)
    if t in (int, float, bool):
        return x
    if t.__module__ == "numpy" and hasattr(x, "item") and getattr(x, "shape", None) == ():
        return x.item()
    return x


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ("e",)
    __array_ufunc__ = None
    __array_priority__ = 10000

    def __init__(self, e):
        self.e = e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (_unpickle, (type(self).__name__, _park(self)))

    def __repr__(self):
        # the text of a number is a token; two numbers have the same token exactly
        # when they are equal (decided by forking), so text can serve as a key
        if ENGINE is None or not getattr(ENGINE, "texts_on", False) or not _called_by_subject():
            return f"<{type(self).__name__}>"
        if isinstance(self, SymBool):
            return str(bool(self))
        kind = type(self).__name__
        e = z3.simplify(self.e)
        if z3.is_int_value(e) or z3.is_rational_value(e):
            v = _plain_value(e)
            return str(v if kind == "SymInt" else float(v))
        for k, t, txt in ENGINE.texts:
            if k == kind and (t.eq(e) or ENGINE.fork(t == e)):
                return txt
        ENGINE.note("text")
        txt = f"<{kind} {len(ENGINE.texts)}>"
        ENGINE.texts.append((kind, e, txt))
        return txt

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def toDict(self):  # pandas' JSON writer
        return {"number": repr(self)}


def _called_by_subject():
    """is the text made by the code under test (not by a harness' message)?"""
    f = sys._getframe(2)
    while f is not None and (f.f_code.co_filename == __file__ or f.f_code.co_name == "sym_str"):
        f = f.f_back
    return f is not None and "/sawatabi/" in f.f_code.co_filename


def _plain_value(e):
    return e.as_long() if z3.is_int_value(e) else e.as_fraction()


# pickling inside one process keeps identity (the real code pickles beam state,
# deep-copies and so on)
_parked = {}


def _park(s):
    k = id(s.e)
    _parked[k] = s
    return k


def _unpickle(_, k):
    return _parked[k]


def as_bool_term(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (SymReal, SymInt)):
        return x.e != 0
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


class SymBool(Sym):
    __slots__ = ()

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ENGINE.fork(self.e)

    def __eq__(self, o):
        o = _plain(o)
        if isinstance(o, Sym) or isinstance(o, (bool, int, float)):
            if type(o) is SymBool or type(o) is bool:
                return SymBool(self.e == as_bool_term(o))
            return self._num() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else (not r)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        o = _plain(o)
        if type(o) in (SymBool, bool):
            return SymBool(z3.And(self.e, as_bool_term(o)))
        return self._num() & o

    __rand__ = __and__

    def __or__(self, o):
        o = _plain(o)
        if type(o) in (SymBool, bool):
            return SymBool(z3.Or(self.e, as_bool_term(o)))
        return self._num() | o

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, as_bool_term(_plain(o))))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def _num(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o


def _is_arr(o):
    return type(o).__module__ == "numpy" and type(o).__name__ == "ndarray" and o.shape != ()


def _elementwise(op, self, arr):
    import numpy as np

    out = np.empty(arr.shape, dtype=object)
    for i in np.ndindex(arr.shape):
        out[i] = op(self, arr[i])
    return out


class _Num(Sym):
    __slots__ = ()

    # -- coercion ---------------------------------------------------------
    @staticmethod
    def _co(o):
        """other operand -> ('i'|'r', term) | ('inf', float) | ('nan', float) | None"""
        o = _plain(o)
        if isinstance(o, SymReal):
            return ("r", o.e)
        if isinstance(o, SymInt):
            return ("i", o.e)
        if isinstance(o, SymBool):
            return ("i", o._num().e)
        t = type(o)
        if t is bool or t is int:
            return ("i", z3.IntVal(int(o)))
        if t is Fraction:
            return ("r", realval(o))
        if isinstance(o, float):
            if o != o:
                return ("nan", float(o))
            if math.isinf(o):
                return ("inf", float(o))
            return ("r", realval(float(o)))
        if isinstance(o, int):
            return ("i", z3.IntVal(int(o)))
        if hasattr(o, "_vp_sym_"):
            return ("r", o._vp_sym_().e)
        return None

    def _real(self):
        return self.e if isinstance(self, SymReal) else z3.ToReal(self.e)

    def _pair(self, o):
        """-> (lhs term, rhs term, isint) or None / ('special', v)"""
        c = self._co(o)
        if c is None:
            return None
        k, t = c
        if k in ("inf", "nan"):
            return ("special", t)
        if isinstance(self, SymInt) and k == "i":
            return (self.e, t, True)
        l = self._real()
        r = t if k == "r" else z3.ToReal(t)
        if z3.is_to_real(r) and z3.is_int_value(r.arg(0)):
            r = z3.RealVal(r.arg(0).as_long())
        return (l, r, False)

    @staticmethod
    def _mk(e, isint):
        return SymInt(e) if isint else SymReal(e)

    def _sgn(self):
        """concrete sign, forking"""
        if ENGINE.fork(self.e > 0):
            return 1
        if ENGINE.fork(self.e < 0):
            return -1
        return 0

    # -- arithmetic -------------------------------------------------------
    def __add__(self, o):
        if _is_arr(o):
            return _elementwise(lambda a, b: a + b, self, o)
        p = self._pair(o)
        if p is None:
            return NotImplemented
        if p[0] is not None and isinstance(p[0], str):
            return p[1]
        return self._mk(p[0] + p[1], p[2])

    def __radd__(self, o):
        if _is_arr(o):
            return _elementwise(lambda a, b: b + a, self, o)
        p = self._pair(o)
        if p is None:
            return NotImplemented
        if isinstance(p[0], str):
            return p[1]
        return self._mk(p[1] + p[0], p[2])

    def __sub__(self, o):
        if _is_arr(o):
            return _elementwise(lambda a, b: a - b, self, o)
        p = self._pair(o)
        if p is None:
            return NotImplemented
        if isinstance(p[0], str):
            return -p[1]
        return self._mk(p[0] - p[1], p[2])

    def __rsub__(self, o):
        if _is_arr(o):
            return _elementwise(lambda a, b: b - a, self, o)
        p = self._pair(o)
        if p is None:
            return NotImplemented
        if isinstance(p[0], str):
            return p[1]
        return self._mk(p[1] - p[0], p[2])

    def __mul__(self, o):
        if _is_arr(o):
            return _elementwise(lambda a, b: a * b, self, o)
        if isinstance(o, (list, tuple, str)):
            return o * ENGINE.realize_int(self)
        p = self._pair(o)
        if p is None:
            return NotImplemented
        if isinstance(p[0], str):
            s = self._sgn()
            return s * p[1] if s else float("nan")
        return self._mk(p[0] * p[1], p[2])

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if _is_arr(o):
            return _elementwise(lambda a, b: a / b, self, o)
        p = self._pair(o)
        if p is None:
            return NotImplemented
        if isinstance(p[0], str):
            return 0.0 if not math.isnan(p[1]) else p[1]
        l, r = p[0], p[1]
        if p[2]:
            l, r = z3.ToReal(l), z3.ToReal(r)
        return _div(l, r)

    def __rtruediv__(self, o):
        if _is_arr(o):
            return _elementwise(lambda a, b: b / a, self, o)
        p = self._pair(o)
        if p is None:
            return NotImplemented
        if isinstance(p[0], str):
            s = self._sgn()
            if s == 0:
                raise ZeroDivisionError("float division by zero")
            return s * p[1]
        l, r = p[0], p[1]
        if p[2]:
            l, r = z3.ToReal(l), z3.ToReal(r)
        return _div(r, l)

    def __floordiv__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return _floordiv(p[0], p[1], p[2])

    def __rfloordiv__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return _floordiv(p[1], p[0], p[2])

    def __mod__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        q = _floordiv(p[0], p[1], p[2])
        return self._mk(p[0] - q.e * p[1], p[2])

    def __rmod__(self, o):
        if isinstance(o, str):
            return o.replace("%s", repr(self))
        p = self._pair(o)
        if p is None:
            return NotImplemented
        q = _floordiv(p[1], p[0], p[2])
        return self._mk(p[1] - q.e * p[0], p[2])

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o, mod=None):
        o = _plain(o)
        if isinstance(o, SymInt):
            o = ENGINE.realize_int(o)
        if isinstance(o, (int, float)) and not isinstance(o, Sym):
            if float(o).is_integer() and 0 <= o <= 6:
                if o == 0:
                    return 1 if isinstance(self, SymInt) else 1.0
                r = self
                for _ in range(int(o) - 1):
                    r = r * self
                if isinstance(o, float) and isinstance(r, SymInt):
                    r = SymReal(z3.ToReal(r.e))
                return r
            if float(o).is_integer() and -6 <= o < 0:
                return 1.0 / (self ** (-o))
            if o == 0.5:
                return sym_sqrt(self)
        return ENGINE.realize_float(self) ** (ENGINE.realize_float(o) if is_sym(o) else o)

    def __rpow__(self, o):
        return o ** (ENGINE.realize_int(self) if isinstance(self, SymInt) else ENGINE.realize_float(self))

    def __neg__(self):
        return self._mk(-self.e, isinstance(self, SymInt))

    def __pos__(self):
        return self

    def __abs__(self):
        return self._mk(z3.If(self.e >= 0, self.e, -self.e), isinstance(self, SymInt))

    # -- comparisons ------------------------------------------------------
    def _cmp(self, o, op):
        if _is_arr(o):
            return _elementwise(lambda a, b: op(a, b), self, o)
        p = self._pair(o)
        if p is None:
            return NotImplemented
        if isinstance(p[0], str):
            return op(0.0, p[1])
        return SymBool(op(p[0], p[1]))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if self is o:
            return True
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if self is o:
            return False
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        ENGINE.note("hash")
        return 77

    def __bool__(self):
        return ENGINE.fork(self.e != 0)

    # -- conversions ------------------------------------------------------
    def __float__(self):
        return ENGINE.realize_float(self)

    def __int__(self):
        t = sym_int(self)
        return ENGINE.realize_int(t) if is_sym(t) else t

    def __trunc__(self):
        return sym_int(self)

    def __floor__(self):
        return sym_floor(self)

    def __ceil__(self):
        return sym_ceil(self)

    def __round__(self, nd=None):
        return sym_round(self, nd)

    def exp(self):
        return sym_exp(self)

    def sqrt(self):
        return sym_sqrt(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def item(self):
        return self

    def is_integer(self):
        if isinstance(self, SymInt):
            return True
        return SymBool(z3.ToReal(z3.ToInt(self.e)) == self.e)


class SymReal(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return float


class SymInt(_Num):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        return ENGINE.realize_int(self)

    def bit_length(self):
        return ENGINE.realize_int(self).bit_length()

    def __and__(self, o):
        return ENGINE.realize_int(self) & (ENGINE.realize_int(o) if is_sym(o) else o)

    __rand__ = __and__

    def __or__(self, o):
        return ENGINE.realize_int(self) | (ENGINE.realize_int(o) if is_sym(o) else o)

    __ror__ = __or__

    def __xor__(self, o):
        return ENGINE.realize_int(self) ^ (ENGINE.realize_int(o) if is_sym(o) else o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return ENGINE.realize_int(self) << (ENGINE.realize_int(o) if is_sym(o) else o)

    def __rlshift__(self, o):
        return o << ENGINE.realize_int(self)

    def __rshift__(self, o):
        return self // (2 ** (ENGINE.realize_int(o) if is_sym(o) else o))

    def __rrshift__(self, o):
        return o >> ENGINE.realize_int(self)

    def __invert__(self):
        return -self - 1


numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)


def _div(l, r):
    if z3.is_rational_value(r) and r.numerator_as_long() != 0:
        # multiply by the inverse: stays linear
        q = Fraction(r.denominator_as_long(), r.numerator_as_long())
        return SymReal(l * realval(q))
    if not ENGINE.fork(r != 0):
        raise ZeroDivisionError("float division by zero")
    return SymReal(l / r)


def _floordiv(l, r, isint):
    if not ENGINE.fork(r != 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    q = z3.ToInt((z3.ToReal(l) if isint else l) / (z3.ToReal(r) if isint else r))
    if isint:
        if z3.is_int_value(r) and r.as_long() > 0:
            return SymInt(l / r)  # z3 int div floors for positive divisors
        return SymInt(q)
    return SymReal(z3.ToReal(q))


# ---------------------------------------------------------------------------
# symbolic versions of builtins / math functions
# ---------------------------------------------------------------------------

def sym_float(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymReal):
            return x
        if isinstance(x, SymInt):
            return SymReal(z3.ToReal(x.e))
        if isinstance(x, SymBool):
            return SymReal(z3.ToReal(x._num().e))
        f = getattr(type(x), "_vp_sym_", None)
        if f is not None:
            return f(x)
    return float(*a, **k)


def sym_int(*a, **k):
    if len(a) == 2 and a[1] == 10 and hasattr(type(a[0]), "_vp_int_") or len(a) == 1 and k == {"base": 10}:
        return sym_int(a[0])
    if len(a) == 1 and not k:
        x = a[0]
        f = getattr(type(x), "_vp_int_", None)
        if f is not None:
            return f(x)
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x._num()
        if isinstance(x, SymReal):
            return SymInt(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
        f = getattr(type(x), "_vp_sym_", None)
        if f is not None:
            return sym_int(f(x))
    return int(*a, **k)


def sym_floor(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return SymInt(z3.ToInt(x.e))
    return math.floor(x)


def sym_ceil(x):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return SymInt(-z3.ToInt(-x.e))
    return math.ceil(x)


def sym_round(x, nd=None):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        s = 10 ** (nd or 0)
        y = x.e * realval(Fraction(s)) if nd else x.e
        fl = z3.ToInt(y)
        d = y - z3.ToReal(fl)
        half = realval(Fraction(1, 2))
        up = z3.If(d > half, fl + 1, z3.If(d < half, fl, z3.If(fl % 2 == 0, fl, fl + 1)))
        if nd is None:
            return SymInt(up)
        return SymReal(z3.ToReal(up) * realval(Fraction(1, s) if s >= 1 else 1 / Fraction(s)))
    return round(x) if nd is None else round(x, nd)


def sym_bool(x=False):
    return x if isinstance(x, SymBool) else bool(x)


def sym_sqrt(x):
    if not is_sym(x):
        return math.sqrt(x)
    e = x._real()
    if not ENGINE.fork(e >= 0):
        raise ValueError("math domain error")
    return ENGINE.sqrt(e)


def sym_exp(x):
    if not is_sym(x):
        return math.exp(x)
    return ENGINE.exp(x._real())


def sym_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not (is_sym(a) or is_sym(b)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    m = sym_max2(abs(a), abs(b)) * rel_tol
    return SymBool(z3.Or(as_bool_term(d <= m), as_bool_term(d <= abs_tol)))


def sym_max2(a, b):
    c = a >= b
    if isinstance(c, SymBool):
        return ite(c, a, b)
    return a if c else b


def sym_isnan(x):
    return False if is_sym(x) else math.isnan(x)


def sym_isinf(x):
    return False if is_sym(x) else math.isinf(x)


def sym_isfinite(x):
    return True if is_sym(x) else math.isfinite(x)


def sym_fsum(xs):
    xs = list(xs)
    if any(is_sym(x) for x in xs):
        r = 0.0
        for x in xs:
            r = r + x
        return r
    return math.fsum(xs)


def sym_copysign(a, b):
    if not (is_sym(a) or is_sym(b)):
        return math.copysign(a, b)
    return abs(a) if (b >= 0) else -abs(a)


def term(x):
    """number (symbolic or not) -> z3 arithmetic term"""
    x = _plain(x)
    if isinstance(x, SymBool):
        return x._num().e
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, bool) or isinstance(x, int):
        return z3.IntVal(int(x))
    return realval(x)


def ite(c, a, b):
    """symbolic if-then-else without forking"""
    if not isinstance(c, SymBool):
        return a if c else b
    ta, tb = term(a), term(b)
    if ta.is_int() and tb.is_int():
        return SymInt(z3.If(c.e, ta, tb))
    ta = z3.ToReal(ta) if ta.is_int() else ta
    tb = z3.ToReal(tb) if tb.is_int() else tb
    return SymReal(z3.If(c.e, ta, tb))
