"""Symbolic scalars.  SN: an (extended) real or an integer.  SB: a boolean.

Real numbers are exact: a finite SN is a canonical real term (poly.Poly), the
values inf, -inf and nan are separate concrete kinds.  Which kind an input has
is decided by a fork, so every arithmetic rule for them is numpy's.
"""
import math
from fractions import Fraction

import numpy as np

from . import poly as P
from .z3env import z3

CTX = None  # current context (set by engine)


class Unsupported(Exception):
    """The code did something the encoding cannot express."""


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside a symbolic run")
    return CTX


NOSET = frozenset()


class SB:
    """Symbolic boolean."""

    __slots__ = ("v", "z", "deps")
    __array_priority__ = 100
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, v, z=None, deps=NOSET):
        self.v = v
        self.z = z
        self.deps = deps

    def zexpr(self):
        return z3.BoolVal(self.v) if self.v is not None else self.z

    def __bool__(self):
        if self.v is not None:
            return self.v
        return ctx().branch(self)

    def __and__(self, o):
        o = tobool(o)
        if o is NotImplemented:
            return o
        if self.v is False or o.v is False:
            return FALSE
        if self.v:
            return o
        if o.v:
            return self
        return SB(None, z3.And(self.z, o.z), self.deps | o.deps)

    __rand__ = __and__

    def __or__(self, o):
        o = tobool(o)
        if o is NotImplemented:
            return o
        if self.v or o.v:
            return TRUE
        if self.v is False:
            return o
        if o.v is False:
            return self
        return SB(None, z3.Or(self.z, o.z), self.deps | o.deps)

    __ror__ = __or__

    def __xor__(self, o):
        return tobool(o).eqb(self).__invert__()

    __rxor__ = __xor__

    def __invert__(self):
        if self.v is not None:
            return FALSE if self.v else TRUE
        return SB(None, z3.Not(self.z), self.deps)

    logical_not = __invert__

    def eqb(self, o):
        if self.v is not None and o.v is not None:
            return SB(self.v == o.v)
        if self.v is not None:
            return o if self.v else ~o
        if o.v is not None:
            return self if o.v else ~self
        return SB(None, self.z == o.z, self.deps | o.deps)

    def num(self):
        """0/1 integer."""
        if self.v is not None:
            return SN(P.const(int(self.v)), isint=True)
        c = ctx()
        if not c.merge:
            return SN(P.const(1 if bool(self) else 0), isint=True)
        return SN(
            P.ite(self.z, self.deps, P.const(1), P.const(0), isint=True), isint=True
        )

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SB)):
            return self.eqb(tobool(o))
        if isinstance(o, (int, float, np.number, SN)):
            return self.num() == o
        if isinstance(o, np.ndarray):
            return np.equal(self, o)
        return FALSE

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r

    def __hash__(self):
        if self.v is not None:
            return hash(self.v)
        return id(self)

    def _ar(name):
        def f(self, o=None, _n=name):
            if isinstance(o, (bool, np.bool_)):
                o = int(o)
            return getattr(self.num(), _n)(o)

        return f

    __add__ = _ar("__add__")
    __radd__ = _ar("__radd__")
    __sub__ = _ar("__sub__")
    __rsub__ = _ar("__rsub__")
    __mul__ = _ar("__mul__")
    __rmul__ = _ar("__rmul__")
    __truediv__ = _ar("__truediv__")
    __rtruediv__ = _ar("__rtruediv__")
    __lt__ = _ar("__lt__")
    __le__ = _ar("__le__")
    __gt__ = _ar("__gt__")
    __ge__ = _ar("__ge__")

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def item(self):
        return self

    def all(self, *a, **k):
        return self

    any = all

    def copy(self):
        return self

    def astype(self, t, **k):
        return cast(self, ld_of_dtype(t))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"SB({self.v if self.v is not None else self.z})"

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .sarray import dispatch_ufunc

        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .sarray import dispatch_function

        return dispatch_function(func, args, kwargs)


TRUE = SB(True)
FALSE = SB(False)


def tobool(o):
    if isinstance(o, SB):
        return o
    if isinstance(o, (bool, np.bool_)):
        return TRUE if o else FALSE
    if isinstance(o, SN):
        return o != 0
    if isinstance(o, (int, float, np.number)):
        return TRUE if o else FALSE
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return tobool(o[()])
    return NotImplemented


INF = float("inf")


class SN:
    """Symbolic number: finite term p, or a special value c in {inf,-inf,nan}."""

    __slots__ = ("p", "c", "isint")
    __array_priority__ = 100
    ndim = 0
    shape = ()
    size = 1
    T = property(lambda s: s)
    real = property(lambda s: s)
    imag = property(lambda s: SN(P.const(0)))

    def __init__(self, p=None, c=None, isint=False):
        self.p = p
        self.c = c
        self.isint = isint

    @property
    def dtype(self):
        return np.dtype(int) if self.isint else np.dtype(float)

    # ---- queries
    def fin(self):
        return self.c is None

    def isconst(self):
        return self.c is not None or self.p.is_const()

    def constval(self):
        """python number for constants (Fraction for rationals)."""
        if self.c is not None:
            return self.c
        return self.p.const()

    # ---- conversions
    def __float__(self):
        if self.c is not None:
            return self.c
        v = P.approx(self.p)
        if v is None:
            c = ctx()
            if c.concretize_floats:
                return c.concretize(self)
            raise Unsupported(f"float() of a symbolic value {self.p!r}")
        return v

    def __int__(self):
        if self.c is not None:
            int(self.c)  # raises as python does
        v = P.approx(self.p)
        if v is not None:
            if self.p.is_const():
                return math.trunc(self.p.const())
            return int(v)
        if self.isint:
            return ctx().concretize_int(self)
        r = trunc(self)
        return ctx().concretize_int(r)

    __trunc__ = __int__

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self.__int__()

    def __ceil__(self):
        r = ceil(self)
        if r.c is not None:
            math.ceil(r.c)
        return SN(r.p, isint=True)

    def __floor__(self):
        r = floor(self)
        if r.c is not None:
            math.floor(r.c)
        return SN(r.p, isint=True)

    def __round__(self, nd=None):
        if nd is None:
            if self.c is not None:
                round(self.c)
            return SN(rint(self).p, isint=True)
        return around(self, nd)

    def __bool__(self):
        return bool(self != 0)

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def squeeze(self, *a, **k):
        return self

    def astype(self, t, **k):
        return cast(self, ld_of_dtype(t))

    def is_integer(self):
        if self.c is not None:
            return False
        return bool(floor(self) == self)

    def ravel(self, *a, **k):
        return _arr([self])

    flatten = ravel

    def reshape(self, *s, **k):
        return _arr([self]).reshape(*s, **k)

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    def conjugate(self):
        return self

    def __getitem__(self, i):
        if i is None or i == () or i is Ellipsis or isinstance(i, tuple):
            return _arr0(self)[i]
        raise IndexError("invalid index to scalar variable.")

    def __len__(self):
        raise TypeError("object of type 'numpy.float64' has no len()")

    def __hash__(self):
        if self.isconst():
            return hash(self.constval())
        return hash(self.p)

    def __repr__(self):
        return f"SN({self.c if self.c is not None else self.p!r})"

    def __format__(self, spec):
        try:
            return format(float(self) if not self.isint else int(self), spec)
        except (Unsupported, ValueError):
            return repr(self)

    __str__ = __repr__

    # ---- arithmetic
    def __add__(self, o):
        o = tonum(o)
        if o is NotImplemented:
            return o
        return add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = tonum(o)
        if o is NotImplemented:
            return o
        return sub(self, o)

    def __rsub__(self, o):
        o = tonum(o)
        if o is NotImplemented:
            return o
        return sub(o, self)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * int(self)
        o = tonum(o)
        if o is NotImplemented:
            return o
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = tonum(o)
        if o is NotImplemented:
            return o
        return div(self, o)

    def __rtruediv__(self, o):
        o = tonum(o)
        if o is NotImplemented:
            return o
        return div(o, self)

    def __floordiv__(self, o):
        o = tonum(o)
        if o is NotImplemented:
            return o
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(tonum(o), self)

    def __mod__(self, o):
        o = tonum(o)
        if o is NotImplemented:
            return o
        return mod(self, o)

    def __rmod__(self, o):
        return mod(tonum(o), self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        o = tonum(o)
        if o is NotImplemented:
            return o
        return pow_(self, o)

    def __rpow__(self, o):
        return pow_(tonum(o), self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return abs_(self)

    def __lt__(self, o):
        return _cmpop(self, o, lt)

    def __le__(self, o):
        return _cmpop(self, o, le)

    def __gt__(self, o):
        return _cmpop(self, o, gt)

    def __ge__(self, o):
        return _cmpop(self, o, ge)

    def __eq__(self, o):
        r = _cmpop(self, o, eq)
        return FALSE if r is NotImplemented else r

    def __ne__(self, o):
        r = _cmpop(self, o, ne)
        return TRUE if r is NotImplemented else r

    def __and__(self, o):
        raise TypeError("bitwise op on float")

    # numpy calls these methods on object elements
    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def sqrt(self):
        return sqrt(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .sarray import dispatch_ufunc

        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .sarray import dispatch_function

        return dispatch_function(func, args, kwargs)


def _arr(lst):
    from .sarray import from_list

    return from_list(lst)


def _arr0(x):
    from .sarray import scalar0

    return scalar0(x)


def _cmpop(a, o, f):
    if isinstance(o, np.ndarray) and o.ndim:
        return NotImplemented
    o = tonum(o)
    if o is NotImplemented:
        return o
    return f(a, o)


def mk(x, isint=None):
    """SN from a python/numpy number."""
    if isinstance(x, SN):
        return x
    if isinstance(x, SB):
        return x.num()
    if isinstance(x, (bool, np.bool_)):
        return SN(P.const(int(x)), isint=True)
    if isinstance(x, (int, np.integer)):
        return SN(P.const(int(x)), isint=True)
    if isinstance(x, Fraction):
        return SN(P.const(x))
    x = float(x)
    if x != x or x in (INF, -INF):
        return SN(None, x)
    if x in _SPECIAL:
        return SN(_SPECIAL[x]())
    return SN(P.const(P.frac(x)))


_SPECIAL = {math.pi: P.pi, 2 * math.pi: lambda: P.scale(P.pi(), Fraction(2))}


def tonum(o):
    if isinstance(o, SN):
        return o
    if isinstance(o, (bool, np.bool_, SB, int, float, np.number, Fraction)):
        return mk(o)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return tonum(o[()])
    return NotImplemented


NAN = SN(None, float("nan"))
PINF = SN(None, INF)
NINF = SN(None, -INF)
ZERO = SN(P.const(0))
ONE = SN(P.const(1))


def isnan_c(a):
    return a.c is not None and a.c != a.c


def dsign(a):
    """Decided sign of a number: 1, 0 or -1, forking when undetermined."""
    if a.c is not None:
        return 1 if a.c > 0 else -1
    s = P.sign(a.p)
    if s == "+":
        return 1
    if s == "-":
        return -1
    if s == "0":
        return 0
    if s == "0+":
        return 1 if bool(gt(a, ZERO)) else 0
    if s == "0-":
        return -1 if bool(lt(a, ZERO)) else 0
    if bool(gt(a, ZERO)):
        return 1
    if bool(eq(a, ZERO)):
        return 0
    return -1


def add(a, b):
    if a.c is None and b.c is None:
        return SN(P.add(a.p, b.p), isint=a.isint and b.isint)
    if a.c is not None and b.c is not None:
        return SN(None, a.c + b.c) if not _isn(a.c + b.c) else NAN
    return SN(None, a.c if a.c is not None else b.c)


def _isn(x):
    return x != x


def neg(a):
    if a.c is not None:
        return SN(None, -a.c)
    return SN(P.neg(a.p), isint=a.isint)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.c is None and b.c is None:
        return SN(P.mul(a.p, b.p), isint=a.isint and b.isint)
    if isnan_c(a) or isnan_c(b):
        return NAN
    s = dsign(a) * dsign(b)
    if s == 0:
        return NAN
    return SN(None, s * INF)


def div(a, b):
    if a.c is None and b.c is None:
        if b.p.is_const() and b.p.t:
            return SN(P.scale(a.p, 1 / b.p.const()))
        s = P.sign(b.p)
        if s in ("+", "-"):
            return SN(P.mul(a.p, P.inv(b.p)))
        if bool(eq(b, ZERO)):
            sa = dsign(a)
            return NAN if sa == 0 else SN(None, sa * INF)
        return SN(P.mul(a.p, P.inv(b.p)))
    if isnan_c(a) or isnan_c(b):
        return NAN
    if b.c is not None:
        return NAN if a.c is not None else ZERO
    s = dsign(b)
    return SN(None, a.c * (s if s else 1))


def floor(a):
    if a.c is not None or a.isint:
        return a
    v = P.approx(a.p)
    if v is not None and not a.p.is_const():
        return SN(P.const(math.floor(v)))
    return SN(P.floor(a.p))


def ceil(a):
    return neg(floor(neg(a)))


def trunc(a):
    if a.c is not None or a.isint:
        return a
    return floor(a) if dsign(a) >= 0 else ceil(a)


def rint(a):
    """round half to even."""
    if a.c is not None or a.isint:
        return a
    if a.p.is_const():
        return SN(P.const(round(a.p.const())))
    v = P.approx(a.p)
    if v is not None:
        return SN(P.const(round(v)))
    h = SN(P.const(Fraction(1, 2)))
    f = floor(add(a, h))
    # exact half: round to even
    if bool(eq(sub(f, a), h)):
        k = floor(div(f, mk(2)))
        if not bool(eq(mul(k, mk(2)), f)):
            return sub(f, ONE)
    return f


def around(a, nd):
    if a.c is not None:
        return a
    s = mk(Fraction(10) ** int(nd))
    return div(rint(mul(a, s)), s)


def floordiv(a, b):
    isint = a.isint and b.isint
    if a.c is None and b.c is None:
        if bool(eq(b, ZERO)):
            return div(a, b)
        r = floor(SN(P.mul(a.p, P.inv(b.p))))
        return SN(r.p, isint=isint)
    return floor(div(a, b)) if not (b.c is not None) else NAN


def mod(a, b):
    if a.c is None and b.c is None:
        q = floordiv(a, b)
        if q.c is not None:
            return NAN
        return SN(P.sub(a.p, P.mul(q.p, b.p)), isint=a.isint and b.isint)
    return NAN


def pow_(a, b):
    if b.c is None and b.p.is_const():
        e = b.p.const()
        if e == 0:
            return mk(1 if a.isint and b.isint else 1.0)
        if e.denominator == 1:
            e = int(e)
            if a.c is not None:
                return SN(None, a.c**e) if e > 0 and a.c == a.c else (
                    NAN if isnan_c(a) else ZERO
                )
            if e > 0:
                return SN(P.power(a.p, e), isint=a.isint and b.isint)
            return div(mk(1.0), SN(P.power(a.p, -e)))
        if e == Fraction(1, 2):
            return sqrt(a)
        if e == Fraction(-1, 2):
            return div(ONE, sqrt(a))
        if e.denominator == 2:
            return pow_(sqrt(a), mk(int(2 * e)))
    if a.c is not None or b.c is not None:
        if a.isconst() and b.isconst():
            with np.errstate(all="ignore"):
                return mk(float(np.float64(float(a)) ** np.float64(float(b))))
        if isnan_c(a) or isnan_c(b):
            return NAN
        if a.c is not None:  # inf ** b
            s = dsign(b)
            if a.c < 0:
                raise Unsupported("(-inf) ** symbolic")
            return PINF if s > 0 else (ZERO if s < 0 else ONE)
        # a ** inf
        m = dsign(sub(abs_(a), ONE))
        if m == 0:
            return ONE
        big = (m > 0) == (b.c > 0)
        return PINF if big else ZERO
    s = dsign(a)
    if s == 0:
        sb = dsign(b)
        return ZERO if sb > 0 else (PINF if sb < 0 else ONE)
    if s < 0:
        if b.isint:
            return pow_(a, mk(int(b)))
        return NAN
    return SN(P.exp(P.mul(b.p, P.log(a.p))))


def exp(a):
    if a.c is not None:
        return a if a.c != -INF else ZERO
    return SN(P.exp(a.p))


def log(a):
    if a.c is not None:
        return a if a.c == INF else NAN
    s = dsign(a)
    if s < 0:
        return NAN
    if s == 0:
        return NINF
    return SN(P.log(a.p))


def sqrt(a):
    if a.c is not None:
        return a if a.c == INF else NAN
    s = P.sign(a.p)
    if s not in ("+", "0+", "0"):
        if s == "-" or bool(lt(a, ZERO)):
            return NAN
    return SN(P.sqrt(a.p))


def cbrt(a):
    return pow_(a, SN(P.const(Fraction(1, 3))))


def phi(a):
    if a.c is not None:
        return NAN if isnan_c(a) else (ONE if a.c > 0 else ZERO)
    return SN(P.phi(a.p))


def phiinv(a):
    if a.c is not None:
        return NAN
    if bool(lt(a, ZERO)) or bool(gt(a, ONE)):
        return NAN
    if bool(eq(a, ZERO)):
        return NINF
    if bool(eq(a, ONE)):
        return PINF
    return SN(P.phiinv(a.p))


SQRT2 = lambda: SN(P.sqrt(P.const(2)))  # noqa: E731


def erfc(a):  # 2 phi(-a sqrt 2)
    return mul(mk(2), phi(neg(mul(a, SQRT2()))))


def erf(a):
    return sub(ONE, erfc(a))


def erfcinv(a):  # -phiinv(a/2)/sqrt 2
    return neg(div(phiinv(div(a, mk(2))), SQRT2()))


def erfinv(a):
    return erfcinv(sub(ONE, a))


def log_ndtr(a):
    return log(phi(a))


def cos(a):
    if a.c is not None:
        return NAN
    if a.p.is_zero():
        return ONE
    for i in a.p.atoms():
        at = P.T.atoms[i]
        if at.kind == "arccos" and a.p == P.atom_poly(at):
            return SN(at.args[0])
        if at.kind == "arccos" and a.p == P.scale(P.atom_poly(at), Fraction(1, 3)):
            d = P.cos_third_arccos(at.args[0])
            if d is not None:
                return SN(d)
    return SN(P.trig("cos", a.p, math.cos))


def sin(a):
    if a.c is not None:
        return NAN
    return SN(P.trig("sin", a.p, math.sin))


def arccos(a):
    if a.c is not None:
        return NAN
    if bool(lt(a, mk(-1))) or bool(gt(a, ONE)):
        return NAN
    if a.p.is_const():
        k = a.p.const()
        if k == 1:
            return ZERO
        if k == 0:
            return SN(P.scale(P.pi(), Fraction(1, 2)))
        if k == -1:
            return SN(P.pi())
    return SN(P.trig("arccos", a.p, math.acos))


def tanh(a):
    if a.c is not None:
        return NAN if isnan_c(a) else mk(1.0 if a.c > 0 else -1.0)
    e = exp(mul(mk(2), a))
    return div(sub(e, ONE), add(e, ONE))


def arctan(a):
    if a.c is not None:
        return NAN if isnan_c(a) else mul(mk(math.pi), mk(0.5 if a.c > 0 else -0.5))
    return SN(P.trig("arctan", a.p, math.atan))


def sinh(a):
    return div(sub(exp(a), exp(neg(a))), mk(2))


def cosh(a):
    return div(add(exp(a), exp(neg(a))), mk(2))


def expm1(a):
    return sub(exp(a), ONE)


def log1p(a):
    return log(add(ONE, a))


def log2(a):
    r = log(a)
    return div(r, SN(P.log(P.const(2))))


def log10(a):
    return div(log(a), SN(P.log(P.const(10))))


def logaddexp(a, b):
    return log(add(exp(a), exp(b)))


def expit(a):
    return div(ONE, add(ONE, exp(neg(a))))


def logit(a):
    return log(div(a, sub(ONE, a)))


def gammaln(a):
    if a.isconst():
        return mk(math.lgamma(float(a)))
    return SN(P.ufun("gammaln", (a.p,)))


def abs_(a):
    if a.c is not None:
        return SN(None, abs(a.c))
    s = P.sign(a.p)
    if s in ("+", "0+", "0"):
        return a
    if s in ("-", "0-"):
        return neg(a)
    g = ge(a, ZERO)
    if ctx().merge:
        r = P.ite(g.zexpr(), g.deps, a.p, P.neg(a.p), isint=a.isint and P.is_int_poly(a.p))
        (m,) = r.t
        at = P.T.atoms[m[0][0]]
        if at.sign is None:
            at.sign = "0+"
        return SN(r, isint=a.isint)
    return a if bool(g) else neg(a)


def sign(a):
    if isnan_c(a):
        return NAN
    return SN(P.const(dsign(a)), isint=a.isint)


def _cmp(a, b, op):
    """op in '<','<=','==' on finite values."""
    d = P.sub(a.p, b.p)
    s = P.sign(d)
    if s == "0":
        return SB(op != "<")
    if s == "+":
        return FALSE
    if s == "-":
        return SB(op != "==")
    if s == "0+" and op == "<":
        return FALSE
    if s == "0-" and op == "<=":
        return TRUE
    if d.is_const():
        c = d.const()
        return SB(c < 0 if op == "<" else c <= 0 if op == "<=" else c == 0)
    if P.has_inv(d):
        # multiply through by the (sign-known) denominators
        n, den = P.together(d)
        flip = 1
        for q, e in den:
            sq = P.sign(q)
            if sq == "-" and e % 2:
                flip = -flip
            elif sq not in ("+", "-") and e % 2 and op != "==":
                flip = 0
                break
        if flip:
            if flip < 0:
                n = P.neg(n)
            return _cmp(SN(n), ZERO, op)
    r = P.reduce_sign(d)
    if r is not None:
        return _cmp(SN(r), ZERO, op)
    mono, q = P.content(d)
    if mono:
        sm = P.mono_sign(mono)
        if sm in ("+", "-"):
            return _cmp(SN(q if sm == "+" or op == "==" else P.neg(q)), ZERO, op)
    deps = frozenset(d.atoms())
    if P.is_int_poly(a.p) and P.is_int_poly(b.p):
        x, y = P.to_z3_int(a.p), P.to_z3_int(b.p)
    else:
        # put negative terms on the other side (readable, and canonical)
        pos = P.Poly({m: c for m, c in d.t.items() if c > 0})
        ng = P.Poly({m: -c for m, c in d.t.items() if c < 0})
        x, y = P.to_z3(pos), P.to_z3(ng)
    z = x < y if op == "<" else x <= y if op == "<=" else x == y
    return SB(None, z, deps)


def lt(a, b):
    if a.c is not None or b.c is not None:
        if isnan_c(a) or isnan_c(b):
            return FALSE
        x = a.c if a.c is not None else 0.0
        y = b.c if b.c is not None else 0.0
        return SB(x < y)
    return _cmp(a, b, "<")


def le(a, b):
    if a.c is not None or b.c is not None:
        if isnan_c(a) or isnan_c(b):
            return FALSE
        x = a.c if a.c is not None else 0.0
        y = b.c if b.c is not None else 0.0
        return SB(x <= y)
    return _cmp(a, b, "<=")


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a.c is not None or b.c is not None:
        return SB(a.c is not None and b.c is not None and a.c == b.c)
    return _cmp(a, b, "==")


def ne(a, b):
    return ~eq(a, b)


def isnan(a):
    return SB(isnan_c(a))


def isinf(a):
    return SB(a.c is not None and a.c == a.c)


def isfinite(a):
    return SB(a.c is None)


def ite(c, a, b):
    """np.where on scalars; merges when both are finite, forks otherwise."""
    c = tobool(c)
    if c.v is not None:
        return a if c.v else b
    if isinstance(a, SB) and isinstance(b, SB):
        return (c & a) | (~c & b)
    a, b = tonum(a), tonum(b)
    if a.c is None and b.c is None and ctx().merge:
        isint = a.isint and b.isint
        zi = isint and P.is_int_poly(a.p) and P.is_int_poly(b.p)
        return SN(P.ite(c.z, c.deps, a.p, b.p, isint=zi), isint=isint)
    return a if bool(c) else b


def maximum(a, b):
    if isnan_c(a) or isnan_c(b):
        return NAN
    return _shared("max", a, b, lambda: _mark(ite(ge(a, b), a, b), ("+", "0+"), a, b))


def _shared(kind, a, b, make):
    """The larger (smaller) of two values equal to a pair seen before."""
    a, b = tonum(a), tonum(b)
    if a.c is not None or b.c is not None or not ctx().merge:
        return make()
    if a.p == b.p:
        return a
    fp = P.T.fingerprint((a.p, b.p))
    if fp is None:
        return make()
    if not hasattr(P.T, "extremes"):
        P.T.extremes = {}
    key = lambda u, v: (kind, a.isint, b.isint, *sorted(("%.6g" % u, "%.6g" % v)))
    lst = P.T.extremes.setdefault(key(*fp), [])

    def same(x, y):
        try:
            return P.clear(P.sub(x, y)).is_zero()
        except P.TooBig:
            return False

    for f, x, y, r in lst:
        for (u, v), (fu, fv) in (((x, y), f), ((y, x), f[::-1])):
            if abs(fu - fp[0]) <= 1e-9 * max(1.0, abs(fu)) and abs(fv - fp[1]) <= 1e-9 * max(1.0, abs(fv)) and same(u, a.p) and same(v, b.p):
                return r
    r = make()
    if ctx().merge and type(r) is SN and r.c is None and r.p != a.p and r.p != b.p:
        lst.append((fp, a.p, b.p, r))
    return r


def _mark(r, signs, a, b):
    """The larger of two values is positive if one of them is (and so on)."""
    if r is not a and r is not b and type(r) is SN and r.c is None and len(r.p.t) == 1:
        ((m, c),) = r.p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = P.T.atoms[m[0][0]]
            if at.kind == "ite" and tonum(a).c is None and tonum(b).c is None:
                if {at.args[0], at.args[1]} == {tonum(a).p, tonum(b).p}:
                    at.order = 1 if signs[0] == "+" else -1
            if at.kind == "ite" and at.sign is None:
                for q in (a, b):
                    q = tonum(q)
                    if q.c is None and not q.p.is_zero() and P.sign(q.p) == signs[0]:
                        at.sign = signs[0]
                        break
                    if q.c is None and (q.p.is_zero() or P.sign(q.p) == signs[1]):
                        at.sign = signs[1]
    return r


def minimum(a, b):
    if isnan_c(a) or isnan_c(b):
        return NAN
    return _shared("min", a, b, lambda: _mark(ite(le(a, b), a, b), ("-", "0-"), a, b))


def fmax(a, b):
    if isnan_c(a):
        return b
    if isnan_c(b):
        return a
    return maximum(a, b)


def fmin(a, b):
    if isnan_c(a):
        return b
    if isnan_c(b):
        return a
    return minimum(a, b)


def nextafter(a, b):
    if isnan_c(a) or isnan_c(b):
        return NAN
    if a.c is not None:
        if b.c is not None and b.c == a.c:
            return a
        return mk(math.copysign(1.7976931348623157e308, a.c))
    if P.EXACT_NEXT[0]:
        return a
    if a.p.is_const() and b.isconst():
        return mk(float(np.nextafter(float(a), float(b))))
    if bool(eq(a, b)):
        return a
    return SN(P.nextafter(a.p, bool(lt(a, b))))


# ------------------------------------------------------------ logical dtypes


def ld_of_dtype(t):
    if t is None:
        return "f"
    if t in (float, "float", "f", "d", "float64"):
        return "f"
    if t in (int, "int", "i", "int64"):
        return "i"
    if t in (bool, "bool", "?"):
        return "b"
    if t is object:
        return "O"
    if t == float:  # a stand-in for the builtin
        return "f"
    k = np.dtype(t).kind
    return {"f": "f", "i": "i", "u": "i", "b": "b", "O": "O"}.get(k, "f")


def cast(x, ld):
    """Value cast to a logical dtype (as astype / assignment does)."""
    if ld == "O":
        return x
    if ld == "b":
        return tobool(x)
    if ld == "i":
        if isinstance(x, SB):
            return x.num()
        x = mk(x)
        if x.isint:
            return x
        if x.c is not None:
            raise OverflowError("cannot convert float infinity/NaN to integer")
        r = trunc(x)
        return SN(r.p, isint=True)
    if isinstance(x, SB):
        x = x.num()
    x = mk(x)
    return SN(x.p, x.c, False) if x.isint else x
