"""IEEE-754 binary64 scalars.

`install()` makes ctx.real() return bit-precise floating-point inputs.
+ - * / sqrt, comparisons, max/min and nextafter are exact (round to nearest
even); exp, log, erfc and other transcendental functions return an arbitrary
float within the documented range of the function."""
import math

import numpy as np

from . import poly as P
from . import sarray as A
from . import scalar as S
from .scalar import SB, SN, Unsupported
from .z3env import z3

F64 = z3.Float64()
RNE = z3.RNE()
ON = [False]


class SF(SN):
    __slots__ = ("f", "d", "iv")

    def __init__(self, f, d=None, iv=None):
        self.iv = iv  # known finite enclosure (concrete floats) or None
        self.p = None
        self.c = None
        self.isint = False
        self.f = f
        self.d = deps_of(f) if d is None else d

    def fin(self):
        return True

    def isconst(self):
        return False

    def __float__(self):
        s = z3.simplify(self.f)
        if z3.is_fp_value(s):
            return fval(s)
        raise Unsupported("float() of a symbolic float")

    __int__ = None

    def __hash__(self):
        return self.f.hash()

    def __repr__(self):
        return f"SF({self.f})"


def fval(s):
    if s.isNaN():
        return math.nan
    if s.isInf():
        return -math.inf if s.isNegative() else math.inf
    bv = z3.simplify(z3.fpToIEEEBV(s)).as_long()
    return float(np.array([bv], dtype=np.uint64).view(np.float64)[0])


def lift(x):
    if isinstance(x, SF):
        return x.f
    if isinstance(x, SB):
        return z3.If(x.z, z3.FPVal(1.0, F64), z3.FPVal(0.0, F64)) if x.v is None else z3.FPVal(float(x.v), F64)
    x = S.mk(x)
    if x.c is not None:
        return z3.FPVal(x.c, F64)
    return z3.FPVal(float(x), F64)


def sb(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return S.TRUE
    if z3.is_false(z):
        return S.FALSE
    return SB(None, z, deps_of(z))


_ids = {}


def deps_of(f):
    """Atom ids of the floating-point variables in f."""
    out = set()
    seen = set()
    stack = [f]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if e.num_args() == 0:
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = e.decl().name()
                (m,) = P.var("fpvar!" + n).t
                out.add(m[0][0])
        else:
            stack.extend(e.children())
    return frozenset(out)


def isc(f, v):
    return z3.is_fp_value(f) and not f.isNaN() and fval(f) == v


def havoc(tag, *conds):
    c = S.ctx()
    v = z3.FP(c._name("fp." + tag), F64)
    for g in conds:
        c._add(sb(g(v)))
    return SF(v)


def _iv(x):
    if isinstance(x, SF):
        return x.iv
    x = S.mk(x)
    if x.c is not None:
        return None
    v = float(x)
    return (v, v)


def _out(lo, hi):
    """Outward-rounded enclosure, or None if it may overflow."""
    lo, hi = math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf)
    return (lo, hi) if math.isfinite(lo) and math.isfinite(hi) else None


def _abs():
    return getattr(S.ctx().ex, "fp_abstract", False)


def _clamp(c, r, iv):
    if iv is not None:
        c._add(sb(z3.fpGEQ(r, z3.FPVal(iv[0], F64))))
        c._add(sb(z3.fpLEQ(r, z3.FPVal(iv[1], F64))))


def _isnan(f):
    return z3.fpIsNaN(f)


def add(a, b):
    x, y = _iv(a), _iv(b)
    iv = _out(x[0] + y[0], x[1] + y[1]) if x and y else None
    return SF(z3.fpAdd(RNE, lift(a), lift(b)), iv=iv)


def sub(a, b):
    x, y = _iv(a), _iv(b)
    iv = _out(x[0] - y[1], x[1] - y[0]) if x and y else None
    return SF(z3.fpSub(RNE, lift(a), lift(b)), iv=iv)


def mul(a, b):
    x, y = _iv(a), _iv(b)
    a, b = lift(a), lift(b)
    if isc(a, 1.0):
        return SF(b, iv=y)
    if isc(b, 1.0):
        return SF(a, iv=x)
    iv = None
    if x and y:
        ps = [p * q for p in x for q in y]
        iv = _out(min(ps), max(ps))
    if not _abs():
        return SF(z3.fpMul(RNE, a, b), iv=iv)
    # arbitrary result with NaN exactly as IEEE prescribes, the right sign,
    # and the magnitude facts of a correctly rounded product
    c = S.ctx()
    r = z3.FP(c._name("fp.mul"), F64)
    nan = z3.Or(_isnan(a), _isnan(b), z3.And(z3.fpIsZero(a), z3.fpIsInf(b)), z3.And(z3.fpIsInf(a), z3.fpIsZero(b)))
    one = z3.FPVal(1.0, F64)
    c._add(sb(_isnan(r) == nan))
    for p, q in ((a, b), (b, a)):
        c._add(sb(z3.Implies(z3.And(z3.fpLEQ(z3.fpAbs(p), one), z3.Not(nan)), z3.fpLEQ(z3.fpAbs(r), z3.fpAbs(q)))))
        c._add(sb(z3.Implies(z3.And(z3.fpGEQ(z3.fpAbs(p), one), z3.Not(nan)), z3.fpGEQ(z3.fpAbs(r), z3.fpAbs(q)))))
    c._add(sb(z3.Implies(z3.Not(nan), z3.Or(z3.fpIsZero(r), z3.fpIsNegative(r) == (z3.fpIsNegative(a) != z3.fpIsNegative(b))))))
    _clamp(c, r, iv)
    return SF(r, iv=iv)


def div(a, b):
    a, b = lift(a), lift(b)
    if isc(b, 1.0):
        return SF(a)
    c = S.ctx()
    if _abs():
        # arbitrary result, but NaN only as IEEE prescribes; sign and
        # magnitude facts of a correctly rounded quotient
        r = z3.FP(c._name("fp.div"), F64)
        nan = z3.Or(_isnan(a), _isnan(b), z3.And(z3.fpIsZero(a), z3.fpIsZero(b)), z3.And(z3.fpIsInf(a), z3.fpIsInf(b)))
        one = z3.FPVal(1.0, F64)
        c._add(sb(_isnan(r) == nan))
        c._add(sb(z3.Implies(z3.And(z3.fpGEQ(z3.fpAbs(b), one), z3.Not(nan)), z3.fpLEQ(z3.fpAbs(r), z3.fpAbs(a)))))
        c._add(sb(z3.Implies(z3.And(z3.fpLEQ(z3.fpAbs(a), z3.fpAbs(b)), z3.Not(nan)), z3.fpLEQ(z3.fpAbs(r), one))))
        c._add(sb(z3.Implies(z3.Not(nan), z3.Or(z3.fpIsZero(r), z3.fpIsNegative(r) == (z3.fpIsNegative(a) != z3.fpIsNegative(b))))))
        return SF(r)
    return SF(z3.fpDiv(RNE, a, b))


def neg(a):
    v = _iv(a)
    return SF(z3.fpNeg(lift(a)), iv=(-v[1], -v[0]) if v else None)


def abs_(a):
    return SF(z3.fpAbs(lift(a)))


def sqrt(a):
    f = lift(a)
    if _abs():
        one = z3.FPVal(1.0, F64)
        return havoc(
            "sqrt",
            lambda v: _isnan(v) == z3.Or(_isnan(f), z3.And(z3.fpIsNegative(f), z3.Not(z3.fpIsZero(f)))),
            lambda v: z3.Or(_isnan(v), z3.Not(z3.fpIsNegative(v)), z3.fpIsZero(v)),
            lambda v: z3.Implies(z3.fpGEQ(f, one), z3.And(z3.fpGEQ(v, one), z3.fpLEQ(v, f))),
        )
    return SF(z3.fpSqrt(RNE, f))


def pow_(a, b):
    if isinstance(b, SF) or (isinstance(b, SN) and b.p is None):
        raise Unsupported("power with a symbolic float exponent")
    k = float(S.mk(b))
    if k == 2:
        return mul(a, a)
    if k == 0.5:
        return sqrt(a)
    if k == 1:
        return a
    raise Unsupported(f"float power {k}")


def maximum(a, b):
    x, y = lift(a), lift(b)
    return SF(z3.If(_isnan(x), x, z3.If(_isnan(y), y, z3.If(z3.fpGEQ(x, y), x, y))))


def minimum(a, b):
    x, y = lift(a), lift(b)
    return SF(z3.If(_isnan(x), x, z3.If(_isnan(y), y, z3.If(z3.fpLEQ(x, y), x, y))))


def fmax(a, b):
    x, y = lift(a), lift(b)
    return SF(z3.If(_isnan(x), y, z3.If(_isnan(y), x, z3.If(z3.fpGEQ(x, y), x, y))))


def fmin(a, b):
    x, y = lift(a), lift(b)
    return SF(z3.If(_isnan(x), y, z3.If(_isnan(y), x, z3.If(z3.fpLEQ(x, y), x, y))))


def nextafter(a, b):
    x, y = lift(a), lift(b)
    bv = z3.fpToIEEEBV(x)
    ng = z3.fpIsNegative(x)
    zero = z3.fpIsZero(x)
    up = z3.fpBVToFP(z3.If(zero, z3.BitVecVal(1, 64), z3.If(ng, bv - 1, bv + 1)), F64)
    dn = z3.fpBVToFP(z3.If(zero, z3.BitVecVal((1 << 63) | 1, 64), z3.If(ng, bv + 1, bv - 1)), F64)
    nan = z3.fpNaN(F64)
    return SF(z3.If(z3.Or(_isnan(x), _isnan(y)), nan, z3.If(z3.fpEQ(x, y), y, z3.If(z3.fpLT(x, y), up, dn))))


def exp(a):
    f = lift(a)
    zero, one = z3.FPVal(0.0, F64), z3.FPVal(1.0, F64)
    big, small = z3.FPVal(709.0, F64), z3.FPVal(-746.0, F64)
    return havoc(
        "exp",
        lambda v: _isnan(v) == _isnan(f),
        lambda v: z3.Or(_isnan(v), z3.fpGEQ(v, zero)),
        lambda v: z3.Implies(z3.fpGEQ(f, zero), z3.fpGEQ(v, one)),
        lambda v: z3.Implies(z3.fpLEQ(f, zero), z3.fpLEQ(v, one)),
        lambda v: z3.Implies(z3.fpLEQ(f, big), z3.Not(z3.fpIsInf(v))),
        lambda v: z3.Implies(z3.fpLEQ(f, small), z3.fpIsZero(v)),
    )


def log(a):
    f = lift(a)
    zero, one = z3.FPVal(0.0, F64), z3.FPVal(1.0, F64)
    return havoc(
        "log",
        lambda v: _isnan(v) == z3.Or(_isnan(f), z3.fpLT(f, zero)),
        lambda v: (z3.And(z3.fpIsInf(v), z3.fpIsNegative(v))) == z3.fpIsZero(f),
        lambda v: z3.Implies(z3.fpGEQ(f, one), z3.fpGEQ(v, zero)),
        lambda v: z3.Implies(z3.fpLEQ(f, one), z3.Or(_isnan(v), z3.fpLEQ(v, zero))),
    )


def _range(tag, lo, hi):
    def g(a):
        f = lift(a)
        return havoc(
            tag,
            lambda v: _isnan(v) == _isnan(f),
            lambda v: z3.Or(_isnan(v), z3.And(z3.fpGEQ(v, z3.FPVal(lo, F64)), z3.fpLEQ(v, z3.FPVal(hi, F64)))),
        )

    return g


erfc = _range("erfc", 0.0, 2.0)
erf = _range("erf", -1.0, 1.0)
phi = _range("ndtr", 0.0, 1.0)
expit = _range("expit", 0.0, 1.0)
tanh = _range("tanh", -1.0, 1.0)
cos = _range("cos", -1.0, 1.0)


def _cmp(op):
    return lambda a, b: sb(op(lift(a), lift(b)))


lt, le, gt, ge = _cmp(z3.fpLT), _cmp(z3.fpLEQ), _cmp(z3.fpGT), _cmp(z3.fpGEQ)
eq = _cmp(z3.fpEQ)
ne = lambda a, b: ~eq(a, b)  # noqa: E731
isnan = lambda a: sb(_isnan(lift(a)))  # noqa: E731
isinf = lambda a: sb(z3.fpIsInf(lift(a)))  # noqa: E731
isfinite = lambda a: sb(z3.Not(z3.Or(_isnan(lift(a)), z3.fpIsInf(lift(a)))))  # noqa: E731


def ite(c, a, b):
    if c.v is not None:
        return a if c.v else b
    return SF(z3.If(c.z, lift(a), lift(b)))


NAMES = (
    "add sub mul div neg abs_ sqrt pow_ maximum minimum fmax fmin nextafter exp log erfc erf phi expit tanh cos "
    "lt le gt ge eq ne isnan isinf isfinite"
).split()
UF = {
    "add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div", "negative": "neg",
    "absolute": "abs_", "fabs": "abs_", "sqrt": "sqrt", "power": "pow_", "maximum": "maximum", "minimum": "minimum",
    "fmax": "fmax", "fmin": "fmin", "nextafter": "nextafter", "exp": "exp", "log": "log", "erfc": "erfc", "erf": "erf",
    "ndtr": "phi", "expit": "expit", "tanh": "tanh", "cos": "cos", "less": "lt", "less_equal": "le", "greater": "gt",
    "greater_equal": "ge", "equal": "eq", "not_equal": "ne", "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite",
    "square": None,
}


def _wrap(g, h):
    def w(*a):
        for x in a:
            if type(x) is SF:
                return h(*a)
        return g(*a)

    return w


def install():
    """Switch this process to binary64 inputs (harness workers are forked, so
    other harnesses are unaffected)."""
    if ON[0]:
        return
    ON[0] = True
    G = globals()
    for n in NAMES:
        setattr(S, n, _wrap(getattr(S, n), G[n]))
    o_ite = S.ite
    S.ite = lambda c, a, b: ite(c, a, b) if type(a) is SF or type(b) is SF else o_ite(c, a, b)
    o_cast = S.cast

    def cast(x, ld):
        if type(x) is SF:
            if ld in ("f", "O"):
                return x
            raise Unsupported("cast of a symbolic float")
        return o_cast(x, ld)

    S.cast = cast
    A.cast = cast
    o_ds = S.dsign

    def dsign(a):
        if type(a) is SF:
            raise Unsupported("sign of a symbolic float")
        return o_ds(a)

    S.dsign = dsign
    for k, (f, ld) in list(A.OPS.items()):
        if k in UF:
            h = G[UF[k]] if UF[k] else (lambda a: mul(a, a))
        else:
            def h(*a, k=k):
                raise Unsupported(f"{k} of a symbolic float")
        A.OPS[k] = (_wrap(f, h), ld)
