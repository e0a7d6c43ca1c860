"""Symbolic numpy arrays: object arrays of scalars (numpy's own indexing,
views, broadcasting and aliasing), with the logical dtype tracked separately
so that integer arrays truncate and refuse in-place floats as numpy's do."""
import functools
import itertools
import math

import numpy as np

from . import scalar as S
from .scalar import SB, SN, Unsupported, cast, ld_of_dtype, mk, tobool


class ObjArr(np.ndarray):
    """A real array of arbitrary objects that can be indexed symbolically."""

    __array_priority__ = 100

    def __getitem__(self, idx):
        return np.ndarray.__getitem__(self, norm_index(idx))

    def __setitem__(self, idx, value):
        np.ndarray.__setitem__(self, norm_index(idx), value)

    def __deepcopy__(self, memo):
        r = np.ndarray.__deepcopy__(self, memo)
        return r.view(ObjArr) if isinstance(r, np.ndarray) else r


class SymArray(np.ndarray):
    __array_priority__ = 200

    def __array_finalize__(self, obj):
        self.ld = getattr(obj, "ld", "f")

    # ---- basics
    @property
    def dtype(self):
        return np.dtype(
            {"f": float, "i": int, "b": bool, "O": object}[self.ld]
        )

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch_function(func, args, kwargs)

    def __getitem__(self, idx):
        idx = norm_index(idx)
        r = raw(self)[idx]
        if isinstance(r, np.ndarray):
            return wrap(r, self.ld)
        return r

    def __setitem__(self, idx, value):
        base = raw(self)
        m = idx
        if isinstance(m, tuple) and len(m) == 1:
            m = m[0]
        if (
            isinstance(m, SymArray)
            and m.ld == "b"
            and m.shape == self.shape
            and _is_scalar(value)
            and self.ld in ("f", "i")
            and S.ctx().merge
            and any(e.v is None for e in raw(m).flat)
        ):
            v = cast(value_scalar(value), self.ld)
            for k in np.ndindex(*self.shape):
                base[k] = S.ite(raw(m)[k], v, base[k])
            return
        idx = norm_index(idx)
        if _is_scalar(value):
            base[idx] = cast(value_scalar(value), self.ld)
            return
        v = as_obj(value)
        out = np.empty(v.shape, dtype=object)
        for k in np.ndindex(*v.shape):
            out[k] = cast(v[k], self.ld)
        if out.ndim == 0:
            base[idx] = out[()]
        else:
            base[idx] = out

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(tobool(raw(self).flat[0]))
        if self.size == 0:
            return False
        raise ValueError(
            "The truth value of an array with more than one element is "
            "ambiguous. Use a.any() or a.all()"
        )

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(raw(self).flat[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return int(raw(self).flat[0])

    def __index__(self):
        if self.ndim == 0 and self.ld == "i":
            return int(raw(self)[()])
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def item(self, *a):
        if a:
            return raw(self)[a if len(a) > 1 else a[0]]
        if self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return raw(self).flat[0]

    def tolist(self):
        return raw(self).tolist()

    def copy(self, order="C"):
        return wrap(raw(self).copy(order), self.ld)

    def __copy__(self):
        return self.copy("K")

    def __deepcopy__(self, memo):
        return self.copy("K")

    def astype(self, t, **kw):
        ld = ld_of_dtype(t)
        return _map1(lambda x: cast(x, ld), self, ld)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return np.add.reduce(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, keepdims=False, **k):
        return np.multiply.reduce(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return h_mean(self, axis=axis, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return h_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np.sqrt(h_var(self, axis=axis, ddof=ddof, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return np.maximum.reduce(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return np.minimum.reduce(self, axis=axis, keepdims=keepdims)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_or.reduce(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return np.logical_and.reduce(self, axis=axis, keepdims=keepdims)

    def cumsum(self, axis=None, **k):
        return h_cumsum(self, axis)

    def cumprod(self, axis=None, **k):
        return h_cumprod(self, axis)

    def argmax(self, axis=None, out=None, keepdims=False):
        return h_argmax(self, axis)

    def argmin(self, axis=None, out=None, keepdims=False):
        return h_argmin(self, axis)

    def argsort(self, axis=-1, **k):
        return h_argsort(self, axis)

    def sort(self, axis=-1, **k):
        r = h_sort(self, axis)
        raw(self)[...] = raw(r)

    def nonzero(self):
        return h_nonzero(self)

    def dot(self, o, out=None):
        return np.dot(self, o)

    def round(self, decimals=0, out=None):
        return h_round(self, decimals)

    def clip(self, min=None, max=None, **k):
        return h_clip(self, min, max)

    def fill(self, v):
        self[...] = v

    def conj(self):
        return self

    def trace(self, *a, **k):
        return np.add.reduce(np.diagonal(self))

    def take(self, indices, axis=None, **k):
        return np.take(self, indices, axis)

    def repeat(self, n, axis=None):
        return np.repeat(self, n, axis)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __repr__(self):
        return f"SymArray({self.ld}, {raw(self).tolist()!r})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __contains__(self, x):
        return bool((self == x).any())


def raw(a):
    return np.ndarray.view(a, np.ndarray)


def wrap(objarr, ld):
    r = objarr.view(SymArray)
    r.ld = ld
    return r


def is_sym(x):
    return isinstance(x, (SymArray, SN, SB))


def scalar0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return wrap(a, _ld_el(x))


def _ld_el(x):
    if isinstance(x, SB) or isinstance(x, (bool, np.bool_)):
        return "b"
    if isinstance(x, SN):
        return "i" if x.isint else "f"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating)):
        return "f"
    return "O"


_ORDER = {"b": 0, "i": 1, "f": 2, "O": 3}


def promote(lds):
    r = "b"
    for ld in lds:
        if _ORDER[ld] > _ORDER[r]:
            r = ld
    return r


def _is_scalar(v):
    return (
        isinstance(v, (SN, SB, int, float, np.number, np.bool_))
        or (isinstance(v, np.ndarray) and v.ndim == 0)
    )


def value_scalar(v):
    if isinstance(v, np.ndarray):
        return raw(v)[()] if isinstance(v, SymArray) else v[()]
    return v


def ld_of(x):
    if isinstance(x, SymArray):
        return x.ld
    if isinstance(x, np.ndarray):
        return {"f": "f", "i": "i", "u": "i", "b": "b"}.get(x.dtype.kind, "O")
    if isinstance(x, (list, tuple)):
        return promote([ld_of(e) for e in x]) if len(x) else "f"
    return _ld_el(x)


def as_obj(x):
    """Plain object ndarray of scalars."""
    if isinstance(x, SymArray):
        return raw(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        out = np.empty(x.shape, dtype=object)
        for k in np.ndindex(*x.shape):
            out[k] = S.SB(bool(x[k])) if x.dtype.kind == "b" else mk(x[k])
        return out
    if isinstance(x, (list, tuple)):
        parts = [as_obj(e) for e in x]
        if not parts:
            return np.empty((0,), dtype=object)
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ValueError(
                "setting an array element with a sequence. The requested array "
                "has an inhomogeneous shape"
            )
        out = np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            if shp == ():
                out[i] = p[()]
            else:
                out[i] = p
        return out
    out = np.empty((), dtype=object)
    if isinstance(x, (SN, SB)):
        out[()] = x
    elif isinstance(x, (bool, np.bool_)):
        out[()] = S.TRUE if x else S.FALSE
    elif isinstance(x, (int, float, np.number)):
        out[()] = mk(x)
    else:
        out[()] = x
    return out


def asym(x, ld=None):
    """SymArray from anything array-like (copy unless already a SymArray)."""
    if isinstance(x, SymArray) and (ld is None or ld == x.ld):
        return x
    l0 = ld_of(x)
    a = as_obj(x)
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, SymArray):
        l0 = promote([_ld_el(e) for e in x.flat]) if x.size else "O"
    if ld is not None and ld != l0:
        out = np.empty(a.shape, dtype=object)
        for k in np.ndindex(*a.shape):
            out[k] = cast(a[k], ld)
        return wrap(out, ld)
    if a.base is not None or isinstance(x, np.ndarray):
        a = a.copy() if isinstance(x, SymArray) is False else a
    return wrap(a, l0)


def from_list(lst):
    return asym(list(lst))


def norm_index(idx):
    """Concretise symbolic masks / indices."""
    if isinstance(idx, tuple):
        return tuple(norm_index(i) for i in idx)
    if isinstance(idx, SymArray):
        if idx.ld == "b":
            r = np.empty(idx.shape, dtype=bool)
            for k in np.ndindex(*idx.shape):
                r[k] = bool(raw(idx)[k])
            return r if r.ndim else bool(r)
        if idx.ld == "i":
            r = np.empty(idx.shape, dtype=int)
            for k in np.ndindex(*idx.shape):
                r[k] = int(raw(idx)[k])
            return r if r.ndim else int(r)
        if idx.size == 0:
            return np.empty(idx.shape, dtype=int) if idx.ld == "i" else _float_index()
        return _float_index()
    if isinstance(idx, SB):
        return bool(idx)
    if isinstance(idx, SN):
        return idx.__index__() if idx.isint else _float_index()
    if isinstance(idx, slice):
        f = lambda v: v.__index__() if isinstance(v, (SN, SB)) else v  # noqa: E731
        return slice(f(idx.start), f(idx.stop), f(idx.step))
    if isinstance(idx, list) and any(is_sym(e) for e in idx):
        return [norm_index(e) for e in idx]
    if isinstance(idx, np.ndarray) and idx.dtype == object:
        return norm_index(asym(idx))
    return idx


def _float_index():
    raise IndexError("arrays used as indices must be of integer (or boolean) type")


def _map1(f, a, ld):
    b = as_obj(a)
    out = np.empty(b.shape, dtype=object)
    for k in np.ndindex(*b.shape):
        out[k] = f(b[k])
    return wrap(out, ld)


# ------------------------------------------------------------------ ufuncs


def _n(f):
    return lambda *a: f(*[mk(x) for x in a])


def _b(f):
    return lambda *a: f(*[tobool(x) for x in a])


def _bitand(a, b):
    if isinstance(a, SB) or isinstance(b, SB):
        return tobool(a) & tobool(b)
    return mk(int(a) & int(b))


def _bitor(a, b):
    if isinstance(a, SB) or isinstance(b, SB):
        return tobool(a) | tobool(b)
    return mk(int(a) | int(b))


def _invert(a):
    if isinstance(a, SB):
        return ~a
    return mk(~int(a))


def _eq(a, b):
    if isinstance(a, SB) and isinstance(b, SB):
        return a.eqb(b)
    a, b = S.tonum(a), S.tonum(b)
    if a is NotImplemented or b is NotImplemented:
        return S.FALSE
    return S.eq(a, b)


def _mul(a, b):
    if isinstance(a, SB) and isinstance(b, SB):
        return a & b
    # mask * number
    if isinstance(a, SB) or isinstance(b, SB):
        if isinstance(b, SB):
            a, b = b, a
        b = mk(b)
        if a.v is None and b.c is None:
            return S.ite(a, b, SN(S.P.const(0), isint=b.isint))
    return S.mul(mk(a), mk(b))


def _add(a, b):
    if isinstance(a, SB) and isinstance(b, SB):
        return a | b
    return S.add(mk(a), mk(b))


# name -> (function, result ld: None = promoted input, letter = fixed,
#          'F' = float)
OPS = {
    "add": (_add, None),
    "subtract": (_n(S.sub), None),
    "multiply": (_mul, None),
    "divide": (_n(S.div), "F"),
    "true_divide": (_n(S.div), "F"),
    "floor_divide": (_n(S.floordiv), None),
    "remainder": (_n(S.mod), None),
    "mod": (_n(S.mod), None),
    "fmod": (_n(S.mod), None),
    "power": (_n(S.pow_), None),
    "float_power": (_n(S.pow_), "F"),
    "negative": (_n(S.neg), None),
    "positive": (lambda a: a, None),
    "absolute": (_n(S.abs_), None),
    "fabs": (_n(S.abs_), "F"),
    "sign": (_n(S.sign), None),
    "square": (_n(lambda a: S.mul(a, a)), None),
    "reciprocal": (_n(lambda a: S.div(S.ONE, a)), None),
    "exp": (_n(S.exp), "F"),
    "exp2": (_n(lambda a: S.pow_(mk(2.0), a)), "F"),
    "log": (_n(S.log), "F"),
    "log2": (_n(S.log2), "F"),
    "log10": (_n(S.log10), "F"),
    "log1p": (_n(S.log1p), "F"),
    "expm1": (_n(S.expm1), "F"),
    "sqrt": (_n(S.sqrt), "F"),
    "cbrt": (_n(S.cbrt), "F"),
    "sin": (_n(S.sin), "F"),
    "cos": (_n(S.cos), "F"),
    "arccos": (_n(S.arccos), "F"),
    "arctan": (_n(S.arctan), "F"),
    "tanh": (_n(S.tanh), "F"),
    "sinh": (_n(S.sinh), "F"),
    "cosh": (_n(S.cosh), "F"),
    "floor": (_n(S.floor), "F"),
    "ceil": (_n(S.ceil), "F"),
    "trunc": (_n(S.trunc), "F"),
    "rint": (_n(S.rint), "F"),
    "maximum": (_n(S.maximum), None),
    "minimum": (_n(S.minimum), None),
    "fmax": (_n(S.fmax), None),
    "fmin": (_n(S.fmin), None),
    "logaddexp": (_n(S.logaddexp), "F"),
    "nextafter": (_n(S.nextafter), "F"),
    "hypot": (_n(lambda a, b: S.sqrt(S.add(S.mul(a, a), S.mul(b, b)))), "F"),
    "less": (_n(S.lt), "b"),
    "less_equal": (_n(S.le), "b"),
    "greater": (_n(S.gt), "b"),
    "greater_equal": (_n(S.ge), "b"),
    "equal": (_eq, "b"),
    "not_equal": (lambda a, b: ~_eq(a, b), "b"),
    "logical_and": (_b(lambda a, b: a & b), "b"),
    "logical_or": (_b(lambda a, b: a | b), "b"),
    "logical_xor": (_b(lambda a, b: a ^ b), "b"),
    "logical_not": (_b(lambda a: ~a), "b"),
    "bitwise_and": (_bitand, None),
    "bitwise_or": (_bitor, None),
    "bitwise_xor": (lambda a, b: tobool(a) ^ tobool(b), None),
    "invert": (_invert, None),
    "isnan": (_n(S.isnan), "b"),
    "isinf": (_n(S.isinf), "b"),
    "isfinite": (_n(S.isfinite), "b"),
    "signbit": (_n(lambda a: S.lt(a, S.ZERO)), "b"),
    "conjugate": (lambda a: a, None),
    "copysign": (_n(lambda a, b: S.mul(S.abs_(a), mk(1.0 if S.dsign(b) >= 0 else -1.0))), "F"),
    "heaviside": (_n(lambda a, b: [b, S.ONE, S.ZERO][S.dsign(a)]), "F"),
    # scipy.special
    "erf": (_n(S.erf), "F"),
    "erfc": (_n(S.erfc), "F"),
    "erfinv": (_n(S.erfinv), "F"),
    "erfcinv": (_n(S.erfcinv), "F"),
    "ndtr": (_n(S.phi), "F"),
    "ndtri": (_n(S.phiinv), "F"),
    "log_ndtr": (_n(S.log_ndtr), "F"),
    "expit": (_n(S.expit), "F"),
    "logit": (_n(S.logit), "F"),
    "gammaln": (_n(S.gammaln), "F"),
    "xlogy": (_n(lambda a, b: S.mul(a, S.log(b)) if S.dsign(a) else S.ZERO), "F"),
}

IDENT = {
    "add": 0,
    "multiply": 1,
    "logical_and": True,
    "logical_or": False,
    "bitwise_or": False,
    "bitwise_and": True,
}


def _out(arr, ld, out):
    if out is None:
        if arr.ndim == 0:
            return arr[()]
        return wrap(arr, ld)
    o = out[0] if isinstance(out, tuple) else out
    if not isinstance(o, SymArray):
        if all(getattr(e, "isconst", lambda: True)() for e in arr.flat if isinstance(e, SN)) and all(
            e.v is not None for e in arr.flat if isinstance(e, SB)
        ):
            o[...] = tofloat(arr)
            return o
        raise Unsupported("symbolic result stored in a concrete array")
    if _ORDER[o.ld] < _ORDER[ld] and not (o.ld == "i" and ld == "b"):
        raise np._core._exceptions._UFuncOutputCastingError(
            np.add, "same_kind", np.dtype(float), np.dtype(int), 0
        )
    res = np.empty(o.shape, dtype=object)
    res[...] = arr
    for k in np.ndindex(*o.shape):
        res[k] = cast(res[k], o.ld)
    raw(o)[...] = res
    return o


def tofloat(arr):
    r = np.empty(arr.shape, dtype=float)
    for k in np.ndindex(*arr.shape):
        r[k] = float(arr[k])
    return r


def dispatch_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    kw.pop("casting", None)
    dt = kw.pop("dtype", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    if isinstance(out, tuple) and all(o is None for o in out):
        out = None
    if name in ("matmul", "vecdot"):
        a, b = as_obj(inputs[0]), as_obj(inputs[1])
        if a.ndim == 0 or b.ndim == 0:
            raise ValueError("matmul: Input operand does not have enough dimensions")
        r = matmul(a, b)
        ld = promote([ld_of(inputs[0]), ld_of(inputs[1])])
        return _out(np.asarray(r, dtype=object) if not isinstance(r, np.ndarray) else r, ld, out)
    if name == "divmod":
        return dispatch_ufunc(np.floor_divide, "__call__", inputs, {}), dispatch_ufunc(
            np.remainder, "__call__", inputs, {}
        )
    if name == "clip":
        r = h_clip(*inputs)
        return r if out is None else _out(as_obj(r), ld_of(r), out)
    if name not in OPS:
        raise Unsupported(f"ufunc {name}.{method}")
    f, rld = OPS[name]
    if method == "__call__":
        where = kw.pop("where", True)
        if kw:
            raise Unsupported(f"ufunc {name} with {sorted(kw)}")
        objs = [as_obj(x) for x in inputs]
        # python scalars are weak: they do not promote int arrays' kind
        ld = rld if rld not in (None, "F") else (
            "f" if rld == "F" else promote([ld_of(x) for x in inputs])
        )
        if rld is None and ld == "b" and name in ("subtract", "negative"):
            raise TypeError("numpy boolean subtract/negative is not supported")
        if rld is None and ld == "b" and name in ("absolute", "maximum", "minimum", "power", "square", "sign"):
            ld = "i" if name in ("power", "square", "sign") else "b"
        bs = np.broadcast_arrays(*objs) if len(objs) > 1 else objs
        shape = bs[0].shape
        res = np.empty(shape, dtype=object)
        if where is not True:
            w = np.broadcast_to(as_obj(where), shape)
            if out is None:
                raise Unsupported("ufunc where= without out=")
            o = out[0] if isinstance(out, tuple) else out
            old = as_obj(o)
            for k in np.ndindex(*shape):
                if bool(tobool(w[k])):
                    res[k] = f(*[b[k] for b in bs])
                else:
                    res[k] = old[k]
            return _out(res, ld, out)
        for k in np.ndindex(*shape):
            res[k] = f(*[b[k] for b in bs])
            if ld == "f" and isinstance(res[k], SN) and res[k].isint:
                res[k] = cast(res[k], "f")
        if dt is not None:
            ld = ld_of_dtype(dt)
            for k in np.ndindex(*shape):
                res[k] = cast(res[k], ld)
        return _out(res, ld, out)
    if method == "reduce":
        a = inputs[0]
        axis = kw.pop("axis", 0)
        keepdims = kw.pop("keepdims", False)
        initial = kw.pop("initial", None)
        where = kw.pop("where", True)
        ld0 = ld_of(a)
        o = as_obj(a)
        if where is not True:
            raise Unsupported("reduce with where=")
        ld = rld if rld not in (None, "F") else ld0
        ff = f
        if name in ("add", "multiply") and ld0 == "b":
            o = raw(_map1(lambda x: tobool(x).num(), o, "i"))
            ld = "i"
        if o.ndim == 0:
            axes = ()
            if axis not in (None, 0, -1, ()):
                raise np.exceptions.AxisError(axis, 0)
        elif axis is None:
            axes = tuple(range(o.ndim))
        else:
            axes = tuple(axis) if isinstance(axis, (tuple, list)) else (axis,)
            axes = tuple(
                np.lib.array_utils.normalize_axis_index(int(x), o.ndim) for x in axes
            )
        keep = [i for i in range(o.ndim) if i not in axes]
        t = np.transpose(o, keep + list(axes)) if o.ndim else o
        shape = tuple(o.shape[i] for i in keep)
        n = 1
        for i in axes:
            n *= o.shape[i]
        t = t.reshape(shape + (n,)) if o.ndim else o.reshape((1,))
        if n == 0 and initial is None and name not in IDENT:
            raise ValueError(
                f"zero-size array to reduction operation {name} which has no identity"
            )
        res = np.empty(shape, dtype=object)
        for k in np.ndindex(*shape):
            row = list(t[k]) if o.ndim else [t[0]]
            if initial is not None:
                acc = value_scalar(initial)
                for e in row:
                    acc = ff(acc, e)
            elif not row:
                v = IDENT[name]
                acc = SB(v) if isinstance(v, bool) else cast(mk(v), ld if ld in "fi" else "f")
            else:
                acc = row[0]
                if rld == "b":
                    acc = tobool(acc)
                for e in row[1:]:
                    acc = ff(acc, e)
            res[k] = acc
        if keepdims:
            res = res.reshape(tuple(1 if i in axes else o.shape[i] for i in range(o.ndim)))
        return _out(res, ld, out)
    if method == "accumulate":
        a = inputs[0]
        axis = kw.pop("axis", 0)
        o = as_obj(a)
        res = o.copy()
        ld = ld_of(a)
        if ld == "b" and name == "add":
            res = raw(_map1(lambda x: tobool(x).num(), o, "i"))
            ld = "i"
        mv = np.moveaxis(res, axis, 0)
        for i in range(1, mv.shape[0]):
            for k in np.ndindex(*mv.shape[1:]):
                mv[(i,) + k] = f(mv[(i - 1,) + k], mv[(i,) + k])
        return _out(res, ld, out)
    if method == "outer":
        a, b = as_obj(inputs[0]), as_obj(inputs[1])
        return dispatch_ufunc(
            ufunc,
            "__call__",
            (
                wrap(a.reshape(a.shape + (1,) * b.ndim), ld_of(inputs[0])),
                wrap(b, ld_of(inputs[1])),
            ),
            {},
        )
    if method == "at":
        a, idx = inputs[0], norm_index(inputs[1])
        o = raw(a)
        ids = np.arange(o.size).reshape(o.shape)[idx]
        vals = np.broadcast_to(as_obj(inputs[2]), ids.shape) if len(inputs) > 2 else None
        flat = o.reshape(-1)
        for k in np.ndindex(*ids.shape):
            u = np.unravel_index(int(ids[k]), o.shape)
            o[u] = cast(f(o[u], vals[k]) if vals is not None else f(o[u]), a.ld)
        return None
    raise Unsupported(f"ufunc {name}.{method}")


def _dotsum(xs, ys):
    acc = None
    for x, y in zip(xs, ys):
        t = S.mul(mk(x), mk(y))
        acc = t if acc is None else S.add(acc, t)
    return acc if acc is not None else S.ZERO


def matmul(a, b):
    a1 = a.ndim == 1
    b1 = b.ndim == 1
    if a1:
        a = a.reshape((1, -1))
    if b1:
        b = b.reshape((-1, 1))
    if a.shape[-1] != b.shape[-2]:
        raise ValueError(
            f"matmul: Input operand 1 has a mismatch in its core dimension 0 ({b.shape[-2]} vs {a.shape[-1]})"
        )
    lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(a, lead + a.shape[-2:])
    B = np.broadcast_to(b, lead + b.shape[-2:])
    out = np.empty(lead + (a.shape[-2], b.shape[-1]), dtype=object)
    for k in np.ndindex(*lead):
        for i in range(a.shape[-2]):
            for j in range(b.shape[-1]):
                out[k + (i, j)] = _dotsum(A[k][i], B[k][:, j])
    if a1:
        out = out[..., 0, :]
    if b1:
        out = out[..., 0]
    return out


# -------------------------------------------------------- array functions

HANDLERS = {}


def handles(*funcs):
    def deco(f):
        for g in funcs:
            HANDLERS[g] = f
        return f

    return deco


def _unwrap(x):
    if isinstance(x, SymArray):
        return raw(x)
    if isinstance(x, (SN, SB)):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, list):
        return [_unwrap(e) for e in x]
    if isinstance(x, tuple):
        return tuple(_unwrap(e) for e in x)
    if isinstance(x, dict):
        return {k: _unwrap(v) for k, v in x.items()}
    return x


def _collect_ld(x, acc):
    if isinstance(x, (SymArray, SN, SB)):
        acc.append(ld_of(x))
    elif isinstance(x, np.ndarray):
        acc.append(ld_of(x))
    elif isinstance(x, (list, tuple)):
        for e in x:
            _collect_ld(e, acc)


def _obj_numeric(x):
    """object-ify concrete numeric arrays mixed with symbolic ones"""
    if isinstance(x, np.ndarray) and x.dtype != object and x.dtype.kind in "fbiu":
        return as_obj(x)
    if isinstance(x, list):
        return [_obj_numeric(e) for e in x]
    if isinstance(x, tuple):
        return tuple(_obj_numeric(e) for e in x)
    return x


def _wrap_out(r, ld):
    if isinstance(r, np.ndarray) and r.dtype == object:
        if r.ndim == 0 and not isinstance(r[()], np.ndarray):
            return wrap(r, ld)
        return wrap(r, ld)
    if isinstance(r, (list, tuple)):
        return type(r)(_wrap_out(e, ld) for e in r)
    return r


# functions that only move elements: first-argument(s) data, rest structural
STRUCT_SEQ = {
    np.concatenate, np.vstack, np.hstack, np.stack, np.column_stack, np.dstack,
    np.block, np.atleast_1d, np.atleast_2d, np.atleast_3d, np.append, np.broadcast_arrays,
}
STRUCT = STRUCT_SEQ | {
    np.reshape, np.ravel, np.transpose, np.swapaxes, np.moveaxis, np.squeeze,
    np.expand_dims, np.broadcast_to, np.tile, np.repeat, np.flip, np.fliplr,
    np.flipud, np.roll, np.rot90, np.split, np.array_split, np.diagonal,
    np.shape, np.ndim, np.size, np.copy, np.rollaxis, np.take, np.delete,
    np.insert, np.resize, np.hsplit, np.vsplit, np.matrix_transpose,
}


def dispatch_function(func, args, kwargs):
    h = HANDLERS.get(func)
    if h is not None:
        return h(*args, **kwargs)
    if func in STRUCT:
        acc = []
        _collect_ld(args[0], acc)
        _collect_ld(kwargs.get("a", ()), acc)
        if func in (np.append, np.insert):
            _collect_ld(args[1:], acc)
        if func in STRUCT_SEQ:
            args = tuple(_obj_numeric(a) for a in args)
        elif args:
            rest = args[1:]
            rest = tuple(
                norm_index(a) if isinstance(a, (SymArray, SN, SB)) and func not in (np.insert,) else a
                for a in rest
            )
            args = (_obj_numeric(args[0]),) + rest
            kwargs = {
                k: norm_index(v) if isinstance(v, (SymArray, SN, SB)) else v
                for k, v in kwargs.items()
            }
        ld = promote(acc) if acc else "f"
        r = func(*_unwrap(args), **_unwrap(kwargs))
        r = _wrap_out(r, ld)
        # element kind follows the promoted dtype
        if func in STRUCT_SEQ and len(set(acc)) > 1 and isinstance(r, SymArray):
            for k in np.ndindex(*r.shape):
                raw(r)[k] = cast(raw(r)[k], ld)
        elif func in STRUCT_SEQ and isinstance(r, SymArray):
            for k in np.ndindex(*r.shape):
                if not isinstance(raw(r)[k], (SN, SB)):
                    raw(r)[k] = cast(raw(r)[k], ld)
        return r
    # generic: the Python implementation on object arrays
    impl = getattr(func, "_implementation", None) or getattr(func, "__wrapped__", None)
    if impl is None:
        raise Unsupported(f"numpy function {getattr(func, '__name__', func)}")
    try:
        return impl(*args, **kwargs)
    except (Unsupported, AttributeError) as e:
        raise Unsupported(f"numpy function {func.__name__}: {e}") from e


def _ax(axis):
    return None if axis is None else axis


@handles(np.sum)
def h_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return dispatch_ufunc(np.add, "reduce", (asym(a),), dict(axis=axis, keepdims=keepdims, out=out))


@handles(np.prod)
def h_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return dispatch_ufunc(np.multiply, "reduce", (asym(a),), dict(axis=axis, keepdims=keepdims))


@handles(np.max, np.amax)
def h_max(a, axis=None, out=None, keepdims=False, initial=None, **k):
    kw = dict(axis=axis, keepdims=keepdims if keepdims is True else False)
    if initial is not None and initial is not np._NoValue:
        kw["initial"] = initial
    return dispatch_ufunc(np.maximum, "reduce", (asym(a),), kw)


@handles(np.min, np.amin)
def h_min(a, axis=None, out=None, keepdims=False, initial=None, **k):
    kw = dict(axis=axis, keepdims=keepdims if keepdims is True else False)
    if initial is not None and initial is not np._NoValue:
        kw["initial"] = initial
    return dispatch_ufunc(np.minimum, "reduce", (asym(a),), kw)


def _nonan(a, ident):
    a = asym(a)
    return _map1(lambda x: ident if S.isnan_c(mk(x)) else mk(x), a, "f")


@handles(np.nanmax)
def h_nanmax(a, axis=None, **k):
    return h_max(_nonan(a, S.NINF), axis)


@handles(np.nanmin)
def h_nanmin(a, axis=None, **k):
    return h_min(_nonan(a, S.PINF), axis)


@handles(np.nansum)
def h_nansum(a, axis=None, **k):
    return h_sum(_nonan(a, S.ZERO), axis)


@handles(np.nanargmax)
def h_nanargmax(a, axis=None, **k):
    return h_argmax(_nonan(a, S.NINF), axis)


@handles(np.nanargmin)
def h_nanargmin(a, axis=None, **k):
    return h_argmin(_nonan(a, S.PINF), axis)


@handles(np.ptp)
def h_ptp(a, axis=None, **k):
    return h_max(a, axis) - h_min(a, axis)


@handles(np.any)
def h_any(a, axis=None, out=None, keepdims=False, **k):
    return dispatch_ufunc(
        np.logical_or, "reduce", (asym(a),), dict(axis=axis, keepdims=keepdims if keepdims is True else False)
    )


@handles(np.all)
def h_all(a, axis=None, out=None, keepdims=False, **k):
    return dispatch_ufunc(
        np.logical_and, "reduce", (asym(a),), dict(axis=axis, keepdims=keepdims if keepdims is True else False)
    )


@handles(np.mean)
def h_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asym(a)
    if axis is None:
        n = a.size
    else:
        n = 1
        for i in axis if isinstance(axis, tuple) else (axis,):
            n *= a.shape[i]
    s = dispatch_ufunc(np.add, "reduce", (a,), dict(axis=axis, keepdims=keepdims if keepdims is True else False))
    return np.true_divide(s, mk(float(n)))


@handles(np.average)
def h_average(a, axis=None, weights=None, **k):
    if weights is None:
        return h_mean(a, axis)
    w = asym(weights)
    a = asym(a)
    if w.shape != a.shape:
        raise Unsupported("np.average weights shape")
    return h_sum(a * w, axis) / h_sum(w, axis)


@handles(np.var)
def h_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = asym(a)
    m = h_mean(a, axis=axis, keepdims=True)
    d = a - m
    n = a.size if axis is None else a.shape[axis]
    s = dispatch_ufunc(np.add, "reduce", (d * d,), dict(axis=axis, keepdims=keepdims if keepdims is True else False))
    return np.true_divide(s, mk(float(n - ddof)))


@handles(np.std)
def h_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return np.sqrt(h_var(a, axis, None, None, ddof, keepdims))


@handles(np.cov)
def h_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, **k):
    if y is not None or fweights is not None or aweights is not None:
        raise Unsupported("np.cov options")
    X = asym(m)
    if X.ndim == 1:
        X = X.reshape((1, -1))
    if not rowvar:
        X = X.T
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    d = X - h_mean(X, axis=1).reshape((-1, 1))
    r = np.matmul(d, d.T) / mk(float(n - ddof))
    return np.squeeze(r)


@handles(np.cumsum)
def h_cumsum(a, axis=None, dtype=None, out=None):
    a = asym(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return dispatch_ufunc(np.add, "accumulate", (a,), dict(axis=axis))


@handles(np.cumprod)
def h_cumprod(a, axis=None, dtype=None, out=None):
    a = asym(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return dispatch_ufunc(np.multiply, "accumulate", (a,), dict(axis=axis))


@handles(np.diff)
def h_diff(a, n=1, axis=-1, **k):
    a = asym(a)
    for _ in range(n):
        m = np.moveaxis(a, axis, -1)
        a = np.moveaxis(m[..., 1:] - m[..., :-1], -1, axis)
    return a


def _before(a, b):
    """a sorts strictly before b (NaN last)."""
    a, b = mk(a), mk(b)
    if S.isnan_c(a):
        return False
    if S.isnan_c(b):
        return True
    return bool(S.lt(a, b))


class IArr(np.ndarray):
    """Known integers; usable to index ordinary arrays and to be indexed
    by symbolic values."""

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if any(isinstance(q, (SymArray, SN)) for q in ks):
            return asym(np.asarray(self))[k]
        r = np.ndarray.__getitem__(self, k)
        return r


def sorted_idx(vals):
    """Stable argsort by forks on comparisons (binary insertion)."""
    order = []
    for i, v in enumerate(vals):
        lo, hi = 0, len(order)
        while lo < hi:
            mid = (lo + hi) // 2
            if _before(v, vals[order[mid]]):
                hi = mid
            else:
                lo = mid + 1
        order.insert(lo, i)
    return order


@handles(np.argsort)
def h_argsort(a, axis=-1, kind=None, order=None, **k):
    a = asym(a)
    o = raw(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    out = np.empty(o.shape, dtype=int)
    src, dst = np.moveaxis(o, axis, -1), np.moveaxis(out, axis, -1)
    for j in np.ndindex(*src.shape[:-1]):
        dst[j] = sorted_idx(list(src[j]))
    return out.view(IArr)


@handles(np.sort)
def h_sort(a, axis=-1, **k):
    a = asym(a)
    o = raw(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    out = o.copy()
    mv = np.moveaxis(out, axis, -1)
    for j in np.ndindex(*mv.shape[:-1]):
        v = list(mv[j])
        for n, i in enumerate(sorted_idx(v)):
            mv[j + (n,)] = v[i]
    return wrap(out, a.ld)


def _argext(a, axis, better):
    a = asym(a)
    o = raw(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    mv = np.moveaxis(o, axis, -1)
    if mv.shape[-1] == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    out = np.empty(mv.shape[:-1], dtype=object)
    for j in np.ndindex(*mv.shape[:-1]):
        best = 0
        v = [mk(x) for x in mv[j]]
        for i in range(len(v)):
            if S.isnan_c(v[i]):
                best = i
                break
            if i and bool(better(v[i], v[best])):
                best = i
        out[j] = mk(best)
    return out[()] if out.ndim == 0 else wrap(out, "i")


@handles(np.argmax)
def h_argmax(a, axis=None, **k):
    return _argext(a, axis, S.gt)


@handles(np.argmin)
def h_argmin(a, axis=None, **k):
    return _argext(a, axis, S.lt)


@handles(np.nonzero)
def h_nonzero(a):
    a = asym(a)
    m = np.empty(a.shape, dtype=bool)
    for k in np.ndindex(*a.shape):
        m[k] = bool(tobool(raw(a)[k]))
    return np.nonzero(m)


@handles(np.flatnonzero)
def h_flatnonzero(a):
    return h_nonzero(np.ravel(a))[0]


@handles(np.argwhere)
def h_argwhere(a):
    return np.transpose(h_nonzero(a))


@handles(np.count_nonzero)
def h_count_nonzero(a, axis=None, **k):
    return h_sum(asym(a).astype(bool), axis)


@handles(np.where)
def h_where(c, x=None, y=None):
    if x is None:
        return h_nonzero(c)
    ld = promote([ld_of(x), ld_of(y)])
    co, xo, yo = np.broadcast_arrays(as_obj(c), as_obj(x), as_obj(y))
    out = np.empty(co.shape, dtype=object)
    for k in np.ndindex(*co.shape):
        out[k] = cast(S.ite(tobool(co[k]), xo[k], yo[k]), ld)
    return wrap(out, ld)


@handles(np.select)
def h_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = h_where(c, v, r)
    return r


@handles(np.clip)
def h_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = np.maximum(asym(r), lo)
    if hi is not None:
        r = np.minimum(asym(r), hi)
    if out is not None:
        return _out(as_obj(r), ld_of(r), out)
    return r


@handles(np.round, np.around)
def h_round(a, decimals=0, out=None):
    return _scal(_map1(lambda x: S.around(mk(x), decimals), asym(a), ld_of(a)), a)


def _scal(r, a):
    return raw(r)[()] if r.ndim == 0 and not isinstance(a, np.ndarray) else r


@handles(np.fix)
def h_fix(a, **k):
    return _scal(_map1(lambda x: S.trunc(mk(x)), asym(a), "f"), a)


@handles(np.dot)
def h_dot(a, b, out=None):
    a, b = asym(a), asym(b)
    ld = promote([a.ld, b.ld])
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim <= 2:
        r = matmul(raw(a), raw(b))
    else:
        raise Unsupported("np.dot with ndim > 2")
    r = np.asarray(r, dtype=object) if not isinstance(r, np.ndarray) else r
    return r[()] if r.ndim == 0 else wrap(r, ld)


@handles(np.inner)
def h_inner(a, b):
    return h_dot(asym(a), asym(b).T)


@handles(np.vdot)
def h_vdot(a, b):
    return h_dot(np.ravel(asym(a)), np.ravel(asym(b)))


@handles(np.outer)
def h_outer(a, b, out=None):
    return np.ravel(asym(a)).reshape((-1, 1)) * np.ravel(asym(b)).reshape((1, -1))


@handles(np.kron)
def h_kron(a, b):
    a, b = asym(a), asym(b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("np.kron")
    r = a[:, None, :, None] * b[None, :, None, :]
    return r.reshape((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))


@handles(np.tensordot)
def h_tensordot(a, b, axes=2):
    a, b = asym(a), asym(b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    ax = [x % a.ndim for x in ax]
    bx = [x % b.ndim for x in bx]
    fa = [i for i in range(a.ndim) if i not in ax]
    fb = [i for i in range(b.ndim) if i not in bx]
    n = 1
    for x in ax:
        n *= a.shape[x]
    A = a.transpose(fa + ax).reshape((-1, n))
    B = b.transpose(bx + fb).reshape((n, -1))
    return np.matmul(A, B).reshape(
        tuple(a.shape[i] for i in fa) + tuple(b.shape[i] for i in fb)
    )


@handles(np.einsum)
def h_einsum(spec, *ops, **kw):
    spec = spec.replace(" ", "")
    if "." in spec:
        raise Unsupported("einsum ellipsis")
    if "->" in spec:
        ins, outs = spec.split("->")
    else:
        ins = spec
        letters = [c for c in ins if c != ","]
        outs = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    objs = [as_obj(o) for o in ops]
    dims = {}
    for s, o in zip(ins, objs):
        if len(s) != o.ndim:
            raise ValueError("einsum operand has wrong number of dimensions")
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n:
                raise ValueError("einsum dimension mismatch")
    inner = [c for c in dims if c not in outs]
    res = np.empty(tuple(dims[c] for c in outs), dtype=object)
    for k in np.ndindex(*res.shape):
        env = dict(zip(outs, k))
        acc = None
        for j in itertools.product(*[range(dims[c]) for c in inner]):
            env.update(zip(inner, j))
            t = None
            for s, o in zip(ins, objs):
                e = mk(o[tuple(env[c] for c in s)])
                t = e if t is None else S.mul(t, e)
            acc = t if acc is None else S.add(acc, t)
        res[k] = acc if acc is not None else S.ZERO
    return res[()] if res.ndim == 0 else wrap(res, promote([ld_of(o) for o in ops]))


@handles(np.trace)
def h_trace(a, *x, **k):
    return np.add.reduce(np.diagonal(asym(a)))


@handles(np.diag)
def h_diag(v, k=0):
    v = asym(v)
    if v.ndim == 1:
        n = v.shape[0] + abs(k)
        out = _filled((n, n), mk(0) if v.ld == "i" else S.ZERO, v.ld)
        for i in range(v.shape[0]):
            raw(out)[i + max(-k, 0), i + max(k, 0)] = raw(v)[i]
        return out
    return wrap(np.diagonal(raw(v), k).copy(), v.ld)


@handles(np.diag_indices_from)
def h_diag_indices_from(a):
    return np.diag_indices(a.shape[0], a.ndim)


@handles(np.fill_diagonal)
def h_fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = val


def _tri(m, keep):
    m = asym(m)
    out = raw(m).copy()
    z = cast(mk(0), m.ld)
    for k in np.ndindex(*m.shape):
        if not keep(k[-2], k[-1]):
            out[k] = z
    return wrap(out, m.ld)


@handles(np.tril)
def h_tril(m, k=0):
    return _tri(m, lambda i, j: j - i <= k)


@handles(np.triu)
def h_triu(m, k=0):
    return _tri(m, lambda i, j: j - i >= k)


def _filled(shape, v, ld):
    if isinstance(shape, (SN, SB)):
        shape = int(shape)
    if isinstance(shape, (tuple, list)):
        shape = tuple(int(x) for x in shape)
    elif isinstance(shape, np.ndarray):
        shape = tuple(int(x) for x in shape)
    out = np.empty(shape, dtype=object)
    out.fill(v)
    return wrap(out, ld)


@handles(np.zeros_like)
def h_zeros_like(a, dtype=None, **k):
    ld = ld_of_dtype(dtype) if dtype is not None else ld_of(a)
    return _filled(k.get("shape") or np.shape(a), cast(mk(0), ld), ld)


@handles(np.ones_like)
def h_ones_like(a, dtype=None, **k):
    ld = ld_of_dtype(dtype) if dtype is not None else ld_of(a)
    return _filled(k.get("shape") or np.shape(a), cast(mk(1), ld), ld)


@handles(np.empty_like)
def h_empty_like(a, dtype=None, **k):
    ld = ld_of_dtype(dtype) if dtype is not None else ld_of(a)
    return _garbage(k.get("shape") or np.shape(a), ld)


def _garbage(shape, ld):
    """np.empty: arbitrary contents (fresh values)."""
    out = _filled(shape, None, ld)
    c = S.ctx()
    o = raw(out)
    for k in np.ndindex(*o.shape):
        if ld == "f":
            o[k] = c.fresh("empty")
        else:
            o[k] = cast(mk(0), ld)
    return out


@handles(np.full_like)
def h_full_like(a, fill_value, dtype=None, **k):
    ld = ld_of_dtype(dtype) if dtype is not None else ld_of(a)
    r = _filled(k.get("shape") or np.shape(a), cast(mk(0), ld), ld)
    r[...] = fill_value
    return r


@handles(np.isclose)
def h_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = mk(x), mk(y)
        if x.c is not None or y.c is not None:
            if S.isnan_c(x) and S.isnan_c(y):
                return SB(equal_nan)
            return S.eq(x, y)
        return S.le(S.abs_(S.sub(x, y)), S.add(mk(atol), S.mul(mk(rtol), S.abs_(y))))

    A, B = np.broadcast_arrays(as_obj(a), as_obj(b))
    out = np.empty(A.shape, dtype=object)
    for k in np.ndindex(*A.shape):
        out[k] = f(A[k], B[k])
    return out[()] if out.ndim == 0 else wrap(out, "b")


@handles(np.allclose)
def h_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return h_all(h_isclose(a, b, rtol, atol, equal_nan))


@handles(np.array_equal)
def h_array_equal(a, b, equal_nan=False):
    if np.shape(a) != np.shape(b):
        return False
    return bool(h_all(np.equal(asym(a), asym(b))))


@handles(np.isin)
def h_isin(a, test, assume_unique=False, invert=False, **k):
    a = asym(a)
    t = list(as_obj(test).flat)

    def f(x):
        r = S.FALSE
        for y in t:
            r = r | _eq(x, y)
        return ~r if invert else r

    return _map1(f, a, "b")


@handles(np.isreal)
def h_isreal(a):
    return _map1(lambda x: S.TRUE, asym(a), "b")


@handles(np.iscomplexobj)
def h_iscomplexobj(a):
    return False


@handles(np.isrealobj)
def h_isrealobj(a):
    return True


@handles(np.real)
def h_real(a):
    return a


@handles(np.isneginf)
def h_isneginf(a, out=None):
    return _scal(_map1(lambda x: SB(mk(x).c == -S.INF), asym(a), "b"), a)


@handles(np.isposinf)
def h_isposinf(a, out=None):
    return _scal(_map1(lambda x: SB(mk(x).c == S.INF), asym(a), "b"), a)


@handles(np.nan_to_num)
def h_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    big = np.finfo(float).max

    def f(x):
        x = mk(x)
        if x.c is None:
            return x
        if x.c != x.c:
            return mk(nan)
        if x.c > 0:
            return mk(posinf if posinf is not None else big)
        return mk(neginf if neginf is not None else -big)

    return _scal(_map1(f, asym(a), "f"), a)


@handles(np.unique)
def h_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = asym(a)
    o = raw(a)
    if axis is None:
        rows = [(x,) for x in o.reshape(-1)]
    elif axis == 0:
        rows = [tuple(o[i].reshape(-1)) for i in range(o.shape[0])]
    else:
        raise Unsupported("unique axis")

    def before(r, s):
        for x, y in zip(r, s):
            if _before(x, y):
                return -1
            if _before(y, x):
                return 1
        return 0

    order = sorted(range(len(rows)), key=functools.cmp_to_key(lambda i, j: before(rows[i], rows[j])))
    keep, counts, inv = [], [], [0] * len(rows)
    for i in order:
        if keep and before(rows[keep[-1]], rows[i]) == 0:
            counts[-1] += 1
        else:
            keep.append(i)
            counts.append(1)
        inv[i] = len(keep) - 1
    if axis is None:
        res = wrap(o.reshape(-1)[keep].copy() if keep else np.empty((0,), dtype=object), a.ld)
    else:
        res = wrap(o[keep].copy(), a.ld)
    outs = [res]
    if return_index:
        outs.append(np.array(keep, dtype=int))
    if return_inverse:
        outs.append(np.array(inv, dtype=int))
    if return_counts:
        outs.append(np.array(counts, dtype=int))
    return outs[0] if len(outs) == 1 else tuple(outs)


@handles(np.median)
def h_median(a, axis=None, **k):
    return h_quantile(a, 0.5, axis)


@handles(np.quantile)
def h_quantile(a, q, axis=None, **k):
    s = h_sort(asym(a), axis)
    ax = 0 if axis is None else axis
    n = s.shape[ax]
    s = np.moveaxis(s, ax, 0)

    def one(qq):
        pos = float(qq) * (n - 1)
        lo = int(math.floor(pos))
        fr = pos - lo
        r = s[lo]
        if fr > 1e-12:
            r = r + (s[lo + 1] - s[lo]) * mk(fr)
        return r

    if np.ndim(q) == 0:
        return one(q)
    return np.stack([asym(one(x)) for x in q])


@handles(np.percentile)
def h_percentile(a, q, axis=None, **k):
    return h_quantile(a, np.asarray(q, dtype=float) / 100.0, axis)


@handles(np.searchsorted)
def h_searchsorted(a, v, side="left", sorter=None):
    a = list(as_obj(a).flat)

    def f(x):
        n = 0
        for y in a:
            c = S.lt(mk(y), mk(x)) if side == "left" else S.le(mk(y), mk(x))
            if bool(c):
                n += 1
            else:
                break
        return mk(n)

    r = _map1(f, asym(v), "i")
    return raw(r)[()] if r.ndim == 0 else r


@handles(np.linspace)
def h_linspace(start, stop, num=50, endpoint=True, retstep=False, **k):
    num = int(num)
    a, b = asym(start), asym(stop)
    dv = num - 1 if endpoint else num
    rows = [a + (b - a) * mk(i / dv if dv else 0.0) for i in range(num)]
    return np.stack([asym(r, "f") for r in rows])


@handles(np.interp)
def h_interp(x, xp, fp, left=None, right=None, **k):
    raise Unsupported("np.interp")


@handles(np.meshgrid)
def h_meshgrid(*xs, indexing="xy", **k):
    xs = [asym(x) for x in xs]
    idx = np.meshgrid(*[np.arange(x.shape[0]) for x in xs], indexing=indexing)
    return [x[i] for x, i in zip(xs, idx)]


@handles(np.put)
def h_put(a, ind, v, mode="raise"):
    raise Unsupported("np.put")


@handles(np.copyto)
def h_copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = h_where(where, src, dst)


@handles(np.putmask)
def h_putmask(a, mask, values):
    a[...] = h_where(mask, values, a)


@handles(np.extract)
def h_extract(c, a):
    return np.ravel(asym(a))[np.ravel(asym(c))]


@handles(np.apply_along_axis)
def h_apply_along_axis(func1d, axis, arr, *args, **kwargs):
    arr = np.moveaxis(asym(arr), axis, -1)
    rows = []
    for j in np.ndindex(*arr.shape[:-1]):
        rows.append(asym(func1d(arr[j], *args, **kwargs)))
    r = np.stack(rows)
    r = r.reshape(arr.shape[:-1] + rows[0].shape)
    if rows[0].ndim:
        r = np.moveaxis(r, -1, axis)
    return r


@handles(np.can_cast, np.result_type, np.min_scalar_type)
def h_cancast(*a, **k):
    return np.dtype(float)


@handles(np.common_type)
def h_common_type(*a):
    return np.float64


@handles(np.may_share_memory)
def h_msm(a, b, max_work=None):
    return np.may_share_memory(raw(a) if isinstance(a, SymArray) else a, raw(b) if isinstance(b, SymArray) else b)


@handles(np.shares_memory)
def h_sm(a, b, max_work=None):
    return np.shares_memory(raw(a) if isinstance(a, SymArray) else a, raw(b) if isinstance(b, SymArray) else b)


# ------------------------------------------------------------------ linalg


def _det(m):
    n = m.shape[0]
    if n == 0:
        return S.ONE
    if n == 1:
        return mk(m[0, 0])
    acc = S.ZERO
    for j in range(n):
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        t = S.mul(mk(m[0, j]), _det(minor))
        acc = S.add(acc, t) if j % 2 == 0 else S.sub(acc, t)
    return acc


def _inv(m):
    n = m.shape[0]
    d = _det(m)
    if bool(S.eq(d, S.ZERO)):
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(m, j, 0), i, 1)
            c = _det(minor)
            if (i + j) % 2:
                c = S.neg(c)
            out[i, j] = S.div(c, d)
    return out


@handles(np.linalg.det)
def h_det(a):
    a = as_obj(a)
    if a.ndim > 2:
        return asym([h_det(x) for x in a])
    return _det(a)


@handles(np.linalg.slogdet)
def h_slogdet(a):
    d = h_det(a)
    return S.sign(d), S.log(S.abs_(d))


@handles(np.linalg.inv)
def h_inv(a):
    a = as_obj(a)
    if a.ndim > 2:
        return np.stack([h_inv(x) for x in a])
    return wrap(_inv(a), "f")


@handles(np.linalg.solve)
def h_solve(a, b):
    return np.matmul(h_inv(a), asym(b))


@handles(np.linalg.lstsq)
def h_lstsq(a, b, rcond=None):
    a, b = asym(a), asym(b)
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise Unsupported("lstsq with a non-square matrix")
    if bool(S.eq(_det(as_obj(a)), S.ZERO)):
        raise Unsupported("lstsq with a singular matrix")
    return h_solve(a, b), wrap(np.empty((0,), dtype=object), "f"), n, None


@handles(np.linalg.cholesky)
def h_cholesky(a, upper=False):
    a = as_obj(a)
    n = a.shape[0]
    L = np.empty((n, n), dtype=object)
    L.fill(S.ZERO)
    for i in range(n):
        for j in range(i + 1):
            s = mk(a[i, j])
            for k in range(j):
                s = S.sub(s, S.mul(L[i, k], L[j, k]))
            if i == j:
                if not bool(S.gt(s, S.ZERO)):
                    raise np.linalg.LinAlgError("Matrix is not positive definite")
                L[i, i] = S.sqrt(s)
            else:
                L[i, j] = S.div(s, L[j, j])
    r = wrap(L, "f")
    return r.T if upper else r


@handles(np.linalg.norm)
def h_norm(x, ord=None, axis=None, keepdims=False):
    x = asym(x)
    if ord not in (None, 2, "fro") or (ord == 2 and x.ndim == 2 and axis is None):
        if ord == 1 and (x.ndim == 1 or axis is not None):
            return h_sum(np.abs(x), axis, keepdims=keepdims)
        if ord == np.inf and (x.ndim == 1 or axis is not None):
            return h_max(np.abs(x), axis, keepdims=keepdims)
        raise Unsupported("norm ord")
    return np.sqrt(h_sum(x * x, axis, keepdims=keepdims))


@handles(np.linalg.multi_dot)
def h_multi_dot(arrays, out=None):
    r = arrays[0]
    for a in arrays[1:]:
        r = np.dot(r, a)
    return r


@handles(np.linalg.matrix_rank)
def h_mrank(*a, **k):
    raise Unsupported("matrix_rank")


@handles(np.linalg.svd)
def h_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    f = getattr(S.ctx(), "svd_stub", None)
    if f is None:
        raise Unsupported("svd without a contract stub")
    return f(asym(a))


@handles(np.linalg.eigh)
def h_eigh(a, UPLO="L"):
    f = getattr(S.ctx(), "eigh_stub", None)
    if f is None:
        raise Unsupported("eigh without a contract stub")
    return f(asym(a))


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, check_finite=True):
    A = as_obj(a)
    B = as_obj(b)
    one = B.ndim == 1
    if one:
        B = B.reshape((-1, 1))
    n = A.shape[0]
    M = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            M[i, j] = mk(A[i, j]) if (j <= i if lower else j >= i) else S.ZERO
            if unit_diagonal and i == j:
                M[i, j] = S.ONE
    if trans in (1, "T", 2, "C", True):
        M = M.T
        lower = not lower
    X = np.empty(B.shape, dtype=object)
    rng = range(n) if lower else range(n - 1, -1, -1)
    for c in range(B.shape[1]):
        for i in rng:
            s = mk(B[i, c])
            js = range(i) if lower else range(i + 1, n)
            for j in js:
                s = S.sub(s, S.mul(M[i, j], X[j, c]))
            X[i, c] = S.div(s, M[i, i])
    r = wrap(X, "f")
    return r.reshape(-1) if one else r
