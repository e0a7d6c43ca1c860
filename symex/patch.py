"""Switch the real pyvbmc (and gpyreg) modules between numpy and the symbolic
numpy, by replacing the names they import (never their source)."""
import contextlib
import math
import sys
import types

import numpy as np
import scipy
import scipy.linalg
import scipy.special

from . import sarray as A
from . import scalar as S
from .scalar import SB, SN, Unsupported, mk


def _has_sym(x):
    if isinstance(x, (SN, SB, A.SymArray)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(e) for e in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(e, (SN, SB)) for e in x.flat)
    return False


def _numeric(x):
    if isinstance(x, (bool, int, float, np.number, np.bool_, SN, SB)):
        return True
    if isinstance(x, (list, tuple)):
        return all(_numeric(e) for e in x)
    if isinstance(x, np.ndarray):
        return x.dtype.kind in "fbiu" or isinstance(x, A.SymArray)
    return False


def s_array(x, dtype=None, copy=True, ndmin=0, **k):
    if dtype is not None and S.ld_of_dtype(dtype) == "O":
        return np.array(x, dtype=object)
    if dtype is None and not _numeric(x):
        return np.array(x)
    ld = S.ld_of_dtype(dtype) if dtype is not None else None
    r = A.asym(x, ld)
    if isinstance(x, A.SymArray) and r is x and copy:
        r = r.copy()
    while r.ndim < ndmin:
        r = r[None]
    return r


def s_asarray(x, dtype=None, **k):
    return s_array(x, dtype, copy=False)


def s_zeros(shape, dtype=float, **k):
    ld = S.ld_of_dtype(dtype)
    if ld == "O":
        return np.zeros(shape, dtype=object)
    return A._filled(shape, S.cast(mk(0), ld), ld)


def s_ones(shape, dtype=None, **k):
    ld = S.ld_of_dtype(dtype)
    return A._filled(shape, S.cast(mk(1), ld), ld)


def s_full(shape, fill_value, dtype=None, **k):
    ld = S.ld_of_dtype(dtype) if dtype is not None else A.ld_of(fill_value)
    if ld == "O":
        return np.full(_shape(shape), fill_value, dtype=object).view(A.ObjArr)
    r = A._filled(shape, S.cast(mk(0), ld), ld)
    r[...] = fill_value
    return r


def _shape(s):
    return tuple(int(x) for x in s) if isinstance(s, (tuple, list)) else int(s)


def s_empty(shape, dtype=float, **k):
    ld = S.ld_of_dtype(dtype)
    if ld == "O":
        return np.empty(_shape(shape), dtype=object)
    return A._garbage(_shape(shape), ld)


def s_eye(N, M=None, k=0, dtype=float, **kw):
    return A.asym(np.eye(int(N), None if M is None else int(M), int(k)), S.ld_of_dtype(dtype))


def s_arange(*a, **k):
    if _has_sym(a):
        if all(not isinstance(x, SN) or x.isint for x in a):
            return np.arange(*[int(x) if isinstance(x, (SN, SB)) else x for x in a], **k)
        raise Unsupported("arange of symbolic reals")
    r = np.arange(*a, **k)
    return A.asym(r) if r.dtype.kind == "f" else r


def s_linspace(a, b, num=50, **k):
    return A.h_linspace(a, b, int(num), **k)


def s_isscalar(x):
    return isinstance(x, (SN, SB)) or np.isscalar(x)


class s_vectorize:
    def __init__(self, f, otypes=None, **k):
        self.f = f
        if k.get("signature"):
            raise Unsupported("vectorize signature")

    def __call__(self, *args):
        objs = np.broadcast_arrays(*[A.as_obj(a) for a in args])
        out = np.empty(objs[0].shape, dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = self.f(*[o[i] for o in objs])
        r = A.asym(out)
        return r


def s_repeat(a, repeats, axis=None):
    if isinstance(repeats, SN):
        repeats = int(repeats)
    elif isinstance(repeats, A.SymArray):
        repeats = np.array([int(r) for r in repeats.ravel()])
    return _sym_arg(np.repeat)(np.asarray(a) if isinstance(a, range) else a, repeats, axis)



s_repeat.__wrapped_np__ = np.repeat


class NP(types.ModuleType):
    """numpy as seen by the code under symbolic execution."""

    def __init__(self):
        super().__init__("numpy")
        self.array = s_array
        self.asarray = s_asarray
        self.asanyarray = s_asarray
        self.ascontiguousarray = s_asarray
        self.zeros = s_zeros
        self.ones = s_ones
        self.full = s_full
        self.empty = s_empty
        self.eye = s_eye
        self.identity = lambda n, dtype=float: s_eye(n, dtype=dtype)
        self.arange = s_arange
        self.linspace = s_linspace
        self.isscalar = s_isscalar
        self.vectorize = s_vectorize
        self.random = None
        self.polyfit = s_polyfit
        self.float64 = _F64
        self.atleast_1d = _sym_arg(np.atleast_1d)
        self.atleast_2d = _sym_arg(np.atleast_2d)
        self.repeat = s_repeat
        for f in (
            "concatenate", "vstack", "hstack", "stack", "column_stack", "append", "tile",
            "zeros_like", "ones_like", "full_like", "empty_like", "where", "diag",
            "sum", "mean", "copy", "ravel", "reshape", "cumsum", "delete", "insert", "sort",
            "outer", "dot", "matmul", "prod", "max", "min", "amax", "amin", "clip",
        ):
            setattr(self, f, _sym_arg(getattr(np, f)))
        for n in ("log", "exp", "sqrt", "log1p", "log2", "log10", "expm1"):
            setattr(self, n, _SymUfunc(getattr(np, n)))

    def __getattr__(self, n):
        return getattr(np, n)


class _SymUfunc:
    """A ufunc whose scalar constants stay exact terms (log 2, sqrt 2)."""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, x, *a, **k):
        if isinstance(x, (int, float, np.number)) and not isinstance(x, (bool, np.bool_)):
            x = mk(x)
        elif isinstance(x, np.ndarray) and not isinstance(x, A.SymArray) and x.dtype.kind in "fiu":
            x = A.asym(x)
        elif isinstance(x, (list, tuple)):
            x = A.asym(x)
        return self._uf(x, *a, **k)

    def __getattr__(self, n):
        return getattr(self._uf, n)


def s_polyfit(x, y, deg, *a, **k):
    cov = k.pop("cov", False)
    if deg != 1 or a or k or cov not in (False, True):
        raise Unsupported("polyfit of degree other than 1")
    x, y = A.asym(x), A.asym(y)
    xm, ym = np.mean(x), np.mean(y)
    d = x - xm
    slope = np.sum(d * (y - ym)) / np.sum(d * d)
    p = A.asym([slope, ym - slope * xm])
    if not cov:
        return p
    # inverse of X'X, scaled by the residual variance with n - 2 degrees of freedom
    n, tt = len(x), np.sum(d * d)
    r = y - ym - slope * d
    V = s_zeros((2, 2))
    V[0, 0] = 1 / tt
    V[0, 1] = V[1, 0] = -xm / tt
    V[1, 1] = mk(1) / n + xm * xm / tt
    return p, V * (np.sum(r * r) / (n - 2))


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1 and _has_sym(x):
            x = A.raw(x).ravel()[0] if isinstance(x, A.SymArray) else x.ravel()[0]
        if isinstance(x, (SN, SB)):
            return S.cast(mk(x), "f")
        return float(x)

    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, SN) and not o.isint)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)

    def __getattr__(cls, n):
        return getattr(float, n)


class s_float(metaclass=_FloatMeta):
    """builtin float as seen by the code under symbolic execution"""

    dtype = np.dtype(float)


def _is_realnum_arr(x):
    return isinstance(x, np.ndarray) and not isinstance(x, A.SymArray) and x.dtype.kind == "f"


def _sym_arg(f):
    """Make float results symbolic arrays even for concrete arguments (they
    may be assigned symbolic values later)."""

    def g(*args, **kw):
        r = f(*args, **kw)
        if isinstance(r, np.ndarray) and not isinstance(r, A.SymArray):
            if r.dtype.kind == "f":
                return A.asym(r)
            if r.dtype == object and r.size and all(isinstance(e, (SN, SB)) for e in r.flat):
                return A.asym(r)
        return r

    g.__name__ = f.__name__
    g.__wrapped_np__ = f
    return g


class _F64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.float64) or (isinstance(x, SN) and not x.isint)

    def __call__(cls, x=0.0):
        if isinstance(x, SN):
            return S.cast(x, "f")
        if isinstance(x, A.SymArray):
            return x.astype(float)
        return np.float64(x)


class _F64(np.float64, metaclass=type):
    pass


_F64 = np.float64  # dtype-compatible; symbolic scalars rarely reach it


class MATH(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        fs = {
            "sqrt": S.sqrt, "exp": S.exp, "log": S.log, "log2": S.log2, "log10": S.log10,
            "log1p": S.log1p, "fabs": S.abs_, "isfinite": S.isfinite, "isnan": S.isnan,
            "isinf": S.isinf, "erf": S.erf, "erfc": S.erfc, "lgamma": S.gammaln,
        }
        for n, f in fs.items():
            setattr(self, n, self._w(n, f))

    @staticmethod
    def _w(n, f):
        g = getattr(math, n)

        def h(x, *a):
            if isinstance(x, A.SymArray):
                x = x.item()
            if isinstance(x, SN):
                if a:
                    return S.div(f(x), f(mk(a[0])))
                return f(x)
            return g(x, *a)

        return h

    def __getattr__(self, n):
        return getattr(math, n)


def s_logsumexp(a, axis=None, b=None, keepdims=False, **k):
    e = np.exp(A.asym(a))
    if b is not None:
        e = e * b
    return np.log(A.h_sum(e, axis, keepdims=keepdims))


def s_cho_solve(c_and_lower, b, **k):
    c, lower = c_and_lower
    if lower:
        y = A.solve_triangular(c, b, lower=True)
        return A.solve_triangular(c, y, lower=True, trans=1)
    y = A.solve_triangular(c, b, lower=False, trans=1)
    return A.solve_triangular(c, y, lower=False)


def s_scipy_cholesky(a, lower=False, **k):
    L = A.h_cholesky(a)
    return L if lower else L.T


def s_cdist(a, b, metric="euclidean", **k):
    a, b = A.asym(a), A.asym(b)
    d = a[:, None, :] - b[None, :, :]
    q = A.h_sum(d * d, 2)
    if metric == "sqeuclidean":
        return q
    if metric == "euclidean":
        return np.sqrt(q)
    raise Unsupported(f"cdist {metric}")


class RNG:
    """np.random with arbitrary draws, constrained only by their range."""

    def __init__(self, ctx):
        self.c = ctx

    def _arr(self, tag, shape, **k):
        if shape is None:
            return self.c.fresh(tag, **k)
        if isinstance(shape, (int, np.integer, SN)):
            shape = (int(shape),)
        shape = tuple(int(s) for s in shape)
        n = self.c._name(tag)
        a = self.c.array(n, shape, **k)
        self.c.notes.setdefault("draws", []).append((tag, a))
        return a

    def rand(self, *shape):
        return self._arr("rand", shape if shape else None, lo=0, hi=1, strict=True)

    def random(self, size=None):
        return self._arr("rand", size, lo=0, hi=1, strict=True)

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._arr("rand", size, lo=0, hi=1, strict=True)
        return low + (high - low) * u

    def randn(self, *shape):
        return self._arr("randn", shape if shape else None)

    def standard_normal(self, size=None):
        return self._arr("randn", size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._arr("randn", size)

    def standard_t(self, df, size=None):
        return self._arr("rant", size)

    def gamma(self, shape, scale=1.0, size=None):
        if shape < 0 or scale < 0:
            raise ValueError("shape < 0")
        g = self._arr("gamma", size, sign="+", typ=(0.5, 2))
        self.c.notes.setdefault("gamma", []).append((shape, scale, g))
        return g

    def chisquare(self, df, size=None):
        return self.gamma(df / 2, 2.0, size)

    def _int(self, lo, hi, size):
        if size is None:
            return self.c.fresh_int("randint", lo, hi - 1)
        shape = (int(size),) if not isinstance(size, (tuple, list)) else tuple(int(s) for s in size)
        n = self.c._name("randint")
        return self.c.array(n, shape, lo=lo, hi=hi - 1, ld="i")

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._int(int(low), int(high), size)

    def integers(self, low, high=None, size=None, **k):
        return self.randint(low, high, size)

    def permutation(self, x):
        n = int(x) if np.ndim(x) == 0 else len(x)
        rest = list(range(n))
        out = []
        nm = self.c._name("perm")
        for i in range(n):
            k = self.c.choose(f"{nm}.{i}", rest)
            rest = [r for r in rest if r != k]
            out.append(k)
        out = np.array(out, dtype=int)
        return out if np.ndim(x) == 0 else x[out]

    def shuffle(self, x):
        p = self.permutation(len(x))
        x[...] = x[p].copy()

    def choice(self, a, size=None, replace=True, p=None):
        n = int(a) if np.ndim(a) == 0 else len(a)
        idx = self._choice_idx(n, size, replace, p)
        self.c.notes.setdefault("choice", []).append(dict(n=n, size=size, replace=replace, p=p, idx=idx))
        if np.ndim(a) == 0 or (isinstance(a, range) and a == range(n)):
            return idx
        return np.asarray(a)[idx] if isinstance(a, (range, list, tuple)) else a[idx]

    def _choice_idx(self, n, size, replace, p):
        if size is None and n <= 6:
            return self.c.choose(self.c._name("choice"), list(range(n)))
        if size is None:
            return self.c.fresh_int("choice", 0, n - 1)
        m = int(size) if np.ndim(size) == 0 else int(np.prod(size))
        if replace:
            return self._int(0, n, size)
        nm = self.c._name("choice")
        rest = list(range(n))
        out = []
        for i in range(m):
            k = self.c.choose(f"{nm}.{i}", rest)
            rest = [r for r in rest if r != k]
            out.append(k)
        return np.array(out, dtype=int)

    def multivariate_normal(self, mean, cov, size=None):
        D = len(mean)
        z = self._arr("randn", ((int(size), D) if size is not None else (D,)))
        return mean + z

    def seed(self, *a):
        pass

    def get_state(self, *a):
        return None

    def set_state(self, *a):
        pass

    def default_rng(self, *a):
        return self

    def __getattr__(self, n):
        raise Unsupported(f"np.random.{n}")


SPECIALS = {}


def _build_specials():
    from scipy.linalg import cho_solve, cholesky, inv, solve_triangular
    from scipy.spatial.distance import cdist
    from scipy.special import logsumexp

    SPECIALS.update(
        {
            id(cdist): s_cdist,
            id(solve_triangular): A.solve_triangular,
            id(cho_solve): s_cho_solve,
            id(cholesky): s_scipy_cholesky,
            id(logsumexp): s_logsumexp,
            id(inv): A.h_inv,
        }
    )


class SPMOD(types.ModuleType):
    """scipy with the few functions that do not dispatch replaced."""

    def __init__(self, real, over):
        super().__init__(real.__name__)
        self._real = real
        self._over = over

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        return getattr(self._real, n)


def _modules():
    for name, m in list(sys.modules.items()):
        if m is None or not (name == "pyvbmc" or name.startswith("pyvbmc.") or name.startswith("gpyreg")):
            continue
        if ".testing" in name:
            continue
        yield name, m


_np_names = {}


@contextlib.contextmanager
def sym_mode(ctx):
    if not SPECIALS:
        _build_specials()
    snp = NP()
    snp.random = RNG(ctx)
    ctx.np = snp
    smath = MATH()
    la = {
        "solve_triangular": A.solve_triangular,
        "cho_solve": s_cho_solve,
        "cholesky": s_scipy_cholesky,
        "inv": A.h_inv,
        "det": A.h_det,
        "norm": A.h_norm,
        "solve": lambda a, b, **k: A.h_solve(a, b),
    }
    sla = SPMOD(scipy.linalg, la)
    ssp = SPMOD(scipy.special, {"logsumexp": s_logsumexp})

    ssc = SPMOD(scipy, {"linalg": sla, "special": ssp})
    undo = []

    def put(m, k, v):
        undo.append((m, k, m.__dict__[k]))
        m.__dict__[k] = v

    reals = {id(np): snp, id(math): smath, id(scipy.linalg): sla, id(scipy.special): ssp, id(scipy): ssc}
    names = {}
    for f in ("ceil", "floor", "sqrt", "log", "exp"):
        g = getattr(math, f)
        if f in smath.__dict__:
            names[id(g)] = smath.__dict__[f]
    for f in vars(snp):
        g = getattr(np, f, None)
        if g is not None and callable(g) and f not in ("float64",):
            names[id(g)] = getattr(snp, f)
    names.update(SPECIALS)
    try:
        for _, m in _modules():
            for k, v in list(m.__dict__.items()):
                if k.startswith("__"):
                    continue
                r = reals.get(id(v))
                if r is not None:
                    put(m, k, r)
                elif callable(v) and id(v) in names:
                    put(m, k, names[id(v)])
            if "float" not in m.__dict__:
                undo.append((m, "float", None))
                m.__dict__["float"] = s_float
        yield
    finally:
        for m, k, v in reversed(undo):
            if v is None:
                m.__dict__.pop(k, None)
            else:
                m.__dict__[k] = v


@contextlib.contextmanager
def real_mode(ctx):
    """Real code, real numpy; only np.random is scripted from the model."""
    old = S.CTX
    S.CTX = None
    ctx.np = np
    # inside a symbolic path the modules are patched: undo that for the replay
    rng = RNG(ctx)
    undo = []
    names = [n for n in dir(RNG) if not n.startswith("_")]
    for n in names:
        if hasattr(np.random, n):
            undo.append((np.random, n, getattr(np.random, n)))
    saved = []
    for _, m in _modules():
        for k, v in list(m.__dict__.items()):
            if k.startswith("__"):
                continue
            r = _unsym(v)
            if r is not None:
                saved.append((m, k, v))
                m.__dict__[k] = r
    try:
        for o, n, _ in undo:
            setattr(o, n, getattr(rng, n))
        with np.errstate(all="ignore"):
            yield
    finally:
        for o, n, v in undo:
            setattr(o, n, v)
        for m, k, v in saved:
            m.__dict__[k] = v
        S.CTX = old


def _unsym(v):
    if v is s_float:
        return float
    if isinstance(v, NP):
        return np
    if isinstance(v, MATH):
        return math
    if isinstance(v, SPMOD):
        return v._real
    if isinstance(v, _SymUfunc):
        return v._uf
    w = getattr(v, "__wrapped_np__", None)
    if w is not None:
        return w
    for n, f in (("array", s_array), ("asarray", s_asarray), ("zeros", s_zeros), ("ones", s_ones),
                 ("full", s_full), ("empty", s_empty), ("eye", s_eye), ("arange", s_arange),
                 ("linspace", s_linspace), ("isscalar", s_isscalar)):
        if v is f:
            return getattr(np, n)
    if v is s_vectorize:
        return np.vectorize
    if v is A.solve_triangular:
        return scipy.linalg.solve_triangular
    if v is s_cho_solve:
        return scipy.linalg.cho_solve
    if v is s_scipy_cholesky:
        return scipy.linalg.cholesky
    if v is s_cdist:
        from scipy.spatial.distance import cdist

        return cdist
    if v is s_logsumexp:
        return scipy.special.logsumexp
    if v is A.h_inv:
        return scipy.linalg.inv
    if isinstance(v, types.FunctionType) and v.__module__ == __name__ and v.__qualname__.startswith("MATH."):
        return None
    return None
