"""Path exploration, queries, counterexample replay.

A harness is a function h(ctx).  Run with a Sym context it explores every path
of the code under test, with z3 deciding branches and assertions; run with a
Con context (numbers taken from a solver model) it is the replay on the real,
unpatched code."""
import hashlib
import math
import os
import random
import time
import traceback
from fractions import Fraction

import numpy as np

from . import poly as P
from . import scalar as S
from .scalar import SB, SN, Unsupported, mk, tobool
from .sarray import SymArray, as_obj, asym, raw, wrap
from .z3env import z3


DEBUG = os.environ.get("SYMDEBUG")


class Stop(BaseException):
    """Ends the current path."""


class Infeasible(Stop):
    pass


class Violated(Stop):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class Inconclusive(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.infeasible = 0
        self.assertions = 0
        self.discharged = 0
        self.trivial = 0
        self.decisions = 0
        self.identities = 0
        self.labels = {}
        self.samples = []

    def add(self, o):
        for k in (
            "queries sat unsat unknown solver_s paths infeasible assertions discharged trivial decisions identities"
        ).split():
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.samples += o.samples[:2]


def _fval(v):
    """z3 value -> Fraction/float"""
    if z3.is_int_value(v):
        return int(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


class Sym:
    """Symbolic context for one path."""

    mode = "sym"
    concretize_floats = False

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.dec = []
        self.pc = []
        self.pcset = set()
        self.counter = {}
        self.merge = ex.merge
        self.inputs = {}  # name -> (SN, lo, hi)
        self.kinds = {}
        self.stats = ex.stats
        self.notes = {}
        self.svd_stub = None
        self.eigh_stub = None
        self.cleanup = []
        self.typ = {}
        self.rsign = {}

    # ------------------------------------------------------------ inputs
    def _name(self, tag):
        n = self.counter.get(tag, 0)
        self.counter[tag] = n + 1
        return f"{tag}#{n}"

    def real(self, name, lo=None, hi=None, sign=None, strict=False, typ=None):
        """An arbitrary real in [lo, hi] (open interval if strict).  typ: the
        range preferred for concrete values (validation, counterexamples)."""
        if typ is not None:
            self.typ[name] = typ
        if self.ex.fp:
            return self._fpreal(name, lo, hi, strict)
        if sign is None and lo is not None:
            if lo > 0 or (lo == 0 and strict):
                sign = "+"
            elif lo == 0:
                sign = "0+"
        if sign is None and hi is not None:
            if hi < 0 or (hi == 0 and strict):
                sign = "-"
            elif hi == 0:
                sign = "0-"
        v = SN(P.var(name, sign))
        if name not in self.inputs:
            self.inputs[name] = (v, lo, hi, "R")
            self.rsign[name] = sign
            if lo is not None:
                self._add(S.lt(mk(lo), v) if strict else S.le(mk(lo), v))
            if hi is not None:
                self._add(S.lt(v, mk(hi)) if strict else S.le(v, mk(hi)))
        elif self.rsign.get(name) != sign:
            raise AssertionError(f"input {name} declared twice with different signs")
        return v

    def _fpreal(self, name, lo, hi, strict):
        """An arbitrary finite binary64 number."""
        from . import fp

        v = fp.SF(z3.FP(name, fp.F64), iv=(float(lo), float(hi)) if lo is not None and hi is not None else None)
        if name not in self.inputs:
            self.inputs[name] = (v, lo, hi, "F")
            self._add(fp.isfinite(v))
            if lo is not None:
                self._add(fp.lt(mk(lo), v) if strict else fp.le(mk(lo), v))
            if hi is not None:
                self._add(fp.lt(v, mk(hi)) if strict else fp.le(v, mk(hi)))
        return v

    def int(self, name, lo=None, hi=None):
        v = SN(P.var(name, "+" if lo is not None and lo > 0 else "0+" if lo == 0 else None, True), isint=True)
        if name not in self.inputs:
            self.inputs[name] = (v, lo, hi, "I")
            if lo is not None:
                self._add(S.le(mk(lo), v))
            if hi is not None:
                self._add(S.le(v, mk(hi)))
        return v

    def bool(self, name):
        z = z3.Bool(name)
        self.inputs[name] = (SB(None, z), None, None, "B")
        return SB(None, z)

    def ext(self, name, kinds=("fin", "inf", "-inf", "nan"), **kw):
        """An arbitrary float: finite real, or one of the special values."""
        k = self.choose(name + ".kind", list(kinds))
        if k == "fin":
            return self.real(name, **kw)
        return SN(None, float(k))

    def fresh(self, tag, lo=None, hi=None, sign=None, strict=False, typ=None):
        return self.real(self._name(tag), lo, hi, sign, strict, typ)

    def fresh_int(self, tag, lo=None, hi=None):
        return self.int(self._name(tag), lo, hi)

    def array(self, name, shape, lo=None, hi=None, sign=None, strict=False, ld="f", ext=None, typ=None):
        o = np.empty(shape, dtype=object)
        for k in np.ndindex(*o.shape):
            nm = name + "".join(f"[{i}]" for i in k)
            if ld == "i":
                o[k] = self.int(nm, lo, hi)
            elif ld == "b":
                o[k] = self.bool(nm)
            elif ext:
                o[k] = self.ext(nm, ext, lo=lo, hi=hi)
            else:
                o[k] = self.real(nm, lo, hi, sign, strict, typ)
        return wrap(o, ld)

    def const(self, x, ld=None):
        """Concrete data as an array of the run's kind."""
        if np.ndim(x) == 0 and not isinstance(x, np.ndarray):
            return mk(x) if not isinstance(x, bool) else tobool(x)
        return asym(x, ld)

    def uf(self, name, args, sign=None, lo=None, hi=None):
        """Arbitrary (but functional) value of `name` at args."""
        ps = []
        for a in args:
            a = mk(a)
            if a.c is not None:
                raise Unsupported(f"uninterpreted {name} at {a.c}")
            ps.append(a.p)

        def extra(at):
            out = []
            if lo is not None:
                out.append(at.z >= z3.RealVal(str(P.frac(lo))))
            if hi is not None:
                out.append(at.z <= z3.RealVal(str(P.frac(hi))))
            return out

        v = SN(P.ufun(name, tuple(ps), sign, extra if lo is not None or hi is not None else None))
        lst = self.notes.setdefault("uf", {}).setdefault(name, [])
        key = tuple(ps)
        if key not in [k for k, _ in lst]:
            lst.append((key, v))
        return v

    def choose(self, name, options):
        """Nondeterministic choice among concrete options (a fork)."""
        if len(options) == 1:
            self.kinds[name] = 0
            return options[0]
        i = self._decide(None, len(options))
        self.kinds[name] = i
        return options[i]

    # ------------------------------------------------------------ deciding
    def _add(self, sb):
        sb = tobool(sb)
        if sb.v is True:
            return
        if sb.v is False:
            raise Infeasible()
        i = sb.z.get_id()
        if i not in self.pcset:
            self.pcset.add(i)
            self.pc.append(sb)

    def _decide(self, sb, n=2):
        if DEBUG and sb is not None and len(self.dec) >= len(self.prefix):
            fr = [f for f in traceback.extract_stack() if "/pyvbmc/" in f.filename or "/checks/" in f.filename or "gpyreg" in f.filename]
            print("DECIDE", fr and f"{fr[-1].filename.split('/')[-1]}:{fr[-1].lineno}", str(sb.z)[:300].replace(chr(10), " "), flush=True)
        k = len(self.dec)
        if k < len(self.prefix):
            c = self.prefix[k]
            self.dec.append(c)
            if sb is not None:
                self._add(sb if c == 0 else ~sb)
            return c
        self.stats.decisions += 1
        if self.ex.deadline and time.time() > self.ex.deadline:
            raise Inconclusive("time budget for path exploration used up")
        if sb is None:
            for a in range(n - 1, 0, -1):
                self.ex.work.append(self.dec + [a])
            self.dec.append(0)
            return 0
        t = self.ex.feasible(self, sb)
        f = self.ex.feasible(self, ~sb) if t else True
        if t and f:
            self.ex.work.append(self.dec + [1])
        if not t and not self.ex.feasible(self, ~sb):
            raise Infeasible()
        c = 0 if t else 1
        self.dec.append(c)
        self._add(sb if c == 0 else ~sb)
        return c

    def branch(self, sb):
        i = sb.z.get_id()
        if i in self.pcset:
            return True
        if z3.is_not(sb.z) and False:
            pass
        ng = ~sb
        if ng.z.get_id() in self.pcset:
            return False
        return self._decide(sb) == 0

    def concretize_int(self, x):
        """Fork over the possible values of an integer."""
        for _ in range(200):
            v = self.ex.some_value(self, x)
            if v is None:
                raise Infeasible()
            if bool(S.eq(x, mk(v))):
                return v
        raise Unsupported("integer with too many values")

    def concretize(self, x):
        raise Unsupported("float concretisation")

    # ------------------------------------------------------------ spec side
    def assume(self, cond):
        sb = tobool_all(cond)
        if sb.v is True:
            return
        if sb.v is False:
            raise Infeasible()
        k = len(self.dec)
        if k < len(self.prefix) or self.ex.feasible(self, sb):
            self._add(sb)
        else:
            raise Infeasible()

    def check(self, cond, msg):
        """Assertion: must hold for every value on this path."""
        self.stats.labels[msg] = self.stats.labels.get(msg, 0) + 1
        self.stats.assertions += 1
        sb = tobool_all(cond)
        if sb.v is True:
            self.stats.discharged += 1
            self.stats.trivial += 1
            return
        r, why = self.ex.prove(self, sb)
        if r == "proved":
            self.stats.discharged += 1
            self._add(sb)
            return
        if r == "unknown":
            raise Inconclusive(f"solver undecided: {msg} ({why})")
        self.ex.counterexample(self, ~sb, msg)

    def check_eq(self, a, b, msg, tol=1e-6, clear=True, absolute=False):
        """Real equality, element by element."""
        A, B = as_obj(asym(a)), as_obj(asym(b))
        self.stats.labels[msg] = self.stats.labels.get(msg, 0) + 1
        if A.shape != B.shape:
            # numpy shapes are part of the result
            if A.size == B.size and A.size == 1:
                A, B = A.reshape(()), B.reshape(())
            else:
                return self.check(False, f"{msg}: shape {A.shape} vs {B.shape}")
        same = []
        for k in np.ndindex(*A.shape):
            x, y = A[k], B[k]
            self.stats.assertions += 1
            if isinstance(x, SB) or isinstance(y, SB):
                self._prove_or_cex(tobool(x).eqb(tobool(y)), msg, None)
                continue
            x, y = mk(x), mk(y)
            if self.ex.fp:
                from . import fp

                if type(x) is fp.SF or type(y) is fp.SF:
                    e = fp.eq(x, y) | (fp.isnan(x) & fp.isnan(y))
                    self._prove_or_cex(e, msg, None)
                    continue
            if x.c is not None or y.c is not None:
                alike = (x.c is not None and y.c is not None) and (
                    x.c == y.c or (x.c != x.c and y.c != y.c)
                )
                self._prove_or_cex(SB(alike), msg, None)
                continue
            d = P.sub(x.p, y.p)
            if d.is_zero():
                self.stats.discharged += 1
                same.append((x.p, y.p))
                continue
            v = P.approx(d)
            if v is not None and abs(v) < 1e-11 * (1 + abs(P.approx(x.p) or 0)):
                self.stats.discharged += 1
                self.stats.trivial += 1
                continue
            if clear:
                try:
                    n = P.clear(d)
                except P.TooBig:
                    n = d
                if n.is_zero():
                    # rational identity: hand the cleared sides to the solver
                    self.stats.discharged += 1
                    same.append((x.p, y.p))
                    continue
            if P.near_equal(x.p, y.p):
                self.stats.discharged += 1
                self.stats.rounded = getattr(self.stats, "rounded", 0) + 1
                continue
            sb = S.eq(x, y)
            ds = S.sub(x, y)
            far = S.gt(S.mul(ds, ds), mk(Fraction(1, 10**4)))
            self._prove_or_cex(sb, msg, far)
        if same:
            self.ex.confirm_identities(same)

    def _prove_or_cex(self, sb, msg, far):
        if sb.v is True:
            self.stats.discharged += 1
            self.stats.trivial += 1
            return
        r, why = self.ex.prove(self, sb)
        if r == "proved":
            self.stats.discharged += 1
            return
        if r == "unknown":
            # a counterexample well away from equality is often easier
            if far is not None:
                try:
                    self.ex.counterexample(self, far, msg)
                except Inconclusive:
                    pass
            raise Inconclusive(f"solver undecided: {msg} ({why})")
        self.ex.counterexample(self, ~sb, msg, far)

    def fail(self, msg):
        self.stats.labels[msg] = self.stats.labels.get(msg, 0) + 1
        self.stats.assertions += 1
        self.ex.counterexample(self, S.TRUE, msg)

    def diff(self, f, x):
        """Exact derivative of scalar f with respect to input x."""
        f, x = mk(f), mk(x)
        (m,) = x.p.t
        if f.c is not None:
            raise Unsupported("derivative of a non-finite value")
        return SN(P.diff(f.p, m[0][0]))

    def q(self, n, d=1):
        """The rational n/d."""
        return mk(Fraction(n, d))

    def gammaln(self, x):
        return S.gammaln(mk(x))

    def cdf(self, x):
        """Standard normal cdf."""
        return S.phi(mk(x))

    def hint_cos3(self, d):
        P.COS3_HINTS.append(mk(d).p)

    def jac(self, f, x, h=None):
        """f(x) and its exact Jacobian, shape f(x).shape + x.shape."""
        y = f(x)
        xo = as_obj(asym(x))
        yo = as_obj(asym(y))
        out = np.empty(yo.shape + xo.shape, dtype=object)
        caches = {}
        for k in np.ndindex(*yo.shape):
            v = mk(yo[k])
            if v.c is not None:
                raise Unsupported("derivative of a non-finite value")
            for j in np.ndindex(*xo.shape):
                (m,) = mk(xo[j]).p.t
                aid = m[0][0]
                out[k + j] = SN(P.diff(v.p, aid, caches.setdefault(aid, {})))
        return y, wrap(out, "f")

    def note(self, k, v):
        self.notes[k] = v


def tobool_all(c):
    if isinstance(c, np.ndarray):
        r = S.TRUE
        for e in as_obj(c).flat:
            r = r & tobool(e)
        return r
    r = tobool(c)
    if r is NotImplemented:
        return SB(bool(c))
    return r


class Con:
    """Concrete context: the same harness on the real code."""

    mode = "con"
    merge = True

    def __init__(self, values, kinds, seed=0):
        self.values = dict(values)
        self.kinds = dict(kinds)
        self.seed = seed
        self.counter = {}
        self.used = {}
        self.usedk = {}
        self.notes = {}
        self.observed = {}
        self.cleanup = []
        self.uft = values.get("__uf__", {}) if isinstance(values, dict) else {}

    def _name(self, tag):
        n = self.counter.get(tag, 0)
        self.counter[tag] = n + 1
        return f"{tag}#{n}"

    def _default(self, name, lo, hi, sign, typ=None):
        if typ is not None:
            lo, hi = typ
        h = int(hashlib.sha256(f"{self.seed}:{name}".encode()).hexdigest()[:12], 16) / 16**12
        a = lo if lo is not None else (0.05 if sign in ("+", "0+") else -2.0)
        b = hi if hi is not None else a + 4.0
        if sign == "+" and a == 0:
            a = 0.05 * min(1.0, b)
        a, b = max(a, -1e6), min(b, 1e6)
        return float(a + (b - a) * h)

    def real(self, name, lo=None, hi=None, sign=None, strict=False, typ=None):
        if name in self.values:
            v = float(self.values[name])
        else:
            if sign is None and lo is not None and lo >= 0:
                sign = "+"
            v = self._default(name, lo, hi, sign, typ)
        self.used[name] = v
        if lo is not None and (v < lo or (strict and v <= lo)):
            raise Infeasible()
        if hi is not None and (v > hi or (strict and v >= hi)):
            raise Infeasible()
        return np.float64(v)

    def int(self, name, lo=None, hi=None):
        if name in self.values:
            v = int(self.values[name])
        else:
            v = int(round(self._default(name, lo, hi if hi is not None else (lo or 0) + 5, None)))
            if lo is not None:
                v = max(v, lo)
            if hi is not None:
                v = min(v, hi)
        self.used[name] = v
        return v

    def bool(self, name):
        v = bool(self.values[name]) if name in self.values else self._default(name, 0, 1, None) > 0.5
        self.used[name] = v
        return v

    def ext(self, name, kinds=("fin", "inf", "-inf", "nan"), **kw):
        k = self.choose(name + ".kind", list(kinds))
        if k == "fin":
            return self.real(name, **kw)
        return float(k)

    def fresh(self, tag, lo=None, hi=None, sign=None, strict=False, typ=None):
        return self.real(self._name(tag), lo, hi, sign, strict, typ)

    def fresh_int(self, tag, lo=None, hi=None):
        return self.int(self._name(tag), lo, hi)

    def array(self, name, shape, lo=None, hi=None, sign=None, strict=False, ld="f", ext=None, typ=None):
        o = np.empty(shape, dtype={"f": float, "i": int, "b": bool}[ld])
        for k in np.ndindex(*o.shape):
            nm = name + "".join(f"[{i}]" for i in k)
            if ld == "i":
                o[k] = self.int(nm, lo, hi)
            elif ld == "b":
                o[k] = self.bool(nm)
            elif ext:
                o[k] = self.ext(nm, ext, lo=lo, hi=hi)
            else:
                o[k] = self.real(nm, lo, hi, sign, strict, typ)
        return o

    def const(self, x, ld=None):
        if np.ndim(x) == 0 and not isinstance(x, np.ndarray):
            return x
        return np.array(x, dtype={"f": float, "i": int, "b": bool}.get(ld))

    def uf(self, name, args, sign=None, lo=None, hi=None):
        args = [float(a) for a in args]
        for key, v in self.uft.get(name, []):
            if all(abs(x - y) <= 1e-9 * (1 + abs(y)) for x, y in zip(args, key)):
                return np.float64(v)
        h = self._default(name + repr([round(a, 9) for a in args]), lo, hi, sign)
        return np.float64(h)

    def choose(self, name, options):
        i = self.kinds.get(name)
        if i is None:
            i = int(hashlib.sha256(f"{self.seed}:k:{name}".encode()).hexdigest()[:8], 16) % len(options)
        self.usedk[name] = i
        return options[i]

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Infeasible()

    def check(self, cond, msg):
        if not bool(np.all(cond)):
            raise Violated(msg)

    def check_eq(self, a, b, msg, tol=1e-6, clear=True, absolute=False):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            if a.size == b.size == 1:
                a, b = a.reshape(()), b.reshape(())
            else:
                raise Violated(f"{msg}: shape {a.shape} vs {b.shape}")
        with np.errstate(all="ignore"):
            same = (a == b) | (np.isnan(a) & np.isnan(b))
            lim = tol if absolute else tol * (1 + np.maximum(np.abs(a), np.abs(b)))
            near = np.abs(a - b) <= lim
        if not np.all(same | (np.isfinite(a) & np.isfinite(b) & near)):
            raise Violated(f"{msg}: {a.tolist()} vs {b.tolist()}")

    def fail(self, msg):
        raise Violated(msg)

    def q(self, n, d=1):
        return n / d

    def gammaln(self, x):
        from scipy.special import gammaln

        return float(gammaln(float(x)))

    def cdf(self, x):
        return np.float64(0.5 * math.erfc(-float(x) / math.sqrt(2)))

    def hint_cos3(self, d):
        pass

    def jac(self, f, x, h=1e-5):
        x = np.array(x, dtype=float)
        y = np.array(f(x.copy()), dtype=float)
        out = np.empty(y.shape + x.shape)

        def at(j, d):
            v = x.copy()
            v[j] += d
            return np.array(f(v), dtype=float)

        for j in np.ndindex(*x.shape):
            d = h * max(1.0, abs(x[j]))
            d1 = (at(j, d) - at(j, -d)) / (2 * d)
            d2 = (at(j, d / 2) - at(j, -d / 2)) / d
            out[(Ellipsis,) + j] = (4 * d2 - d1) / 3
        return y, out

    def note(self, k, v):
        self.notes[k] = v


class Explorer:
    def __init__(
        self,
        harness,
        name="",
        merge=True,
        max_paths=20000,
        time_s=600,
        timeout_ms=20000,
        feas_ms=4000,
        seed=1,
        tactic=None,
        fp=False,
        fp_abstract=False,
    ):
        self.fp = fp
        self.fp_abstract = fp_abstract
        self.h = harness
        self.name = name
        self.merge = merge
        self.max_paths = max_paths
        self.time_s = time_s
        self.timeout_ms = timeout_ms
        self.feas_ms = feas_ms
        self.seed = seed
        self.stats = Stats()
        self.work = []
        self.deadline = None
        self.cache = {}
        self.violations = []
        self.problems = []
        self.tactic = tactic
        self.identities = []

    # ---------------------------------------------------------- solving
    def _solve(self, exprs, ids, ms, want_model=False, key=True):
        k = frozenset(e.get_id() for e in exprs)
        if not want_model and k in self.cache:
            r = self.cache[k]
            return r[0], None
        t0 = time.time()
        ax = P.axioms_for(ids)
        res, model = "unknown", None
        for mk_solver, frac in self._solvers(exprs, ax):
            s = mk_solver()
            relaxed = frac < 0
            s.set("timeout", max(200, int(ms * abs(frac))))
            if relaxed:
                # every product of unknowns an unknown of its own: refuting
                # this weaker problem refutes the problem
                s.add(*[self.relax(e) for e in ax])
                s.add(*[self.relax(e) for e in exprs])
            else:
                s.add(*ax)
                s.add(*exprs)
            r = s.check()
            self.stats.queries += 1
            if relaxed and r == z3.sat:
                continue
            if r == z3.sat:
                res, model = "sat", s.model()
                break
            if r == z3.unsat:
                res = "unsat"
                break
        dt = time.time() - t0
        self.stats.solver_s += dt
        setattr(self.stats, res, getattr(self.stats, res) + 1)
        if len(self.stats.samples) < 3 and res == "unsat" and exprs:
            self.stats.samples.append(str(exprs[-1])[:300])
        if res != "unknown" or not want_model:
            self.cache[k] = (res, exprs)
        return res, model

    def _solvers(self, exprs, ax):
        if self.fp:
            yield (lambda: z3.Solver()), 1.0
            return
        if self.tactic:
            yield (lambda: z3.Tactic(self.tactic).solver()), 1.0
            return
        yield (lambda: z3.SimpleSolver()), 0.04
        yield (lambda: z3.SimpleSolver()), -0.04
        yield (lambda: z3.SimpleSolver()), 0.25
        yield (lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "qfnra-nlsat").solver()), 0.5
        yield (lambda: z3.Solver()), 0.5

    def relax(self, e):
        """e with every product (or power) of unknowns replaced by a fresh
        unknown, the same one for the same product."""
        memo, prods = self.__dict__.setdefault("_relaxed", ({}, {}))
        stack = [e]
        while stack:
            t = stack[-1]
            if t.get_id() in memo:
                stack.pop()
                continue
            if t.num_args() == 0:
                memo[t.get_id()] = (t, t)
                stack.pop()
                continue
            todo = [a for a in t.children() if a.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            ch = [memo[a.get_id()][1] for a in t.children()]
            k = t.decl().kind()
            new = None
            if k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
                num = [a for a in ch if z3.is_rational_value(a) or z3.is_int_value(a)] if k == z3.Z3_OP_MUL else []
                rest = [a for a in ch if not any(a is b for b in num)]
                if len(rest) > 1:
                    key = (k, tuple(sorted(a.get_id() for a in rest)) if k == z3.Z3_OP_MUL else tuple(a.get_id() for a in rest))
                    if key not in prods:
                        prods[key] = (z3.FreshConst(t.sort(), "prod"), rest)
                    new = prods[key][0]
                    for a in num:
                        new = a * new
            if new is None:
                same = all(a.eq(b) for a, b in zip(ch, t.children()))
                new = t if same else t.decl()(*ch)
            memo[t.get_id()] = (t, new)
        return memo[e.get_id()][1]

    def _slice(self, ctx, sb):
        """pc conjuncts sharing input variables with sb (transitively)."""
        def vs(c):
            r = set(i for i in P.closure(c.deps) if P.T.atoms[i].kind == "var")
            return r

        want = vs(sb)
        if not hasattr(ctx, "_vs"):
            ctx._vs = {}
        rest = []
        for c in ctx.pc:
            v = ctx._vs.get(c.z.get_id())
            if v is None:
                v = ctx._vs[c.z.get_id()] = vs(c)
            rest.append((c, v))
        picked = []
        changed = True
        boolpc = not want
        while changed:
            changed = False
            nxt = []
            for c, v in rest:
                if not v or (v & want) or boolpc:
                    picked.append(c)
                    if v - want:
                        want |= v
                        changed = True
                else:
                    nxt.append((c, v))
            rest = nxt
        return picked

    def _query(self, ctx, sb, ms, full=False, model=False):
        pcs = ctx.pc if full else self._slice(ctx, sb)
        ids = set(sb.deps)
        for c in pcs:
            ids |= c.deps
        ex = [c.z for c in pcs] + [sb.z if sb.v is None else z3.BoolVal(sb.v)]
        return self._solve(ex, ids, ms, want_model=model)

    def feasible(self, ctx, sb):
        if sb.v is not None:
            return sb.v
        r, _ = self._query(ctx, sb, self.feas_ms)
        return r != "unsat"

    def prove(self, ctx, sb):
        if sb.v is True:
            return "proved", ""
        if sb.v is False:
            return "refuted", ""
        n = ~sb
        r, _ = self._query(ctx, n, self.timeout_ms)
        if r == "unsat":
            return "proved", ""
        if r == "unknown":
            return "unknown", str(sb.z)[:200]
        return "refuted", ""

    def some_value(self, ctx, x):
        t = S.eq(x, x)
        zt = P.to_z3_int(x.p) if P.is_int_poly(x.p) else P.to_z3(x.p)
        ids = set(x.p.atoms())
        for c in ctx.pc:
            ids |= c.deps
        r, m = self._solve([c.z for c in ctx.pc], ids, self.timeout_ms, want_model=True)
        if r == "unsat":
            return None
        if m is None:
            raise Unsupported("integer value undecided")
        v = _fval(m.eval(zt, model_completion=True))
        return int(v)

    def confirm_identities(self, pairs):
        """Equalities whose two sides have the same normal form: z3 is asked
        for values of the atoms that make the sides, cleared of denominators,
        differ (one query for the whole array)."""
        diffs = []
        for a, b in pairs:
            self.stats.identities += 1
            try:
                x, y = (a, b) if a == b else P.clear_pair(a, b)
            except P.TooBig:
                continue
            if len(x.t) + len(y.t) > 800:
                continue
            diffs.append(P.to_z3(x) != P.to_z3(y))
        if not diffs:
            return
        s = z3.SimpleSolver()
        s.set("timeout", 5000)
        t0 = time.time()
        s.add(z3.Or(*diffs))
        r = s.check()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.unknown:
            self.stats.unknown += 1
        else:
            raise Inconclusive("normal form and solver disagree")

    # ------------------------------------------------- counterexamples
    def model_values(self, ctx, m):
        vals = {}
        for name, (v, lo, hi, sort) in ctx.inputs.items():
            if sort == "B":
                r = m.eval(v.z, model_completion=False)
                if z3.is_true(r) or z3.is_false(r):
                    vals[name] = bool(z3.is_true(r))
                continue
            if sort == "F":
                from .fp import fval

                r = m.eval(v.f, model_completion=False)
                if z3.is_fp_value(r):
                    vals[name] = fval(r)
                continue
            (mm,) = v.p.t
            at = P.T.atoms[mm[0][0]]
            r = m.eval(at.z, model_completion=False)
            f = _fval(r)
            if f is not None:
                try:
                    vals[name] = int(f) if sort == "I" else float(f)
                except OverflowError:
                    vals[name] = math.copysign(1.7976931348623157e308, f)
        return vals

    def _uf_values(self, ctx, m):
        out = {}
        for name, lst in ctx.notes.get("uf", {}).items():
            rows = []
            for key, v in lst:
                xs = []
                for q in key:
                    f = _fval(m.eval(P.to_z3(q), model_completion=True))
                    xs.append(float(f) if f is not None else 0.0)
                f = _fval(m.eval(P.to_z3(v.p), model_completion=False))
                if f is not None:
                    rows.append((xs, float(f)))
            out[name] = rows
        return out

    def counterexample(self, ctx, bad, msg, far=None):
        """Concrete values for pc /\\ bad, replayed on the real code."""
        S_ = S.ctx()
        tried = 0
        base = [c.z for c in ctx.pc]
        ids = set(bad.deps)
        for c in ctx.pc:
            ids |= c.deps
        for v, *_ in ctx.inputs.values():
            if isinstance(v, SN) and v.p is not None:
                ids |= v.p.atoms()
        if bad.v is None:
            base.append(bad.z)
        last = None
        strategies = self._nice(ctx, far)
        blocked = []
        decided = None
        for extra, eids in strategies:
            for _ in range(2):
                r, m = self._solve(
                    base + extra + blocked, ids | eids, min(self.timeout_ms, 8000), want_model=True
                )
                if r == "unsat" and not extra and not blocked:
                    raise Infeasible()
                if r != "sat":
                    break
                decided = True
                vals = self.model_values(ctx, m)
                uf = self._uf_values(ctx, m)
                if uf:
                    vals["__uf__"] = uf
                tried += 1
                out = self.replay(vals, ctx.kinds)
                last = (vals, out)
                if out and out[0] == "violated":
                    self.violations.append(
                        dict(
                            harness=self.name,
                            message=out[1],
                            expected=msg,
                            values={k: v for k, v in vals.items() if k != "__uf__"},
                            uf=uf,
                            kinds=dict(ctx.kinds),
                        )
                    )
                    raise Violated(msg)
                # block this point
                cs = []
                for n, (v, lo, hi, sort) in list(ctx.inputs.items())[:8]:
                    if sort == "F" and n in vals:
                        cs.append(z3.Not(z3.fpEQ(v.f, z3.FPVal(vals[n], z3.Float64()))))
                for n, (v, lo, hi, sort) in list(ctx.inputs.items())[:8]:
                    if sort == "R" and n in vals:
                        (mm,) = v.p.t
                        z = P.T.atoms[mm[0][0]].z
                        f = z3.RealVal(str(Fraction(vals[n])))
                        cs.append(z3.Or(z > f + z3.RealVal("1/8"), z < f - z3.RealVal("1/8")))
                if not cs:
                    break
                blocked = blocked + [z3.Or(*cs)]
        if decided is None:
            raise Inconclusive(f"no model found for a possible violation: {msg}")
        raise Inconclusive(
            f"counterexample not reproduced on the real code: {msg}; last replay {last and last[1]}; values {last and last[0]}"
        )

    def _nice(self, ctx, far):
        """Preferences for the counterexample: moderate values, a clear margin."""
        def box(w, small=None):
            out = []
            for n, (v, lo, hi, sort) in ctx.inputs.items():
                if sort != "R":
                    continue
                (mm,) = v.p.t
                z = P.T.atoms[mm[0][0]].z
                if n in ctx.typ and w <= 8:
                    a, b = ctx.typ[n]
                    out += [z <= z3.RealVal(str(P.frac(b))), z >= z3.RealVal(str(P.frac(a)))]
                    continue
                out += [z <= w, z >= -w]
                if small is not None and P.T.atoms[mm[0][0]].sign == "+":
                    out.append(z >= z3.RealVal(str(P.frac(small))))
            return out

        fz = [] if far is None or far.v is not None else [far.z]
        fd = set() if far is None else set(far.deps)
        yield fz + box(8, 0.1), fd
        yield fz + box(100, 0.01), fd
        if fz:
            yield box(8, 0.1), set()
        yield fz, fd
        yield box(8), set()
        yield [], set()

    def replay(self, values, kinds):
        from .patch import real_mode

        c = Con(values, kinds, self.seed)
        with real_mode(c):
            try:
                self.h(c)
            except Violated as e:
                return ("violated", e.msg)
            except Infeasible:
                return ("infeasible", "")
            except Inconclusive as e:
                return ("inconclusive", str(e))
            except Exception as e:  # noqa: BLE001
                if os.environ.get("SYMDEBUG"):
                    traceback.print_exception(e)
                tb = traceback.extract_tb(e.__traceback__)
                inside = any("/pyvbmc/" in f.filename or "gpyreg" in f.filename for f in tb)
                if inside:
                    f = [f for f in tb if "/pyvbmc/" in f.filename or "gpyreg" in f.filename][-1]
                    return (
                        "violated",
                        f"unexpected {type(e).__name__}: {e} ({f.filename.split('/repo/')[-1]}: {f.name})",
                    )
                return ("error", f"{type(e).__name__}: {e}\n" + "".join(traceback.format_tb(e.__traceback__)[-3:]))
            finally:
                for f in reversed(c.cleanup):
                    f()
        return ("held", "")

    # ---------------------------------------------------------- driver
    def run(self):
        from .patch import sym_mode

        P.reset()
        self.deadline = time.time() + self.time_s
        self.work = [[]]
        old = S.CTX
        ended_ok = 0
        try:
            while self.work:
                if self.stats.paths >= self.max_paths:
                    self.problems.append(f"path bound {self.max_paths} reached")
                    break
                if time.time() > self.deadline:
                    self.problems.append("time budget used up")
                    break
                prefix = self.work.pop()
                ctx = Sym(self, prefix)
                S.CTX = ctx
                self.stats.paths += 1
                try:
                    with sym_mode(ctx):
                        try:
                            self.h(ctx)
                        finally:
                            for f in reversed(ctx.cleanup):
                                f()
                    ended_ok += 1
                except Infeasible:
                    self.stats.infeasible += 1
                except Violated:
                    break
                except Inconclusive as e:
                    self.problems.append(str(e))
                    if len(self.problems) > 5:
                        break
                except Unsupported as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    loc = [f for f in tb if "/pyvbmc/" in f.filename]
                    self.problems.append(
                        f"not encodable: {e}" + (f" at {loc[-1].filename.split('/repo/')[-1]}:{loc[-1].lineno}" if loc else "")
                    )
                    if len(self.problems) > 5:
                        break
                except P.TooBig as e:
                    self.problems.append(f"term too big: {e}")
                    if len(self.problems) > 3:
                        break
                except Exception as e:  # noqa: BLE001
                    # the code under test raised: a violation if it does so
                    # on the real code as well
                    msg = f"unexpected {type(e).__name__}: {e}"
                    try:
                        self.counterexample(ctx, S.TRUE, msg)
                    except Violated:
                        break
                    except Infeasible:
                        self.stats.infeasible += 1
                    except Inconclusive as e2:
                        self.problems.append(
                            f"{msg}\n"
                            + "".join(traceback.format_tb(e.__traceback__)[-6:])
                            + str(e2)[:600]
                        )
                        if len(self.problems) > 3:
                            break
        finally:
            S.CTX = old
        self.completed = ended_ok
        if not self.violations and not self.problems and not ended_ok:
            self.problems.append("vacuous: no path of the harness reached its end")
        return self


class ConcreteSym:
    """marker"""
