"""C05: the evaluation record is complete and self-consistent, along histories."""
import numpy as np

from symex.run import Inst
from pyvbmc.function_logger import FunctionLogger
from pyvbmc.parameter_transformer import ParameterTransformer

META = dict(assumptions=[
    "histories of at most 4 operations, each a fresh evaluation or an addition at an arbitrary point (which may repeat any earlier one), D = 1 or 2",
    "transform: probit between symbolic hard bounds, or unbounded with symbolic centering, or none",
])


def make_transformer(c, D, kind):
    if kind == "none":
        return None
    if kind == "probit":
        lb = c.array("lb", (1, D), typ=(-4, -1))
        w = c.array("w", (1, D), sign="+", typ=(1, 6))
        t = ParameterTransformer(D, lb, lb + w, transform_type="probit")
    else:
        t = ParameterTransformer(D)
    t.mu = c.array("mu", (D,), typ=(-1, 1))
    t.delta = c.array("delta", (D,), sign="+", typ=(0.5, 2))
    return t


class Ref:
    """What the record should be: one entry per distinct point."""

    def __init__(self):
        self.e = []


def h_history(ops, D, cache, noise, kind, repeat=None):
    """ops: string of 'c' (call) and 'a' (add).  repeat[k] = j makes the k-th
    point equal to the j-th (None: a new point, distinct from all others)."""

    def h(c):
        np_ = c.np
        t = make_transformer(c, D, kind)
        log = []

        def fun(x):
            k = len(log)
            y = c.real(f"y{k}", typ=(-5, 5))
            log.append(x.copy())
            if noise == 2:
                return y, c.real(f"s{k}", sign="+", typ=(0.3, 2))
            return y

        fl = FunctionLogger(fun, D, noise > 0, noise, cache, t)
        ref = []
        pts = []
        ncall = nadd = 0
        for k, op in enumerate(ops):
            if repeat[k] == "F":  # free: may or may not repeat an earlier one
                x = c.array(f"x{k}", (D,), typ=(-1, 1))
            elif repeat[k] is not None:
                x = pts[repeat[k]].copy()
            else:
                x = c.array(f"x{k}", (D,), typ=(-1, 1))
                for p in pts:
                    # a new point differs in its first coordinate
                    c.assume(p[0] != x[0])
            pts.append(x)
            x0 = x.copy()
            if op == "c":
                n = len(log)
                f_val, sd, idx = fl(x.copy() if k % 2 else x.reshape((1, D)).copy())
                c.check(len(log) == n + 1, "the target is called exactly once per evaluation")
                y = c.real(f"y{n}", typ=(-5, 5))
                s = c.real(f"s{n}", sign="+", typ=(0.3, 2)) if noise == 2 else (1 if noise else None)
                xo = t.inverse(x0) if t is not None else x0
                c.check_eq(log[-1], xo, "the target is called at the original-space point")
                ncall += 1
            else:
                y = c.real(f"ya{k}", typ=(-5, 5))
                s = c.real(f"sa{k}", sign="+", typ=(0.3, 2)) if noise == 2 else None
                f_val, sd, idx = fl.add(x.copy(), y, s, 0.5)
                if noise and s is None:
                    s = 1
                nadd += 1
            # reference update
            j = None
            for i, e in enumerate(ref):
                if bool(np_.all(e["x"] == x0)):
                    j = i
            if j is None:
                ref.append(dict(x=x0, y=y, s=s, n=1))
                j = len(ref) - 1
            else:
                e = ref[j]
                if noise:
                    a, b = 1 / (e["s"] * e["s"]), 1 / (s * s)
                    e["y"] = (a * e["y"] + b * y) / (a + b)
                    e["s"] = 1 / np_.sqrt(a + b)
                else:
                    e["y"] = (e["n"] * e["y"] + y) / (e["n"] + 1)
                e["n"] += 1
            c.check(idx == j, "the returned index is the index of the entry")
            # the whole record
            c.check(fl.Xn == len(ref) - 1, "number of entries")
            c.check(fl.func_count == ncall, "evaluation count")
            c.check(fl.cache_count == nadd, "addition count")
            vals = []
            for i, e in enumerate(ref):
                xo = t.inverse(e["x"]) if t is not None else e["x"]
                lj = t.log_abs_det_jacobian(e["x"]) if t is not None else 0
                vals.append(e["y"] + lj)
                c.check_eq(fl.X[i], e["x"], "transformed point stored")
                c.check_eq(fl.X_orig[i], xo, "original-space point stored")
                c.check_eq(fl.y_orig[i, 0], e["y"], "original-space value stored (merged by inverse variance)", tol=1e-5)
                c.check_eq(fl.y[i, 0], e["y"] + lj, "transformed value = value + log-Jacobian", tol=1e-5)
                if noise:
                    c.check_eq(fl.S[i, 0], e["s"], "noise level stored", tol=1e-5)
                c.check(fl.X_flag[i], "entry flagged as present")
                c.check(fl.n_evals[i, 0] == e["n"], "evaluations per point")
            c.check_eq(np_.reshape(f_val, ()), vals[j], "returned value = stored value", tol=1e-5)
            if s is not None:
                c.check_eq(np_.reshape(sd, ()), s, "returned noise level", tol=1e-5)
            m = vals[0]
            for v in vals[1:]:
                m = np_.maximum(m, v)
            c.check_eq(np_.reshape(fl.y_max, ()), m, "best value = maximum over the record", tol=1e-5)
            n = fl.X.shape[0]
            for a in ("X_orig", "y_orig", "X", "y", "n_evals", "fun_eval_time") + (("S",) if noise else ()):
                c.check(getattr(fl, a).shape[0] == n, "record arrays have equal length")
            c.check(fl.X_flag.shape[0] == n, "record arrays have equal length")
            for i in range(len(ref), n):
                c.check(~fl.X_flag[i] if not isinstance(fl.X_flag[i], bool) else not fl.X_flag[i], "unused rows are not flagged")
        # finalising keeps the filled part
        keep = [fl.X_orig.copy(), fl.y_orig.copy(), fl.X.copy(), fl.y.copy(), fl.n_evals.copy()]
        fl.finalize()
        for a, b in zip((fl.X_orig, fl.y_orig, fl.X, fl.y, fl.n_evals), keep):
            c.check_eq(a, b[: len(ref)], "finalising keeps exactly the entries")

    return h


def instances(tier):
    out = []

    def add(ops, D, cache, noise, kind, rep):
        nm = f"hist:{ops}:D{D}:cache{cache}:noise{noise}:{kind}:" + "".join("-" if r is None else str(r) for r in rep)
        out.append(Inst(nm, h_history(ops, D, cache, noise, kind, rep), f"{len(ops)} operations, D={D}", time_s=400))

    N = None
    for noise in (0, 1, 2):
        for kind in ("none", "probit", "unb"):
            add("cc", 1, 2, noise, kind, [N, N])
            add("ca", 1, 1, noise, kind, [N, N])
            add("cc", 1, 1, noise, kind, [N, 0])
            add("ac", 2, 2, noise, kind, [N, 0])
            add("cac", 1, 1, noise, kind, [N, N, 0])
            add("ccc", 2, 2, noise, kind, [N, N, N])
            add("cca", 1, 2, noise, kind, [N, 0, 0])
            add("ccc", 1, 1, noise, kind, [N, "F", "F"])
            add("ca", 2, 1, noise, kind, [N, "F"])
            if tier == "thorough":
                add("caca", 2, 1, noise, kind, [N, N, 1, 0])
                add("cccc", 1, 1, noise, kind, [N, N, N, 2])
                add("ccccc", 1, 2, noise, kind, [N, N, N, N, N])
    return out
