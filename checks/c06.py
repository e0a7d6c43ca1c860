"""C06: invalid target values are rejected and leave the record as it was."""
import numpy as np

from symex.run import Inst
from pyvbmc.function_logger import FunctionLogger

from checks.c05 import make_transformer

META = dict(assumptions=[
    "target value and noise level are arbitrary extended reals (finite, +inf, -inf, nan) or one of a list of non-scalar / non-real objects",
    "histories: up to 2 valid operations, then the questionable one (at a new or a repeated point), then a valid one",
])

ATTRS = ["X_orig", "y_orig", "X", "y", "n_evals", "fun_eval_time", "X_flag", "S", "Xn", "y_max", "func_count", "cache_count", "total_fun_eval_time"]


class Boom(Exception):
    pass


def snap(fl):
    out = {}
    for a in ATTRS:
        if hasattr(fl, a):
            v = getattr(fl, a)
            out[a] = v.copy() if hasattr(v, "copy") else v
    return out


def same(c, fl, s, msg):
    """the filled part of the record is untouched, and nothing was added"""
    np_ = c.np
    n = s["Xn"] + 1
    for a in ATTRS:
        if a not in s:
            continue
        v = getattr(fl, a)
        if a in ("Xn", "func_count", "cache_count"):
            c.check(v == s[a], msg + ": " + a)
        elif a in ("y_max", "total_fun_eval_time"):
            if n > 0 or a == "total_fun_eval_time":
                c.check_eq(np_.reshape(np_.asarray(v), ()), np_.reshape(np_.asarray(s[a]), ()), msg + ": " + a)
        else:
            if a in ("X_flag", "n_evals"):
                c.check(int(np_.sum(v)) == int(np_.sum(s[a])), msg + ": " + a)
            if n > 0 and a != "fun_eval_time":
                c.check_eq(v[:n], s[a][:n], msg + ": " + a)


BAD = {
    "complex": lambda: complex(1.0, 2.0),
    "vector": lambda: np.array([1.0, 2.0]),
    "list": lambda: [1.0, 2.0],
    "none": lambda: None,
    "empty": lambda: np.array([]),
    "string": lambda: "abc",
    "dict": lambda: {},
    "nparr-nan": lambda: np.array([np.nan]),
    "npinf": lambda: np.float64(np.inf),
    "complex-real": lambda: 1 + 0j,
    "npcomplex-real": lambda: np.complex128(1.0),
    "cinf": lambda: complex(np.inf, 0.0),
}


def h_reject(op, pre, noise, kind, D, cache, repeat, what):
    def h(c):
        t = make_transformer(c, D, kind)
        ret = {}

        def fun(x):
            if ret.get("raise"):
                raise Boom("no")
            return (ret["y"], ret["s"]) if noise == 2 else ret["y"]

        fl = FunctionLogger(fun, D, noise > 0, noise, cache, t)

        def do(op, x, y, s):
            ret["y"], ret["s"] = y, s
            if op == "c":
                return fl(x)
            return fl.add(x, y, s, 0.25)

        pts = []

        def newpoint(k):
            x = c.array(f"x{k}", (D,), typ=(-1, 1))
            for p in pts:
                c.assume(p[0] != x[0])
            pts.append(x)
            return x.copy()

        for k, o in enumerate(pre):
            do(o, newpoint(k), c.real(f"y{k}", typ=(-5, 5)), c.real(f"s{k}", sign="+", typ=(0.3, 2)) if noise == 2 else None)
        x = pts[0].copy() if repeat else newpoint("q")
        s0 = snap(fl)
        valid = False
        if what == "ext":
            y, s = c.ext("yq"), None
            valid = bool(c.np.isfinite(y))
            if noise == 2:
                s = c.ext("sq")
                valid = valid and bool(c.np.isfinite(s)) and bool(s > 0)
        else:
            y = c.real("yq", typ=(-5, 5))
            s = c.real("sq", sign="+", typ=(0.3, 2)) if noise == 2 else None
        if what == "raise":
            ret["raise"] = True
        elif what.startswith("sd:"):
            s = BAD[what[3:]]()
        elif what != "ext":
            y = BAD[what]()
        x0 = x.copy()
        err = None
        try:
            r = do(op, x, y, s)
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ in ("Unsupported", "TooBig", "Inconclusive"):
                raise
            err = e
        ret.pop("raise", None)
        c.check_eq(x, x0, "the point passed in is left alone")
        if valid:
            c.check(err is None, f"a finite real value is accepted ({err})")
            if not repeat:
                c.check_eq(fl.y_orig[r[2], 0], y, "an accepted value is stored unchanged")
                if noise == 2:
                    c.check_eq(fl.S[r[2], 0], s, "an accepted noise level is stored unchanged")
            c.check_eq(fl.X[r[2]], x0, "an accepted point is stored unchanged")
        else:
            c.check(err is not None, "an invalid value is rejected")
            if what == "raise":
                c.check(isinstance(err, Boom), "the target's own exception is passed on")
            same(c, fl, s0, "a rejected evaluation leaves the record alone")
            # and the next valid evaluation is recorded as if nothing happened
            y2 = c.real("y2", typ=(-5, 5))
            s2 = c.real("s2", sign="+", typ=(0.3, 2)) if noise == 2 else None
            x2 = newpoint("z")
            f, sd, idx = do(op, x2.copy(), y2, s2)
            c.check(idx == s0["Xn"] + 1 and fl.Xn == idx, "next entry goes to the next row")
            c.check_eq(fl.y_orig[idx, 0], y2, "next value stored")
            c.check(fl.n_evals[idx, 0] == 1, "next entry counted once")
            n = s0["Xn"] + 1
            c.check_eq(fl.y[:n], s0["y"][:n], "earlier values stay")

    return h


def instances(tier):
    out = []

    def add(op, pre, noise, kind, D, cache, repeat, what):
        nm = f"{what}:{op}:pre{pre or '-'}:noise{noise}:{kind}:D{D}:cache{cache}:{'rep' if repeat else 'new'}"
        out.append(Inst(nm, h_reject(op, pre, noise, kind, D, cache, repeat, what), f"history {pre}+{op}+valid, D={D}", time_s=300))

    kinds = ("none", "probit", "unb") if tier == "thorough" else ("none", "probit")
    for noise in (0, 1, 2):
        for kind in kinds:
            for op in "ca":
                add(op, "", noise, kind, 1, 1, False, "ext")
                add(op, "c", noise, kind, 2, 1, False, "ext")
                add(op, "ca", noise, kind, 1, 1, True, "ext")
                whats = list(BAD) if tier == "thorough" or kind == "none" else ["complex", "vector"]
                for w in whats:
                    if op == "a" and w == "nparr-nan" and tier != "thorough":
                        continue
                    add(op, "c", noise, kind, 1, 1, False, w)
                    if noise == 2 and not (op == "a" and w == "none"):
                        add(op, "c", noise, kind, 1, 1, False, "sd:" + w)
                add(op, "c", noise, kind, 1, 1, True, "vector")
                if op == "c":
                    add(op, "c", noise, kind, 1, 1, False, "raise")
                    add(op, "", noise, kind, 1, 1, False, "raise")
                    add(op, "ca", noise, kind, 1, 1, True, "raise")
    return out
