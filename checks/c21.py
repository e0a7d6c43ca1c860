"""C21: user options override defaults; unknown names are rejected."""
import ast
import copy
import os
import shutil
import tempfile

import numpy as np

import pyvbmc.vbmc.options as OM
from pyvbmc.vbmc import VBMC
from pyvbmc.vbmc.options import Options

from symex.run import Inst, REPO

META = dict(assumptions=[
    "every option name of the two option files, given singly and in pairs with one of ten others; option values arbitrary numbers (or lists and functions of them); dimension arbitrary (>= 1) where only options are involved, 2 for whole objects",
    "the documented defaults are read from the option files by the harness's own parser",
])

DIR = os.path.join(REPO, "pyvbmc", "vbmc", "option_configs")
FILES = ["basic_vbmc_options.ini", "advanced_vbmc_options.ini"]
PATHS = ["option_configs/" + f for f in FILES]


def parse(path):
    out = {}
    for line in open(path):
        line = line.strip()
        if not line or line[0] in "#[;" or "=" not in line:
            continue
        k, v = line.split("=", 1)
        out[k.strip()] = v.strip()
    return out


DEFAULTS = {}
for _f in FILES:
    DEFAULTS.update(parse(os.path.join(DIR, _f)))
NAMES = sorted(DEFAULTS)
PAIR = ["max_fun_evals", "tol_stable_count", "k_warmup", "display", "ns_gp_max", "warmup", "cache_size",
        "active_sample_gp_update", "fun_evals_per_iter", "min_iter"]
NOISY = ["max_fun_evals", "tol_stable_count", "active_sample_gp_update", "active_sample_vp_update", "search_acq_fcn"]


def documented(c, name, D):
    """the documented default, or None if it is not plain data"""
    env = {k: v for k, v in vars(OM).items() if not k.startswith("__")}
    env["D"] = D
    return eval(DEFAULTS[name], env)


class Stop(Exception):
    pass


def built(c, options, D=2, options_path=None):
    """the options of a VBMC object, as its constructor sets them up"""
    def stop(self, *a, **k):
        raise Stop

    old = VBMC._init_logger
    VBMC._init_logger = stop
    v = VBMC.__new__(VBMC)
    one = np.ones((1, D))
    try:
        v.__init__(lambda x: 0.0, 0 * one, -np.inf * one, np.inf * one, -one, one, options=options, options_path=options_path)
    except Stop:
        pass
    finally:
        VBMC._init_logger = old
    return v.options


def plain(x):
    return isinstance(x, (int, float, np.number, np.ndarray)) or hasattr(x, "p") or type(x).__name__ in ("SN", "SB")


def same(c, a, b, msg):
    if a is b:
        return
    if callable(a) and callable(b):
        try:
            for D in (1, 2, 7):
                c.check_eq(a(D), b(D), msg)
            return
        except TypeError:
            pass
        try:
            for N, k in ((20, 2), (60, 5), (7, 1)):
                c.check_eq(a(N, k), b(N, k), msg)
        except TypeError:
            pass
        c.check(callable(a) == callable(b), msg)
        return
    if isinstance(a, (list, tuple)):
        c.check(type(a) is type(b) and len(a) == len(b), msg)
        for x, y in zip(a, b):
            same(c, x, y, msg)
        return
    if a is None or b is None or isinstance(a, (str, bool, dict)) or isinstance(b, (str, bool, dict)):
        c.check(type(a) is type(b) and a == b, msg)
        return
    if not plain(a) or not plain(b):
        c.check(type(a).__name__ == type(b).__name__, msg)
        return
    if np.ndim(a) == 0 and np.ndim(b) == 0 and bool(c.np.isinf(a)) and bool(c.np.isinf(b)):
        c.check(bool((a > 0) == (b > 0)), msg)
        return
    c.check_eq(a, b, msg)


def h_defaults(c):
    """Without user options everything has its documented default."""
    D = c.int("D", 1, 200)
    o = Options(PATHS[0], {"D": D}, None)
    o.load_options_file(PATHS[1], {"D": D})
    o.update_defaults()
    o.validate_option_names(PATHS)
    c.check(set(o.keys()) == set(NAMES) | {"useroptions"}, "exactly the documented options")
    for k in NAMES:
        same(c, o[k], documented(c, k, D), f"default of {k}")
    c.check(len(o["useroptions"]) == 0, "no user options")


def value(c, i):
    return c.real(f"v{i}", typ=(2, 9))


def h_one(part, whole):
    """One user-given option, all others at their default."""
    names = [n for n in NAMES[part::6] if n != "specify_target_noise"]

    def h(c):
        k = c.choose("name", names)
        kind = c.choose("kind", ["number", "list"])
        v = value(c, 0) if kind == "number" else [value(c, 0), value(c, 1)]
        user = {k: v}
        D = 2 if whole else c.int("D", 1, 200)
        if whole:
            o = built(c, user, D)
        else:
            o = Options(PATHS[0], {"D": D}, user)
            o.load_options_file(PATHS[1], {"D": D})
            o.update_defaults()
            o.validate_option_names(PATHS)
        same(c, o[k], v, f"{k}: the user's value")
        same(c, o.get(k), v, f"{k}: the user's value")
        c.check(set(o["useroptions"]) == {k}, "the user's options are remembered")
        c.check(set(o.keys()) == set(NAMES) | {"useroptions"}, "exactly the documented options")
        for n in NAMES:
            if n != k:
                same(c, o[n], documented(c, n, D), f"default of {n}")
        c.check(list(user) == [k] and user[k] is v, "the user's dictionary is left alone")
        # nothing loaded later overrides it
        for f in PATHS:
            o.is_initialized = False
            o.load_options_file(f, {"D": D})
        same(c, o[k], v, f"{k}: still the user's value after loading the files again")

    return h


def h_pair(part):
    names = [n for n in NAMES[part::6] if n != "specify_target_noise"]

    def h(c):
        a = c.choose("name", names)
        b = c.choose("other", PAIR)
        if a == b:
            return
        u, v = value(c, 0), value(c, 1)
        o = built(c, {a: u, b: v})
        c.check_eq(o[a], u, f"{a}: the user's value")
        c.check_eq(o[b], v, f"{b}: the user's value")
        c.check(set(o["useroptions"]) == {a, b}, "the user's options are remembered")

    return h


def h_noise(c):
    """Noisy targets change some defaults, never a user's choice."""
    D = 3
    given = {k: value(c, i) for i, k in enumerate(NOISY) if c.choose(k, [False, True])}
    noisy = c.choose("noisy", [False, True])
    o = built(c, dict(given, specify_target_noise=noisy), D)
    for k in NOISY:
        if k in given:
            same(c, o[k], given[k], f"{k}: the user's value")
        elif not noisy:
            same(c, o[k], documented(c, k, D), f"{k}: default")
        elif k in ("max_fun_evals", "tol_stable_count"):
            same(c, o[k], int(np.ceil(1.5 * documented(c, k, D))), f"{k}: half as much again for noisy targets")
        elif k == "search_acq_fcn":
            c.check([type(f).__name__ for f in o[k]] == ["AcqFcnVIQR"], "acquisition function for noisy targets")
        else:
            c.check(o[k] is True, f"{k}: on for noisy targets")
    for n in NAMES:
        if n not in NOISY and n != "specify_target_noise":
            same(c, o[n], documented(c, n, D), f"default of {n}")


def h_unknown(c):
    k = c.choose("name", ["zzz", "Display", "max_iter ", "maxiter", "max_fun_eval", "tol_stable_counts", "MaxFunEvals", "", "D"])
    good = c.choose("with", [None, "max_iter"])
    user = {k: value(c, 0)}
    if good:
        user[good] = value(c, 1)
    try:
        built(c, user)
    except ValueError:
        return
    c.fail(f"unknown option {k!r} accepted")


def h_locked(c):
    k = c.choose("name", ["max_iter", "k_warmup", "tol_stable_count"])
    v, w = value(c, 0), value(c, 1)
    o = built(c, {k: v})
    for q, how in ((o, "options"), (copy.copy(o), "copy"), (copy.deepcopy(o), "deep copy")):
        try:
            q[k] = w
            ok = True
        except AttributeError:
            ok = False
        c.check(not ok, f"{how}: options cannot be changed after initialisation")
        c.check_eq(q[k], v, f"{how}: value unchanged")
        try:
            q.update({k: w})
            ok = True
        except AttributeError:
            ok = False
        c.check(not ok, f"{how}: options cannot be updated after initialisation")
        c.check_eq(q[k], v, f"{how}: value unchanged")
        c.check(set(q["useroptions"]) == {k}, f"{how}: user options remembered")


def mutables(o):
    return [k for k in NAMES if isinstance(o[k], (list, dict, set, np.ndarray))]


def h_isolated(c):
    """Separate objects share no mutable defaults; deep copies share nothing."""
    v = value(c, 0)
    a, b = built(c, {"max_iter": v}), built(c, None)
    d = copy.deepcopy(a)
    c.check(len(b["useroptions"]) == 0, "no user options in the other object")
    for k in mutables(b):
        c.check(a[k] is not b[k], f"{k}: two objects do not share it")
        c.check(a[k] is not d[k], f"{k}: deep copies do not share it")
        if isinstance(a[k], list):
            a[k].append(v)
            c.check(len(b[k]) == len(a[k]) - 1 and len(d[k]) == len(a[k]) - 1, f"{k}: unaffected by the other object")
    a["useroptions"].add("min_iter")
    c.check(set(d["useroptions"]) == {"max_iter"} and len(b["useroptions"]) == 0, "user options are not shared")
    a.__setitem__("max_iter", 3, force=True)
    c.check_eq(d["max_iter"], v, "a deep copy keeps its value")
    e = built(c, None)
    for k in NAMES:
        same(c, e[k], documented(c, k, 2), f"default of {k} in a new object")


def h_existing(c):
    a, b = c.choose("name", PAIR), "min_final_components"
    u, v = value(c, 0), value(c, 1)
    D = c.int("D", 1, 200)
    o = Options(PATHS[0], {"D": D + 1}, {a: u, b: v})
    n = Options.init_from_existing_options(PATHS[0], {"D": D}, o)
    n.load_options_file(PATHS[1], {"D": D})
    c.check_eq(n[a], u, "user options are taken over")
    c.check_eq(n[b], v, "user options are taken over")
    c.check(set(n["useroptions"]) == {a, b}, "and remembered as such")
    for k in NAMES:
        if k not in (a, b):
            same(c, n[k], documented(c, k, D), f"{k} is a default, not copied from the other object")
    e = Options.init_from_existing_options(PATHS[0], {"D": D}, None)
    c.check(len(e["useroptions"]) == 0, "nothing taken over from no object")


def h_file(c):
    """A user's option file: overrides defaults, not the user's options."""
    d = tempfile.mkdtemp(prefix="verif-c21-")
    try:
        p = os.path.join(d, "mine.ini")
        with open(p, "w") as f:
            f.write("[Options]\n# Stable count\ntol_stable_count = 40 + D\n# New\nmy_option = [D, 1]\n# Iterations\nmax_iter = 7\n")
        given = {k: value(c, i) for i, k in enumerate(("tol_stable_count", "max_iter", "my_option")) if c.choose(k, [False, True])}
        o = built(c, given, 2, p)
    finally:
        shutil.rmtree(d)
    for k, w in (("tol_stable_count", 42), ("max_iter", 7), ("my_option", [2, 1])):
        same(c, o[k], given.get(k, w), f"{k}: the user's value, or else the file's")
    for n in NAMES:
        if n not in ("tol_stable_count", "max_iter"):
            same(c, o[n], documented(c, n, 2), f"default of {n}")
    try:
        o["max_iter"] = 3
    except AttributeError:
        return
    c.fail("options can be changed after initialisation")


def h_eval(c):
    o = Options(PATHS[0], {"D": 2}, {"max_iter": lambda N, K: 2 * N + K, "display": "off"})
    n, k = value(c, 0), value(c, 1)
    c.check_eq(o.eval("max_iter", {"N": n, "K": k}), 2 * n + k, "options that are functions are evaluated")
    c.check(o.eval("display", {"N": n, "K": k}) == "off", "other options are returned")
    # functions among the documented defaults
    o = built(c, None)
    for name in NAMES:
        if callable(o[name]) and o[name].__code__.co_varnames[: o[name].__code__.co_argcount] == ("N",):
            N = c.int("N", 1, 400)
            c.check_eq(o.eval(name, {"N": N}), documented(c, name, 2)(N), f"{name} evaluated")


def instances(tier):
    out = [Inst("defaults", h_defaults, "all options, D <= 200")]
    for p in range(6):
        out.append(Inst(f"one:{p}", h_one(p, False), "one sixth of the names, D <= 200"))
        out.append(Inst(f"object:{p}", h_one(p, True), "one sixth of the names, D=2"))
        if tier == "thorough" or p < 2:
            out.append(Inst(f"pair:{p}", h_pair(p), "one sixth of the names and ten others"))
    out += [
        Inst("noise", h_noise, "every subset of the five noise-dependent options"),
        Inst("unknown", h_unknown, "nine unknown names"),
        Inst("locked", h_locked, "three options"),
        Inst("isolated", h_isolated, "two objects and a copy"),
        Inst("existing", h_existing, "ten options"),
        Inst("file", h_file, "three options in the file"),
        Inst("eval", h_eval, "functions of N"),
    ]
    return out
