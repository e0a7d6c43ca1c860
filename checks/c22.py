"""C22: the iteration history is append-only and isolated from later changes."""
import copy
import pickle
import sys

import numpy as np

import pyvbmc.vbmc.vbmc as vm
from pyvbmc.vbmc import VBMC, IterationHistory

from checks.loop import run_loop
from symex.run import Inst

META = dict(assumptions=[
    "up to 4 recordings at arbitrary iteration numbers 0..3 (thorough: 5 recordings), two or three keys; recorded values: numbers, arrays, nested containers and objects with arbitrary contents",
    "whole-loop harnesses: the real optimize() with stand-ins for sampling, surrogate and variational optimisation; a run, then a continuation or a load from memory, with increasing lower bounds and no warm-up (the decisions of the loop are C07-C10); dill's reading and writing of bytes is replaced by an in-memory copy",
])


class Thing:
    """an object with mutable state, like a posterior or a surrogate"""

    def __init__(self, x):
        self.x = x
        self.stats = {"a": [x]}


def value(c, kind, i):
    x = c.array(f"v{i}", (2,), typ=(-1, 1))
    if kind == "number":
        return x[0]
    if kind == "array":
        return x
    if kind == "dict":
        return {"x": x, "l": [x.copy(), {"y": x.copy()}]}
    return Thing(x)


def spoil(v, c):
    """whatever a caller may do to an object it has handed over"""
    z = c.real("spoil", typ=(5, 6))
    if isinstance(v, Thing):
        v.x[0] = z
        v.stats["a"][0][1] = z
        v.stats["b"] = 1
        v.x = None
    elif isinstance(v, dict):
        v["l"][1]["y"][0] = z
        v["l"][0][1] = z
        v["x"][:] = z
        v["l"].append(0)
        v["new"] = 1
    elif isinstance(v, np.ndarray):
        v[...] = z


def flat(v):
    if isinstance(v, Thing):
        return ["T"] + flat(v.x) + flat(v.stats)
    if isinstance(v, dict):
        r = ["D"]
        for k in sorted(v):
            r += [k] + flat(v[k])
        return r
    if isinstance(v, list):
        return ["L"] + [y for x in v for y in flat(x)]
    if isinstance(v, np.ndarray):
        return ["A", v.shape] + list(v.ravel())
    return [v]


def same(c, a, b, msg):
    a, b = flat(a), flat(b)
    c.check(len(a) == len(b), msg + ": structure")
    for x, y in zip(a, b):
        if x is None or y is None or isinstance(x, (str, tuple)) or isinstance(y, (str, tuple)):
            c.check(type(x) is type(y) and x == y, msg)
        else:
            c.check_eq(x, y, msg)


def compare(c, h, ref, keys, msg):
    c.check(set(h.keys()) == set(keys), msg + ": the keys stay the same")
    for k in keys:
        if not ref[k]:
            c.check(h[k] is None or all(x is None for x in h[k]), msg + f": nothing recorded under {k}")
            continue
        c.check(len(h[k]) == max(ref[k]) + 1, msg + f": length of {k}")
        for i in range(len(h[k])):
            if i in ref[k]:
                same(c, h[k][i], ref[k][i], msg + f": {k} at its iteration")
            else:
                c.check(h[k][i] is None, msg + f": nothing recorded for this iteration of {k}")


def h_history(kinds, many):
    def h(c):
        keys = ["a", "b", "c"]
        h = IterationHistory(list(keys))
        ref = {k: {} for k in keys}
        live = []
        for n, kind in enumerate(kinds):
            it = int(c.int(f"it{n}", 0, 3))
            v = value(c, kind, n)
            want = copy.deepcopy(v)
            if many:
                h.record_iteration({"a": v, "b": v}, it)
                ref["a"][it] = ref["b"][it] = want
            else:
                k = c.choose(f"key{n}", ["a", "b"])
                h.record(k, v, it)
                ref[k][it] = want
            live.append(v)
            compare(c, h, ref, keys, "after recording")
        for v in live:
            spoil(v, c)
        compare(c, h, ref, keys, "after the recorded objects were changed")
        if many:
            # the same object under two keys is stored twice
            it = max(ref["a"])
            spoil(h["a"][it], c)
            same(c, h["b"][it], ref["b"][it], "keys do not share a stored value")

    return h


def h_reject(c):
    h = IterationHistory(["a", "b"])
    x = c.array("x", (2,))
    h.record("a", x, 1)
    ref = {"a": {1: x.copy()}, "b": {}}
    it = c.int("it", -3, 3)
    key = c.choose("key", ["a", "zz"])
    how = c.choose("how", ["record", "record_iteration", "setitem"])
    y = c.array("y", (2,), typ=(2, 3))
    ok = True
    try:
        if how == "record":
            h.record(key, y, it)
        elif how == "record_iteration":
            h.record_iteration({key: y}, it)
        else:
            h[key] = y
    except ValueError:
        ok = False
    bad = key == "zz" or (how != "setitem" and it < 0)
    c.check(ok != bad, "unknown keys and negative iterations are rejected, everything else is accepted")
    if bad:
        compare(c, h, ref, ["a", "b"], "a rejected recording changes nothing")
    elif how == "setitem":
        y0 = y.copy()
        y[0] = 7
        c.check_eq(h["a"], y0, "value set is a copy")
    else:
        ref["a"][int(it)] = y
        compare(c, h, ref, ["a", "b"], "accepted")


def h_copy(how):
    def h(c):
        h = IterationHistory(["a", "b"])
        ref = {"a": {}, "b": {}}
        for n in range(2):
            v = value(c, "dict", n)
            ref["a"][n] = copy.deepcopy(v)
            h.record("a", v, n)
        if how == "deepcopy":
            h2 = copy.deepcopy(h)
        else:
            f, args, state = h.__reduce__()[:3]
            # what pickling does, the byte stream replaced by a deep copy
            h2 = f(*copy.deepcopy(args))
            h2.__setstate__(copy.deepcopy(state))
        c.check(isinstance(h2, IterationHistory), "restored as a history")
        compare(c, h2, ref, ["a", "b"], "restored")
        h2.record("b", 1, 0)
        spoil(h2["a"][0], c)
        compare(c, h, ref, ["a", "b"], "the original is unaffected by its copy")
        try:
            h2["zz"] = 1
        except ValueError:
            return
        c.fail("a restored history accepts unknown keys")

    return h


SKIP = {"random_state"}


def freeze(v, depth=0, seen=None):
    """the complete contents of a recorded object, as nested plain lists"""
    seen = {} if seen is None else seen
    if isinstance(v, (str, bytes, type(None), type)):
        return v
    if id(v) in seen:
        return ("ref", seen[id(v)])
    if isinstance(v, np.ndarray):
        seen[id(v)] = len(seen)
        if type(v) is not np.ndarray or v.dtype == object:
            return ("A", v.shape, [freeze(x, depth + 1, seen) for x in v.ravel().tolist()])
        return ("A", v.shape, v.copy())
    if isinstance(v, dict):
        seen[id(v)] = len(seen)
        return ("D", {str(k): freeze(x, depth + 1, seen) for k, x in v.items()})
    if isinstance(v, (list, tuple, set)):
        return ("L", [freeze(x, depth + 1, seen) for x in v])
    if callable(v) and not hasattr(v, "__dict__"):
        return "callable"
    if hasattr(v, "__dict__") and type(v).__module__.startswith(("pyvbmc", "checks", "gpyreg")):
        seen[id(v)] = len(seen)
        return ("O", {k: freeze(x, depth + 1, seen) for k, x in vars(v).items() if not callable(x)})
    return v


def same_frozen(c, a, b, where):
    if isinstance(a, tuple) and len(a) and a[0] in ("A", "D", "O", "L", "ref"):
        c.check(isinstance(b, tuple) and a[0] == b[0], where)
        if a[0] == "ref":
            return
        if a[0] == "A" and isinstance(a[2], np.ndarray):
            c.check(a[1] == b[1], where + ": shape")
            if isinstance(b[2], np.ndarray):
                if a[2].dtype.kind in "fiub" and b[2].dtype.kind in "fiub":
                    c.check(bool(np.array_equal(a[2], b[2], equal_nan=a[2].dtype.kind == "f")), where)
                return
        x, y = a[-1], b[-1]
        if isinstance(x, dict):
            c.check(set(x) == set(y), where + f": entries {sorted(set(x) ^ set(y))}")
            for k in x:
                same_frozen(c, x[k], y[k], where + "." + k)
        else:
            c.check(len(x) == len(y), where + ": length")
            for i, (p, q) in enumerate(zip(x, y)):
                same_frozen(c, p, q, where)
        return
    if isinstance(a, (str, bytes, type(None), type)) or isinstance(b, (str, bytes, type(None), type)):
        c.check(type(a) is type(b) and a == b, where)
        return
    if isinstance(a, float) and a != a:
        c.check(b != b, where)
        return
    try:
        if bool(c.np.isnan(a)) and bool(c.np.isnan(b)):
            return
    except (TypeError, ValueError):
        return
    c.check_eq(a, b, where)


def records(v, n):
    return {
        k: [freeze(v.iteration_history[k][i]) for i in range(n)]
        for k in v.iteration_history if v.iteration_history[k] is not None and k not in SKIP
    }


def h_loop(cont):
    """What a run recorded is the same after the run was continued."""

    def h(c):
        v, vp, res, log = run_loop(c, dict(max_iter=1, min_iter=0, tol_stable_count=100, max_fun_evals=100, cache_size=8, warmup=False), monotone=True)
        n = len(v.iteration_history["iter"])
        c.check([int(i) for i in v.iteration_history["iter"]] == list(range(n)), "one record per iteration")
        for i in range(n):
            c.check(v.iteration_history["vp"][i].tag == i, "the posterior of the iteration")
            c.check(v.iteration_history["gp"][i].tag == i, "the surrogate of the iteration")
            c.check(v.iteration_history["optim_state"][i]["iter"] == i, "the state of the iteration")
            c.check(v.iteration_history["function_logger"][i].func_count == 2 * (i + 1), "the evaluations up to the iteration")
        ref = records(v, n)
        if cont == "load":
            saved = v
            old = vm.dill.load, vm.__dict__.get("open")
            vm.dill.load = lambda f: copy.deepcopy(saved)
            c.cleanup.append(lambda: setattr(vm.dill, "load", old[0]))
            import io

            vm.open = lambda *a, **k: io.BytesIO()
            c.cleanup.append(lambda: vm.__dict__.pop("open", None))
            it = c.choose("iteration", [None] + list(range(n)))
            v = VBMC.load("memory.pkl", new_options=dict(max_iter=v.iteration + 2 if it is None else it + 2), iteration=it)
            n = n if it is None else it + 1
            c.check(v.iteration == n - 1, "loaded at the requested iteration")
            after = records(v, n)
            for k in ref:
                same_frozen(c, ("L", ref[k][:n]), ("L", after[k]), f"{k} after loading")
        else:
            v.options.is_initialized = False
            v.options["max_iter"] = v.iteration + 2
            v.options.is_initialized = True
        v.optimize()
        c.check(len(v.iteration_history["iter"]) > n, "the run was continued")
        after = records(v, n)
        for k in ref:
            same_frozen(c, ("L", ref[k][:n]), ("L", after[k]), f"{k} recorded earlier, after continuing the run")

    return h


def instances(tier):
    T = tier == "thorough"
    out = []
    for kind in ("number", "array", "dict", "thing"):
        n = 4 if kind in ("number", "array") or T else 3
        out.append(Inst(f"history:{kind}", h_history([kind] * (n - 1), False), f"{n - 1} recordings, iterations 0..3"))
        out.append(Inst(f"together:{kind}", h_history([kind] * (n if T else 3), True), f"{n if T else 3} recordings of two keys"))
    out.append(Inst("history:mixed", h_history(["thing", "array", "dict"] + (["number"] if T else []), False), "mixed values"))
    out.append(Inst("reject", h_reject, "iterations -3..3, known and unknown key"))
    for how in ("deepcopy", "reduce"):
        out.append(Inst(f"copy:{how}", h_copy(how), "2 recordings"))
    for cont in ("continue", "load"):
        out.append(Inst(f"loop:{cont}", h_loop(cont), "2 iterations, then at least 1 more"))
    return out
