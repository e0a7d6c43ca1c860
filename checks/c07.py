"""C07: warm-up ends when configured, and its trimming keeps the best points."""
import numpy as np

from symex.run import Inst

from checks.vb import make_vbmc, record

META = dict(assumptions=[
    "recorded values, reliability index and thresholds symbolic; D <= 2, up to 6 recorded points, up to 2 trimmings in sequence",
    "end condition: 3 to 6 iterations of history with symbolic lower bounds, their deviations, function bounds, counts and thresholds",
])


def add_points(c, v, k0, n, D, noise=0):
    for k in range(k0, k0 + n):
        x = np.full((D,), 0.1 * (k + 1))
        y = c.real(f"y{k}", typ=(-30, 5))
        v.function_logger.add(x, y, 1.0 if noise else None, 0.1)


def trim_spec(c, v, D, n, thr, before, ys, y_all):
    np_ = c.np
    fl = v.function_logger
    flags = [bool(fl.X_flag[i]) for i in range(n)]
    m = ys[0]
    for y in ys[1:]:
        m = np_.maximum(m, y)
    for i in range(n):
        if before[i] and not flags[i]:
            c.check(m - ys[i] >= thr, "a point within the threshold of the maximum is kept")
        if flags[i]:
            c.check(before[i], "trimming never brings a point back")
    keep = [i for i in range(n) if flags[i]]
    drop = [i for i in range(n) if before[i] and not flags[i]]
    c.check(len(keep) >= min(D + 1, sum(before)), "at least D + 1 points are kept if that many exist")
    for i in keep:
        for j in drop:
            c.check(ys[i] >= ys[j], "a dropped point is never better than a kept one")
    if len(keep) > D + 1:
        for i in keep:
            c.check(m - ys[i] < thr, "beyond the minimum number only points within the threshold are kept")
    c.check(not any(bool(fl.X_flag[i]) for i in range(n, len(fl.X_flag))), "unused rows stay unflagged")
    c.check_eq(fl.y_orig[:n, 0], np_.stack(ys), "stored values are untouched")
    c.check(fl.Xn == n - 1, "no point is removed from the record")
    return flags


def h_trim(D, n1, n2, mode):
    """n1 points, a trimming (real or false alarm), n2 more points and again."""

    def h(c):
        np_ = c.np
        thr = c.real("thr", sign="+", typ=(1, 20))
        thr_fa = c.real("thr_fa", sign="+", typ=(1, 40)) if mode != "nofa" else None
        rel = c.real("rel", sign="+", typ=(10, 100))
        v = make_vbmc(D, dict(warmup_keep_threshold=thr, warmup_keep_threshold_false_alarm=thr_fa, stop_warmup_reliability=rel, cache_size=n1))
        ntrim = 0
        n = 0
        before = []
        for step, m in enumerate((n1, n2)):
            if m == 0:
                break
            add_points(c, v, n, m, D)
            n += m
            before += [True] * m
            ys = [c.real(f"y{k}", typ=(-30, 5)) for k in range(n)]
            it = 10 + step
            v.optim_state["iter"] = it
            v.optim_state["N"] = n
            r = c.real(f"r{step}", sign="+", typ=(1, 200))
            record(v, "r_index", [r], it)
            ntl = len(v.optim_state["data_trim_list"])
            y_before = v.function_logger.y.copy()
            S = v.function_logger
            X_before = S.X.copy()
            v._setup_vbmc_after_warmup()
            ended = v.optim_state["warmup"] is False
            expect = bool(r < rel) or ntl >= 1
            c.check(ended == expect, "warm-up ends iff reliable enough or a trimming happened before")
            c.check_eq(S.y[:n], y_before[:n], "transformed values are untouched")
            c.check_eq(S.X[:n], X_before[:n], "points are untouched")
            if ended:
                t = thr * (ntl + 1)
                c.check(v.optim_state["last_warmup"] == it, "iteration of the end of warm-up")
                c.check(len(v.optim_state["data_trim_list"]) == ntl, "no trimming event at the end of warm-up")
            else:
                # the trim list is read after the event was appended or
                # before, as configured: before
                t = (thr if thr_fa is None else thr_fa) * (ntl + 1)
                c.check(len(v.optim_state["data_trim_list"]) == ntl + 1, "a false alarm is recorded as trimming event")
                c.check(v.optim_state["data_trim_list"][-1] == n, "trimming event records the number of points")
            before = trim_spec(c, v, D, n, t, before, ys, None)
            if ended:
                break
            # noqa
        c.check(v.optim_state["recompute_var_post"], "the posterior is recomputed after trimming")

    return h


def h_end(T, tol_iters, check_max, trimmed):
    """End-of-warm-up condition after T recorded iterations."""

    def h(c):
        np_ = c.np
        per = 5
        sw = c.real("sw", sign="+", typ=(0.1, 1))
        w = c.real("w", sign="0+", typ=(0.5, 3))
        ti = c.real("ti", sign="+", typ=(0.01, 1))
        noi = c.real("noi", sign="+", typ=(5, 30))
        v = make_vbmc(
            1,
            dict(
                fun_evals_per_iter=per, tol_stable_warmup=per * tol_iters, stop_warmup_thresh=sw, elcbo_impro_weight=w,
                tol_improvement=ti, warmup_no_impro_threshold=noi, warmup_check_max=check_max,
            ),
        )
        e = c.array("e", (T,), typ=(-5, 5))
        s = c.array("s", (T,), sign="+", typ=(0.1, 1))
        l = c.array("l", (T,), typ=(-5, 5))
        f = c.array("f", (T,), sign="+", typ=(1, 100))
        fc = c.real("fc", sign="+", typ=(1, 100))
        N = c.real("N", sign="+", typ=(1, 60))
        v.optim_state["iter"] = T - 1
        v.optim_state["N"] = N
        last = None
        if trimmed:
            last = c.real("lt", sign="+", typ=(1, 40))
            v.optim_state["data_trim_list"] = [last]
        for k, a in (("elbo", e), ("elbo_sd", s), ("lcb_max", l), ("func_count", f)):
            record(v, k, [a[i] for i in range(T)])
        v.function_logger.func_count = fc
        got = v._check_warmup_end_conditions()
        got = bool(got)
        thr = sw * per
        mx = lambda xs: max(xs) if c.mode == "con" else __import__("functools").reduce(np_.maximum, xs)
        # stable: the lower confidence bound did not improve by thr over the
        # last tol_iters iterations
        it = T - 1
        stable = False
        if it > max(tol_iters, 2):
            lcb = [e[i] - w * s[i] for i in range(T)]
            cut = max(3, T - tol_iters)
            stable = bool(mx(lcb[cut:]) - mx(lcb[2:cut]) < thr)
        imp = True
        if check_max:
            cut = max(1, it - tol_iters - 1)
            d = mx([l[i] for i in range(cut, T)]) - mx([l[i] for i in range(cut)])
            imp = bool(d < thr)  # improvements below zero count as zero
        m = mx([l[i] for i in range(T)]) - ti
        first = [i for i in range(T) if bool(l[i] > m)][0]
        longterm = bool(fc - f[first] > noi)
        notrim = True if not trimmed else bool(N - last >= 10)
        want = ((stable and imp) or longterm) and notrim
        c.check(got == want, f"warm-up ends exactly under the configured conditions (stable {stable}, no improvement {imp}, no long-term improvement {longterm}, no recent trim {notrim}; got {got})")

    return h


def instances(tier):
    out = []
    big = tier == "thorough"
    for D, n1, n2 in [(1, 3, 0), (1, 2, 0), (1, 1, 0), (2, 4, 0), (2, 2, 0), (1, 2, 2), (1, 3, 1)] + ([(1, 3, 2), (2, 4, 1), (1, 5, 0), (2, 3, 2)] if big else []):
        for mode in ("fa", "nofa"):
            out.append(Inst(f"trim:D{D}:{n1}+{n2}:{mode}", h_trim(D, n1, n2, mode), f"D={D}, {n1}+{n2} points", time_s=700 if not big else 5000))
    for T, ti in [(2, 3), (3, 1), (4, 1), (4, 3), (5, 3), (5, 2)] + ([(6, 3), (7, 3), (6, 2)] if big else []):
        for cm in (True, False):
            for tr in (False, True):
                if T == 2 and cm:
                    pass
                out.append(Inst(f"end:T{T}:tol{ti}:max{cm}:trim{tr}", h_end(T, ti, cm, tr), f"{T} iterations", time_s=700 if not big else 5000))
    return out
