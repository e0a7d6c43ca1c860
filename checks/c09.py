"""C09: the run ends exactly when a budget is spent or the solution is stable."""
import numpy as np

from symex.run import Inst

from checks.loop import run_loop
from checks.vb import make_vbmc, record

META = dict(assumptions=[
    "state after T = 1..6 (thorough 8) iterations; lower bounds, deviations, divergences, counts, noise level, all tolerances and budgets symbolic",
    "stability windows of 3, 4 and 6 iterations (a window below 3 makes the improvement regression degenerate); evaluation counts strictly increasing",
])


def h_term(T, S, frac, entropy, warp):
    def h(c):
        np_ = c.np
        it = T - 1
        per = 5
        tol_sd = c.real("tol_sd", sign="+", typ=(0.05, 0.5))
        tol_skl = c.real("tol_skl", sign="+", typ=(0.01, 0.3))
        tol_imp = c.real("tol_imp", typ=(-0.1, 0.5))
        w = c.real("w", sign="0+", typ=(0, 3))
        b = c.real("b", sign="+", typ=(0.3, 3))
        maxfe, minfe = c.real("maxfe", sign="+", typ=(5, 60)), c.real("minfe", sign="+", typ=(0, 30))
        maxit, minit = c.real("maxit", sign="+", typ=(1, 9)), c.real("minit", sign="+", typ=(0, 4))
        v = make_vbmc(
            1,
            dict(
                tol_sd=tol_sd, tol_skl=tol_skl, tol_improvement=tol_imp, elcbo_impro_weight=w, max_fun_evals=maxfe, min_fun_evals=minfe,
                max_iter=maxit, min_iter=minit, fun_evals_per_iter=per, tol_stable_count=per * S - 2, tol_stable_entropy_iters=S,
                tol_stable_excpt_frac=frac,
            ),
        )
        st = v.optim_state
        st["iter"] = it
        st["entropy_switch"] = entropy
        st["last_successful_warping"] = warp
        st["sn2_hpd"] = (b * b * tol_sd) ** 2
        e = [c.real(f"e{i}", typ=(-2, 2)) for i in range(T)]
        s = [c.real(f"s{i}", sign="+", typ=(0.001, 0.3)) for i in range(T)]
        k = [c.real(f"k{i}", sign="0+", typ=(0, 0.2)) for i in range(T)]
        r = [c.real(f"r{i}", sign="0+", typ=(0, 2)) for i in range(it)]
        d = [c.real(f"d{i}", sign="+", typ=(1, 6)) for i in range(T)]
        fc = []
        for x in d:
            fc.append((fc[-1] if fc else 0) + x)
        record(v, "elbo", e)
        record(v, "elbo_sd", s)
        record(v, "sKL", k)
        record(v, "func_count", fc)
        if it:
            record(v, "r_index", r)
        v.function_logger.func_count = fc[-1]
        v.logging_action = []
        fin, msg = v._check_termination_conditions()
        fin = bool(fin)
        H = v.iteration_history
        got_r, got_stable = H["r_index"][it], bool(H["stable"][it])
        # reference
        stable = False
        if it < 2:
            c.check(bool(got_r == np.inf), "no reliability index before the third iteration")
        else:
            tol = tol_sd * (1 if bool(b <= 1) else (10 if bool(b >= 10) else b))
            ref = (np_.abs(e[it] - e[it - 1]) / tol + s[it] / tol + k[it] / tol_skl) / 3
            c.check_eq(got_r, ref, "reliability index: mean of the changes relative to their tolerances")
            c.check_eq(st["R"], ref, "reliability index stored in the state")
            i0 = max(0, it - (S + 1) // 2 + 1)
            n = it + 1 - i0
            xs, ys = fc[i0:], [e[i] - w * s[i] for i in range(i0, it + 1)]
            mx, my = sum(xs) / n, sum(ys) / n
            num = sum((x - mx) * (y - my) for x, y in zip(xs, ys))
            den = sum((x - mx) * (x - mx) for x in xs)
            slope = num / den
            c.check_eq(H["elcbo_impro"][it], slope, "improvement per evaluation: regression slope of the lower confidence bound", tol=1e-5)
            if it + 1 >= S and bool(got_r < 1) and bool(slope < tol_imp):
                cnt = sum(1 for i in range(it - S + 1, it) if bool(r[i] < 1))
                stable = cnt >= S - np.floor(S * frac) - 1
        budget = bool(fc[-1] >= maxfe) or bool(it + 1 >= maxit)
        early = bool(fc[-1] < minfe) or bool(it < minit)
        done = stable and not entropy and it - warp >= S / 3
        c.check(fin == ((budget or done) and not early), f"finished exactly when a budget is spent or the solution is stable (budget {budget}, stable {done}, too early {early}, got {fin})")
        c.check(got_stable == (stable and not entropy), "stability flag recorded")
        c.check(bool(st["entropy_switch"]) == (entropy and not stable), "a stable solution under deterministic entropy switches the entropy instead")
        for i in range(it):
            c.check_eq(H["r_index"][i], r[i], "earlier history unchanged")
        if fin:
            c.check(len(msg) > 0, "a finished run has a termination message")

    return h


def h_loop(max_iter, S, warmup):
    """the whole loop: it stops at the first iteration at which a budget is
    spent or the recorded solution is stable, and not before"""

    def h(c):
        maxfe, minfe = c.real("maxfe", sign="+", typ=(2, 12)), c.real("minfe", lo=0, hi=2 * max_iter)
        minit = c.choose("minit", [0, 1])
        n = 2
        v, vp, res, log = run_loop(
            c, dict(max_iter=max_iter, min_iter=minit, max_fun_evals=maxfe, min_fun_evals=minfe, tol_stable_count=n * S, warmup=warmup,
                    tol_stable_excpt_frac=0.0), n_eval=n, max_calls=max_iter + 3,
        )
        H = v.iteration_history
        T = len(log)
        c.check(v.is_finished, "the run is finished when optimize() returns")
        c.check(res["iterations"] == T - 1, "iteration count reported")
        c.check(v.function_logger.func_count == n * T, "every iteration adds the configured evaluations")
        c.check(res["func_count"] == n * T, "evaluation count reported")
        for i in range(T):
            c.check(H["func_count"][i] == n * (i + 1), "evaluation count recorded per iteration")
            budget = bool(n * (i + 1) >= maxfe) or i + 1 >= max_iter
            early = bool(n * (i + 1) < minfe) or i < minit
            stop = (budget or bool(H["stable"][i])) and not early
            c.check(stop == (i == T - 1), f"the loop stops at the first iteration that satisfies a stopping condition (iteration {i} of {T})")
        c.check(len(res["message"]) > 0, "termination message reported")

    return h


def instances(tier):
    out = []
    out.append(Inst("loop:max3", h_loop(3, 3, False), "up to 3 iterations of optimize()", time_s=800))
    out.append(Inst("loop:max2:warmup", h_loop(2, 3, True), "up to 2 iterations of optimize()", time_s=800))
    if tier == "thorough":
        out.append(Inst("loop:max4", h_loop(4, 3, False), "up to 4 iterations of optimize()", time_s=6000))

    def add(T, S, frac=0.2, entropy=False, warp=-np.inf):
        out.append(Inst(f"term:T{T}:S{S}:frac{frac}:ent{entropy}:warp{warp}", h_term(T, S, frac, entropy, warp), f"{T} iterations, window {S}", time_s=700))

    for T in (1, 2, 3, 4):
        add(T, 3)
    add(3, 3, entropy=True)
    add(4, 3, 0.34)
    add(4, 4, 0.25)
    add(4, 3, warp=2)
    add(4, 3, warp=3)
    add(5, 4, warp=2)
    add(2, 3, entropy=True)
    add(5, 4)
    add(6, 6)
    if tier == "thorough":
        add(6, 4, 0.25, warp=1)
        add(6, 4, 0.25, entropy=True)
        add(8, 6)
        add(8, 6, 0.4)
    return out
