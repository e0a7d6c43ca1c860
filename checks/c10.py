"""C10: the number of mixture components follows the adaptive rule."""
import numpy as np

from symex.run import Inst

from checks.vb import make_vbmc, record

META = dict(assumptions=[
    "histories of 1 to 7 (thorough 9) iterations with symbolic lower bounds, deviations, reliability, number of components, maximum and bonus",
    "warm-up is a prefix of the history, at least one iteration after it",
])


def h_k(T, W, window, prune, warm=False):
    from pyvbmc.vbmc.variational_optimization import update_K

    def h(c):
        np_ = c.np
        K = c.int("K", 1, 60)
        N = c.int("N", 1, 200)
        bonus = c.int("bonus", 0, 4)
        w = c.real("w", sign="0+", typ=(0, 3))
        seen = {}

        def k_fun_max(N):
            seen["N"] = N
            return N

        def adaptive_k(unkn):
            seen["unkn"] = unkn
            return bonus

        per = 5
        v = make_vbmc(1, dict(k_fun_max=k_fun_max, adaptive_k=adaptive_k, elcbo_impro_weight=w, tol_stable_count=2 * per * window, fun_evals_per_iter=per))
        st = v.optim_state
        st["vp_K"], st["n_eff"], st["iter"], st["warmup"] = K, N, T, warm
        st["recompute_var_post"] = c.choose("recompute", [False, True])
        e = [c.real(f"e{i}", typ=(-2, 2)) for i in range(T)]
        s = [c.real(f"s{i}", sign="0+", typ=(0, 0.3)) for i in range(T)]
        r = [c.real(f"r{i}", sign="0+", typ=(0, 2)) for i in range(T)]
        p = [prune if i == T - 2 else 0 for i in range(T)]
        if T:
            p[-1] = c.choose("pruned", [0, 1, 2])
        wu = [i < W for i in range(T)]
        record(v, "elbo", e)
        record(v, "elbo_sd", s)
        record(v, "r_index", r)
        record(v, "pruned", p)
        record(v, "warmup", wu)
        new = update_K(st, v.iteration_history, v.options)
        H = v.iteration_history
        for i in range(T):
            c.check_eq(H["elbo"][i], e[i], "history unchanged")
            c.check_eq(H["elbo_sd"][i], s[i], "history unchanged")
            c.check(bool(H["warmup"][i]) == wu[i], "history unchanged")
        c.check(new >= K, "never fewer components than before")
        c.check((new == K) | (new <= N), "growth never exceeds the maximum for the number of points")
        c.check(new <= K + 1 + bonus, "at most one component plus the bonus")
        if "N" in seen:
            c.check(seen["N"] == N, "the maximum is evaluated at the effective number of points")
        c.check(st["vp_K"] == K, "state unchanged")
        if warm or T == 0:
            c.check(new == K, "no growth during warm-up")
            return
        # reference
        lo = max(0, T - window)
        l = [e[i] - w * s[i] for i in range(lo, T) if not wu[i]]
        l = l[2:]  # the first two of the window after warm-up never count
        improving = len(l) > 0 and all(bool(l[-1] >= x) for x in l[:-1])
        grow = 0
        if improving:
            if p[-1] == 0:
                grow = 1
            m = max(0, T - int(np.ceil(0.5 * window)))
            if bool(r[-1] < 1) and not st["recompute_var_post"] and all(x == 0 for x in p[m:]):
                grow = grow + bonus
        want = K + grow
        want = np_.maximum(K, np_.minimum(want, N))
        c.check(new == want, f"one more component if improving and nothing pruned, bonus only if stable (improving {improving}, grow {grow})")

    return h


def h_default(T):
    """the documented defaults: maximum N^(2/3), bonus 2, window 6"""
    from pyvbmc.vbmc.variational_optimization import update_K

    def h(c):
        K = c.int("K", 1, 60)
        N = c.choose("N", [1, 8, 10, 27, 60, 125, 300])
        kmax = {1: 1, 8: 4, 10: 5, 27: 9, 60: 16, 125: 25, 300: 45}[N]
        v = make_vbmc(1)
        st = v.optim_state
        st["vp_K"], st["n_eff"], st["iter"], st["warmup"], st["recompute_var_post"] = K, N, T, False, False
        e = [c.real(f"e{i}", typ=(-2, 2)) for i in range(T)]
        r = c.real("r", sign="0+", typ=(0, 2))
        record(v, "elbo", e)
        record(v, "elbo_sd", [0.0] * T)
        record(v, "r_index", [np.inf] * (T - 1) + [r])
        record(v, "pruned", [0] * T)
        record(v, "warmup", [False] * T)
        new = update_K(st, v.iteration_history, v.options)
        l = e[max(0, T - 6):][2:]
        imp = len(l) > 0 and all(bool(l[-1] >= x) for x in l[:-1])
        want = K + ((3 if bool(r < 1) else 1) if imp else 0)
        c.check(new == c.np.maximum(K, c.np.minimum(want, kmax)), "default growth rule")

    return h


def instances(tier):
    out = []

    def add(T, W, window, prune=0, warm=False):
        out.append(Inst(f"k:T{T}:W{W}:win{window}:prune{prune}:warm{warm}", h_k(T, W, window, prune, warm), f"{T} iterations, window {window}", time_s=600))

    add(0, 0, 3)
    add(1, 0, 3)
    add(2, 1, 3)
    add(3, 0, 3)
    add(3, 3, 3, warm=True)
    add(4, 1, 3)
    add(5, 0, 3)
    add(5, 0, 4, 1)
    add(6, 3, 6)
    add(6, 0, 6)
    add(6, 0, 2)
    add(7, 0, 4, 1)
    add(7, 0, 2, 1)
    for T in (3, 5, 7):
        out.append(Inst(f"default:T{T}", h_default(T), f"{T} iterations, default options", time_s=600))
    if tier == "thorough":
        add(8, 2, 8)
        add(9, 0, 6, 1)
        add(9, 4, 5)
    return out
