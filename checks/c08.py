"""C08: the returned solution is the best one the history allows."""
import types

import numpy as np

from symex.run import Inst

from checks.loop import run_loop
from checks.vb import make_vbmc, record

META = dict(assumptions=[
    "histories of 1 to 5 (thorough 6) iterations with symbolic lower bounds, their deviations and reliability indices and every pattern of stability flags",
    "values that decide a ranking are pairwise different in the ranking harness (ties are broken arbitrarily)",
])


class VP:
    """stand-in for a recorded posterior"""

    def __init__(self, tag):
        self.tag = tag
        self.stats = {"stable": "unset"}
        self.K = 2


def vmax(c, xs):
    m = xs[0]
    for x in xs[1:]:
        m = c.np.maximum(m, x)
    return m


def h_best(T, max_idx, rank):
    def h(c):
        np_ = c.np
        v = make_vbmc(1)
        e = [c.real(f"e{i}", typ=(-5, 5)) for i in range(T)]
        s = [c.real(f"s{i}", sign="+", typ=(0.05, 1)) for i in range(T)]
        r = [c.real(f"r{i}", sign="0+", typ=(0.1, 5)) for i in range(T)]
        st = [c.choose(f"st{i}", [False, True]) for i in range(T)]
        sd = c.real("safe_sd", sign="0+", typ=(0, 5))
        frac = c.choose("frac", [0.25, 0.5, 0.9, 0.0])
        record(v, "iter", list(range(T)))
        record(v, "elbo", e)
        record(v, "elbo_sd", s)
        record(v, "r_index", r)
        record(v, "stable", st)
        record(v, "vp", [VP(i) for i in range(T)])
        last = T - 1 if max_idx is None else max_idx
        lcb = [e[i] - sd * s[i] for i in range(T)]
        if rank:
            for i in range(last + 1):
                for j in range(i):
                    c.assume(lcb[i] != lcb[j])
                    c.assume(r[i] != r[j])
        vp, elbo, elbo_sd, idx = v.determine_best_vp(max_idx=max_idx, safe_sd=sd, frac_back=frac, rank_criterion_flag=rank)
        idx = int(idx)
        c.check(0 <= idx <= last, "the solution was recorded not later than allowed")
        c.check(vp.tag == idx, "the posterior is the one recorded at the reported iteration")
        c.check_eq(elbo, e[idx], "the lower bound belongs to the reported iteration")
        c.check_eq(elbo_sd, s[idx], "the uncertainty belongs to the reported iteration")
        c.check(bool(vp.stats["stable"]) == st[idx], "the stability flag belongs to the reported iteration")
        # history untouched
        H = v.iteration_history
        for k, a in (("elbo", e), ("elbo_sd", s), ("r_index", r)):
            for i in range(T):
                c.check_eq(H[k][i], a[i], f"recorded {k} unchanged")
        for i in range(T):
            c.check(H["stable"][i] == st[i] and H["iter"][i] == i and H["vp"][i].tag == i, "recorded history unchanged")
        if st[last]:
            c.check(idx == last, "a stable last iteration is returned")
            return
        if not rank:
            stable = [i for i in range(last + 1) if st[i]]
            start = stable[-1] if stable else max(0, int(np.ceil(last - last * frac)))
            c.check(idx >= start, "only iterations since the last stable one (or the last fraction) count")
            for i in range(start, last + 1):
                c.check(lcb[idx] >= lcb[i], "highest safe lower bound among the candidates")
        else:
            n = last + 1
            tot = []
            for i in range(n):
                t = n - i
                t = t + 1 + sum(1 for j in range(n) if j != i and bool(lcb[j] > lcb[i]))
                t = t + 1 + sum(1 for j in range(n) if j != i and bool(r[j] < r[i]))
                t = t + (1 if st[i] else last)
                tot.append(t)
            c.check(tot[idx] == min(tot), "lowest total rank (recency, lower bound, reliability, stability)")

    return h


def h_default(T):
    """called as optimize() does: documented defaults"""

    def h(c):
        v = make_vbmc(1)
        e = [c.real(f"e{i}", typ=(-5, 5)) for i in range(T)]
        s = [c.real(f"s{i}", sign="+", typ=(0.05, 1)) for i in range(T)]
        record(v, "iter", list(range(T)))
        record(v, "elbo", e)
        record(v, "elbo_sd", s)
        record(v, "r_index", [1.5] * T)
        record(v, "stable", [False] * T)
        record(v, "vp", [VP(i) for i in range(T)])
        vp, elbo, elbo_sd, idx = v.determine_best_vp()
        start = int(np.ceil((T - 1) * 0.75))
        c.check(start <= int(idx) < T, "without a stable iteration the last quarter counts")
        for i in range(start, T):
            c.check(e[int(idx)] - 5 * s[int(idx)] >= e[i] - 5 * s[i], "best lower bound penalised by 5 deviations")

    return h


def h_loop(max_iter):
    """the whole loop: what optimize() returns and reports"""

    def h(c):
        n = 2
        v, vp, res, log = run_loop(
            c, dict(max_iter=max_iter, min_iter=0, max_fun_evals=1000, min_fun_evals=0, tol_stable_count=3 * n, warmup=False, tol_stable_excpt_frac=0.0), n_eval=n,
        )
        H = v.iteration_history
        T = len(log)
        b = int(res["best_iter"])
        c.check(vp.tag == b, "the returned posterior was fitted at the reported iteration")
        c.check_eq(res["elbo"], log[b]["elbo"], "reported lower bound belongs to the best iteration")
        c.check_eq(res["elbo_sd"], log[b]["elbo_sd"], "reported uncertainty belongs to the best iteration")
        c.check_eq(vp.stats["elbo"], log[b]["elbo"], "the returned posterior carries its own lower bound")
        c.check(bool(res["success_flag"]) == bool(H["stable"][b]), "success flag is the stability of the best iteration")
        c.check((res["convergence_status"] == "probable") == bool(H["stable"][b]), "convergence status is the stability of the best iteration")
        if b == 0 or b == 1:
            c.check(bool(res["r_index"] == np.inf), "reported reliability index belongs to the best iteration")
        else:
            c.check_eq(res["r_index"], H["r_index"][b], "reported reliability index belongs to the best iteration")
        for i in range(T):
            c.check(H["vp"][i].tag == i and H["gp"][i].tag == i and H["iter"][i] == i, "the history holds each iteration's own posterior and surrogate")
            c.check_eq(H["elbo"][i], log[i]["elbo"], "recorded lower bound")
            c.check_eq(H["elbo_sd"][i], log[i]["elbo_sd"], "recorded uncertainty")
            c.check(log[i]["kl_of"] == (i, i - 1 if i else None), "divergence compares successive posteriors")
            c.check_eq(H["sKL"][i], c.real(f"k{i}", sign="0+", typ=(0, 0.05)), "recorded divergence")
        # the returned posterior is a copy
        vp.mu[0, 0] = 123.0
        c.check(H["vp"][b] is not vp and v.vp is not vp, "the returned posterior is independent of the run")

    return h


def instances(tier):
    out = []
    for T in (2, 3, 5, 6):
        out.append(Inst(f"default:T{T}", h_default(T), f"{T} iterations", time_s=700))
    out.append(Inst("loop:3", h_loop(3), "3 iterations of optimize()", time_s=800))
    if tier == "thorough":
        out.append(Inst("loop:4", h_loop(4), "4 iterations of optimize()", time_s=6000))
    T_ = [(1, None), (2, None), (3, None), (4, None), (4, 2), (5, None), (3, 0)]
    if tier == "thorough":
        T_ += [(6, None), (6, 4)]
    for T, m in T_:
        out.append(Inst(f"best:T{T}:max{m}", h_best(T, m, False), f"{T} iterations", time_s=700))
    for T, m in [(1, None), (2, None), (3, None), (3, 1)] + ([(4, None), (4, 2)] if tier == "thorough" else []):
        out.append(Inst(f"rank:T{T}:max{m}", h_best(T, m, True), f"{T} iterations", time_s=700 if tier == "quick" else 5000))
    return out
