"""C26: adding or removing components preserves the mixture's invariants."""
from types import SimpleNamespace

import numpy as np
import scipy.optimize

from pyvbmc.vbmc import variational_optimization as vo
from symex.run import Inst

from checks.vpb import make_vp, snap, unchanged

META = dict(assumptions=[
    "D <= 2 variables, up to 3 components (up to 4 requested), 2 to 3 high-density points with distinct values and distinct coordinates (a coordinate without any spread gives a zero scale), fixed means likewise; all parameters, values and random draws",
    "scales are optimised, and fixed means come with an unchanged number of components (the only ways the options reach the code)",
    "optimize_vp: the optimiser, the candidates' objective values and the evaluations (value, variance, per-component terms) are arbitrary; up to 2 optimisations and 3 components, one hyperparameter sample (2 in thorough)",
])


class Opt(dict):
    def eval(self, key, params):
        v = self[key]
        return v(**params) if callable(v) else v


def patched(c, pairs):
    for o, k, f in pairs:
        old = getattr(o, k)
        setattr(o, k, f)
        c.cleanup.append(lambda o=o, k=k, old=old: setattr(o, k, old))


def hpd_points(c, D, N):
    """distinct points, and distinct values with the highest last"""
    np_ = c.np
    X = c.array("x", (N, D), typ=(-1, 1))
    for n in range(1, N):
        X[n, 0] = X[n - 1, 0] + c.real(f"dx{n}", sign="+", typ=(0.3, 1))
        for d in range(1, D):
            c.assume(X[n, d] != X[0, d])
    y = np_.zeros((N, 1))
    best = list(range(N))
    if c.choose("order", [0, 1]):
        best = best[1:] + best[:1]
    t = c.real("y0", typ=(0, 1))
    for n in best:
        y[n, 0] = t
        t = t - c.real(f"dy{n}", sign="+", typ=(0.3, 1))
    return X, y, best


def sane(c, v, D, K, flags):
    np_ = c.np
    c.check(v.K == K and v.D == D, "the requested number of components")
    c.check(v.mu.shape == (D, K), "one mean per component")
    c.check(v.sigma.shape == (1, K) and v.lambd.shape == (D, 1) and v.w.shape == (1, K), "one scale and one weight per component")
    for k in range(K):
        c.check(v.sigma[0, k] > 0, "positive component scales")
        c.check(v.w[0, k] > 0, "positive weights")
    for d in range(D):
        c.check(v.lambd[d, 0] > 0, "positive coordinate scales")
    c.check_eq(np_.sum(v.w), 1, "weights sum to one", tol=1e-7)
    c.check((v.optimize_mu, v.optimize_sigma, v.optimize_lambd, v.optimize_weights) == flags, "the same parameters are optimised")


def flagged(c, D, K, flags):
    v = make_vp(c, D, K)
    v.optimize_mu, v.optimize_sigma, v.optimize_lambd, v.optimize_weights = flags
    return v


def h_init(kind, D, K, K_new, N, n, flags=(True,) * 4):
    def h(c):
        np_ = c.np
        v = flagged(c, D, K, flags)
        if not flags[0] and K > 1:
            for d in range(D):
                c.assume(v.mu[d, 0] != v.mu[d, 1])
        X, y, best = hpd_points(c, D, N)
        s0, X0, y0 = snap(v), X.copy(), y.copy()
        vs, types = vo._vb_init(v, kind, n, K_new, X, y)
        c.check(len(vs) == n and len(types) == n, "the requested number of starting points")
        for i in range(n):
            sane(c, vs[i], D, K_new, flags)
            c.check(types[i] == kind, "every starting point is labelled with its kind")
            c.check(vs[i] is not v, "the current posterior is not handed out")
        unchanged(c, v, s0)
        c.check(v.K == K, "posterior unchanged")
        c.check_eq(X, X0, "points unchanged")
        c.check_eq(y, y0, "values unchanged")
        f = vs[0]
        if not flags[0]:
            c.check_eq(f.mu, s0["mu"], "fixed means stay")
        if not flags[2]:
            c.check_eq(f.lambd, s0["lambd"], "fixed coordinate scales stay")
        if not flags[3]:
            for k in range(K_new):
                c.check_eq(f.w[0, k], c.q(1, K_new), "fixed weights are equal")
        if kind == 1:
            c.check_eq(f.mu[:, :K], s0["mu"], "the first start keeps the current means")
            c.check_eq(f.sigma[:, :K], s0["sigma"], "the first start keeps the current scales")
            c.check_eq(f.lambd, s0["lambd"], "the first start keeps the current coordinate scales")
            if flags[3]:
                if K_new == K:
                    c.check_eq(f.w, s0["w"], "the first start keeps the current weights")
                else:
                    for k in range(K):
                        c.check(f.w[0, k] <= s0["w"][0, k] + 1e-12, "components only give weight away")
                if K_new == K + 1:
                    share = [s0["w"][0, k] - f.w[0, k] for k in range(K)]
                    t = f.w[0, K]
                    for k in range(K):
                        o = sum(share) - share[k]
                        # parent k: gives all of it
                        if c.mode == "sym":
                            c.check((o == 0) | (share[k] == 0), "one parent gives the new component its weight")
                        else:
                            c.check(abs(o) < 1e-9 or abs(share[k]) < 1e-9, "one parent gives the new component its weight")
                    c.check_eq(sum(share), t, "the new component has the weight its parent gave")
                    c.check(t > 0, "the new component has weight")
                    tot = sum((s + 0) for s in share)
                    g = [c.np.abs(s) for s in share]
                    for k in range(K):
                        # the parent keeps at least half of its weight
                        c.check(f.w[0, k] * 2 >= s0["w"][0, k] - 1e-9, "the parent keeps at least half of its weight")
        elif kind == 2:
            m = min(K_new, N)
            if flags[0]:
                for k in range(K_new):
                    c.check_eq(f.mu[:, k], X[best[k % m]], "means at the highest-valued points")
            if flags[2]:
                c.check_eq(np_.sum(f.lambd**2), D, "coordinate scales have unit mean square", tol=1e-6)
                for d in range(D):
                    for e in range(d):
                        vd = sum((X[a, d] - np_.mean(X[:, d])) ** 2 for a in range(N))
                        ve = sum((X[a, e] - np_.mean(X[:, e])) ** 2 for a in range(N))
                        c.check_eq(f.lambd[d, 0] ** 2 * ve, f.lambd[e, 0] ** 2 * vd, "coordinate scales proportional to the points' spread", tol=1e-6)
            if flags[3]:
                for k in range(K_new):
                    c.check_eq(f.w[0, k], c.q(1, K_new), "equal weights")
        # changing one start changes neither the others nor the current one
        ss = [snap(u) for u in vs]
        for name in ("mu", "sigma", "lambd", "w", "eta"):
            a = getattr(vs[0], name)
            a += 1
        for u, s in list(zip(vs, ss))[1:]:
            unchanged(c, u, s, "other starting points")
        unchanged(c, v, s0)

    return h


def h_hidden(kind, D, K, N):
    """fixed means, no draw moves them"""
    return h_init(kind, D, K, K, N, 2, (False, True, True, True))


# ---------------------------------------------------------------- sieve


def h_sieve(K, K_new, N, n, best_N, entropy_switch, default=False, flags=(True,) * 4):
    def h(c):
        np_ = c.np
        D = 1
        v = flagged(c, D, K, flags)
        X, y, best = hpd_points(c, D, N)
        s0 = snap(v)
        opt = Opt(ns_elbo=lambda K: n if K == K_new else 1 / 0, ns_ent=lambda K: 5 * K + 1, ns_ent_fast=lambda K: 2 * K - 1, hpd_frac=1.0, tol_length=1e-6, tol_weight=0.01, tol_con_loss=0.01, weight_penalty=0.1)
        seen = []
        real = vo._vb_init

        def init(vp, t, m, *a, **k):
            r = real(vp, t, m, *a, **k)
            for u in r[0]:
                u._kind = t
            return r

        def obj(theta, gp, vp, beta=0.0, Ns=0, compute_grad=True, compute_var=None, theta_bnd=None, *a, **k):
            vp._f = c.real(f"f{len(seen)}", typ=(-2, 2))
            c.check_eq(theta, vp.get_parameters(), "each candidate is evaluated at its own parameters")
            c.check(beta == 0 and not compute_var, "no confidence term in the sieve")
            seen.append((vp, Ns, theta_bnd))
            return vp._f, None, 0, 0, 0

        patched(c, [(vo, "_vb_init", init), (vo, "_neg_elcbo", obj)])
        gp = SimpleNamespace(X=X, y=y)
        vs, types, beta, cv, ns, nsf = vo._sieve(opt, dict(entropy_switch=entropy_switch), v, gp, None if default else n, best_N, K_new)
        c.check(len(vs) == n and len(types) == n and len(seen) == n, "as many candidates as asked for, each evaluated")
        c.check(sorted(id(u) for u in vs) == sorted(id(u[0]) for u in seen), "the candidates evaluated are the ones returned")
        for i in range(n - 1):
            c.check(vs[i]._f <= vs[i + 1]._f, "best candidates first")
        for i in range(n):
            c.check(types[i] == vs[i]._kind, "each candidate keeps its label")
            sane(c, vs[i], D, K_new, flags)
        if best_N == 1:
            want = [n, 0, 0]
        else:
            m = -(-n // 3)
            want = [m, m, n - 2 * m]
        for t in (1, 2, 3):
            c.check(sum(1 for u in vs if u._kind == t) == want[t - 1], "mix of kinds of candidates")
        off = entropy_switch or K_new == 1
        c.check(ns == (0 if off else -(-(5 * K_new + 1) // K_new)), "entropy samples per component")
        c.check(all(s[1] == (0 if off else -(-(2 * K_new - 1) // K_new)) for s in seen), "entropy samples in the sieve")
        c.check(beta == 0 and not cv, "no confidence weight")
        unchanged(c, v, s0)
        c.check(v.K == K, "posterior unchanged")

    return h


# ---------------------------------------------------------------- optimize_vp


def h_opt(K, slow, ns_ent, Ns, midpoint=False, weights=True, warm=False, full=False, wlow=None):
    """wlow: components whose weight may be below the threshold (others: not)"""

    def h(c):
        np_ = c.np
        D = 1
        flags = (full, full, full, weights)
        if not (full or weights):
            flags = (False, True, False, False)
        cand = []
        for i in range(max(slow, 1)):
            u = make_vp(c, D, K, name=f"c{i}")
            u.optimize_mu, u.optimize_sigma, u.optimize_lambd, u.optimize_weights = flags
            if not full:
                # means mark the components
                u.mu = np_.array([[c.q(10 * (i + 1) + k) for k in range(K)]])
            u._cand = i
            cand.append(u)
        base = make_vp(c, D, K, name="b")
        base.optimize_mu, base.optimize_sigma, base.optimize_lambd, base.optimize_weights = flags
        if warm:
            base.optimize_weights = True
        s0 = snap(base)
        tol_w = c.q(1, 20)
        thr = c.real("thr", sign="+", typ=(0.1, 1))
        mult = c.choose("mult", [1, 2])
        kap = c.real("kap", sign="0+", typ=(0, 2))
        opt = Opt(
            tol_weight=tol_w, tol_improvement=thr, pruning_threshold_multiplier=lambda K_: mult, elcbo_impro_weight=kap,
            ns_ent_fine=lambda K: 4 * K - 1, det_entropy_tol_opt=1e-3, stochastic_optimizer="adam", sgd_step_size=0.005,
            max_iter_stochastic=7, tol_fun_stochastic=1e-3, elcbo_midpoint=midpoint, tol_length=1e-6, tol_con_loss=0.01, weight_penalty=0.1,
        )
        opt["pruning_threshold_multiplier"] = lambda K: mult
        asked = {}

        def sieve(options, st, vp, gp, init_N=None, best_N=1, K=None):
            asked.update(init=init_N, best=best_N, K=K)
            types = np.ones(len(cand)) if best_N == 1 else np.array([1 + (i % 3) for i in range(len(cand))])[::-1].copy()
            return np.array(list(cand)), types, 0, False, ns_ent, ns_ent

        nth = (D * K + K + D if full else 0) + (K if weights else 0) or K
        runs = []

        def theta(name, n=nth):
            t = c.array(name, (n,), typ=(-1, 1))
            if weights and wlow is not None:
                # log-weights relative to the last component, which is the largest
                for k in range(K):
                    t[n - K + k] = np_.log(c.real(f"{name}r{k}", lo=0, hi=c.q(1, 40), strict=True, typ=(0.001, 0.02))) if k in wlow else c.q(0)
            return t

        def minimize(fun, x0, *a, **k):
            n = len(runs)
            r = fun(x0)
            if k.get("jac"):
                c.check(len(r) == 2, "value and gradient")
            t = theta(f"t{n}")
            runs.append((x0, [t]))
            fun(t)
            return SimpleNamespace(success=True, x=t)

        def adam(fun, x0, *a, **k):
            n = len(runs)
            c.check(k.get("max_iter", 7) <= 7, "the configured number of steps")
            ts = [theta(f"t{n}.{j}") for j in range(2)]
            tb = theta(f"t{n}")
            for t in ts:
                fun(t)
            fv = c.array(f"fv{n}", (2,), typ=(-1, 1))
            mid = 0 if fv[0] <= fv[1] else 1
            runs.append((x0, [ts[mid], tb]))
            return tb, c.fresh("fy"), np_.stack(ts, axis=1), fv, 2

        ev, last = [], {}

        def obj(theta, gp, vp, beta=0.0, Ns_=0, compute_grad=True, compute_var=None, theta_bnd=None, alpha=0.0, separate_K=False):
            vp.set_parameters(theta)
            if not separate_K:
                c.check(theta_bnd is not None, "optimisation uses the soft bounds")
                c.check(Ns_ == ns_ent, "entropy samples of the optimisation")
                return c.fresh("F"), theta * 0, c.fresh("G"), c.fresh("H"), 0
            n = len(ev)
            k = vp.K
            c.check(beta == 0 and theta_bnd is None and not compute_grad and compute_var, "evaluation: no penalty, with variance")
            c.check(Ns_ == -(-(4 * k - 1) // k), "entropy samples of the evaluation")
            e = dict(theta=theta.copy(), s=snap(vp), K=k, cand=vp._cand, F=c.real(f"F{n}", typ=(-1, 1)), G=c.real(f"G{n}", typ=(-1, 1)), H=c.real(f"H{n}", typ=(-1, 1)),
                     vF=c.real(f"vF{n}", sign="0+", typ=(0, 0.5)), vG=c.real(f"vG{n}", sign="0+", typ=(0, 0.5)), vH=c.real(f"vH{n}", sign="0+", typ=(0, 0.5)), ss=c.real(f"ss{n}", sign="0+", typ=(0, 1)),
                     I=c.array(f"I{n}", (Ns, k), typ=(-1, 1)), J=c.array(f"J{n}", (Ns, k, k), typ=(-1, 1)))
            ev.append(e)
            return e["F"], None, e["G"], e["H"], e["vF"], None, e["ss"], e["vG"], e["vH"], e["I"], e["J"]

        patched(c, [(vo, "_sieve", sieve), (vo, "_neg_elcbo", obj), (vo, "minimize_adam", adam), (scipy.optimize, "minimize", minimize)])
        X = np_.array([[c.q(-1)], [c.q(2)]])
        gp = SimpleNamespace(X=X, posteriors=np.empty(Ns))
        out, ss, pruned = vo.optimize_vp(opt, dict(warmup=warm, entropy_switch=False), base, gp, 5, slow, None if K == base.K else K)
        c.check(asked == dict(init=5, best=slow, K=K), "the sieve is asked for the configured candidates")
        if warm:
            c.check(base.optimize_weights is False, "weights are not optimised during warm-up")
        unchanged(c, base, s0, "current posterior")
        n_mid = 2 if midpoint and ns_ent else 1
        n0 = n_mid * slow
        c.check(len(runs) == slow and len(ev) >= n0, "every optimisation is run and evaluated")
        for i, (x0, ts) in enumerate(runs):
            es = ev[n_mid * i : n_mid * (i + 1)]
            for t, e in zip(ts[-n_mid:], es):
                c.check_eq(e["theta"], t, "the optimiser's result is evaluated")
        c.check(len({id(x[0]) for x in runs}) == slow, "a different start each time")
        if slow == 2:
            c.check({e["cand"] for e in ev[:n0]} == {0, 1}, "both kinds of starts are used")
        # the best one
        cur = ev[0]
        for e in ev[1:n0]:
            if e["F"] < cur["F"]:
                cur = e
        W = lambda e: [e["s"]["w"][0, k] for k in range(e["K"])]
        comp = list(range(K))
        I, J = cur["I"].copy(), cur["J"].copy()
        checked = set()
        cnt = 0
        elc = lambda e: -e["F"] - kap * np_.sqrt(e["vF"])
        for e in ev[n0:]:
            c.check(weights, "nothing is pruned unless weights are optimised")
            c.check(e["cand"] == cur["cand"] and e["K"] == cur["K"] - 1, "one component is taken out of the best posterior")
            # which one
            if not full:
                left = [int(float(str(m)) if False else round(float(m))) % 10 for m in e["s"]["mu"].ravel()]
                gone = [k for k in comp if k not in left]
                c.check(len(gone) == 1 and left == [k for k in comp if k in left], "exactly one component is left out")
                g = comp.index(gone[0])
            else:
                g = None
                for q in range(cur["K"]):
                    if all(bool(a == b) for a, b in zip(np.delete(cur["s"]["mu"], q, axis=1).ravel(), e["s"]["mu"].ravel())):
                        g = q
                        break
                c.check(g is not None, "exactly one component is left out")
            w = W(cur)
            c.check(w[g] < tol_w, "only components below the weight threshold are considered")
            c.check(comp[g] not in checked, "a component that was kept is not tried again")
            rest = [w[k] for k in range(cur["K"]) if k != g]
            for a, b in zip(W(e), rest):
                c.check_eq(a, b / sum(rest), "the remaining weights are renormalised", tol=1e-6)
            for name in ("sigma", "mu"):
                if name == "sigma":
                    a = np.delete(cur["s"][name] * cur["s"]["lambd"], g, axis=1)
                    b = e["s"][name] * e["s"]["lambd"]
                else:
                    a, b = np.delete(cur["s"][name], g, axis=1), e["s"][name]
                c.check_eq(b, a, f"the remaining components keep their {name}", tol=1e-6)
            d = np_.abs(elc(e) - elc(cur))
            if d < thr * mult:
                cur = e
                I = np.delete(I, g, axis=1)
                J = np.delete(np.delete(J, g, axis=1), g, axis=2)
                comp.pop(g)
                cnt += 1
            else:
                checked.add(comp[g])
        if weights:
            for k, a in zip(comp, W(cur)):
                c.check((a >= tol_w) if k not in checked else True, "every component below the threshold was considered")
        c.check(pruned == cnt, "number of pruned components")
        c.check(out.K == cur["K"] and out.K >= 1, "pruned components are gone, at least one stays")
        for name in ("w", "mu"):
            c.check_eq(getattr(out, name), cur["s"][name], f"the result is the best posterior evaluated ({name})", tol=1e-6)
        c.check_eq(out.sigma * out.lambd, cur["s"]["sigma"] * cur["s"]["lambd"], "the result is the best posterior evaluated (scales)", tol=1e-6)
        c.check_eq(np_.sum(out.w), 1, "weights sum to one", tol=1e-7)
        st = out.stats
        c.check_eq(st["elbo"], -cur["F"], "its own lower bound")
        c.check_eq(st["elbo_sd"], np_.sqrt(cur["vF"]), "its own deviation")
        c.check_eq(st["e_log_joint"], cur["G"], "its own expected log-joint")
        c.check_eq(st["e_log_joint_sd"], np_.sqrt(cur["vG"]), "its own expected log-joint deviation")
        c.check_eq(st["entropy"], cur["H"], "its own entropy")
        c.check_eq(st["entropy_sd"], np_.sqrt(cur["vH"]), "its own entropy deviation")
        c.check_eq(ss, cur["ss"], "its own spread")
        c.check(st["stable"] is False, "not stable until proven")
        c.check(st["I_sk"].shape == I.shape, "per-component terms of the remaining components")
        c.check(st["J_sjk"].shape == J.shape, "pairwise terms of the remaining components")
        c.check_eq(st["I_sk"], I, "per-component terms of the remaining components")
        c.check_eq(st["J_sjk"], J, "pairwise terms of the remaining components")

    return h


def instances(tier):
    out = []
    t = 600 if tier == "quick" else 3000
    th = tier == "thorough"
    fl = {"all": (True,) * 4, "nomu": (False, True, True, True), "nolam": (True, True, False, True), "now": (True, True, True, False)}
    I = [(1, 1, 1, 1, 2, 2, "all"), (1, 1, 2, 3, 2, 2, "all"), (1, 2, 2, 2, 2, 2, "all"), (1, 1, 1, 2, 2, 2, "now"), (1, 1, 2, 2, 2, 2, "nomu"), (1, 1, 1, 3, 2, 1, "all"),
         (2, 1, 1, 1, 2, 2, "all"), (2, 2, 2, 3, 2, 1, "all"), (2, 1, 1, 2, 3, 2, "all"), (2, 2, 2, 2, 2, 2, "nomu"), (2, 1, 2, 3, 3, 1, "nolam"), (2, 1, 2, 2, 2, 2, "now"),
         (3, 1, 1, 1, 2, 2, "all"), (3, 2, 2, 3, 2, 1, "all"), (3, 1, 1, 2, 3, 1, "all"), (3, 2, 2, 2, 2, 1, "nomu"), (3, 1, 2, 3, 3, 1, "nolam"), (3, 1, 2, 2, 2, 2, "now")]
    if th:
        I += [(1, 2, 2, 3, 2, 2, "all"), (1, 1, 3, 4, 2, 1, "all"), (1, 1, 2, 4, 2, 1, "all"), (2, 2, 2, 3, 3, 2, "all"), (2, 1, 3, 4, 2, 2, "all"), (3, 2, 2, 3, 3, 1, "all"), (3, 1, 3, 4, 2, 2, "all"), (3, 2, 3, 3, 3, 1, "nomu"), (2, 2, 3, 3, 3, 1, "now")]
    for kind, D, K, Kn, N, n, f in I:
        out.append(Inst(f"init{kind}:{D}x{K}:{Kn}:N{N}:n{n}:{f}", h_init(kind, D, K, Kn, N, n, fl[f]), f"D={D}, {K} -> {Kn} components, N={N} points, {n} starts", time_s=t))
    S = [(1, 1, 2, 2, 1, False, False), (1, 2, 2, 2, 1, False, True), (1, 2, 2, 4, 2, False, False), (2, 2, 2, 3, 3, True, False), (1, 1, 2, 4, 2, False, False)]
    if th:
        S += [(2, 3, 2, 4, 3, False, True), (1, 2, 3, 5, 2, False, False)]
    for K, Kn, N, n, b, es, df in S:
        out.append(Inst(f"sieve:{K}:{Kn}:N{N}:n{n}:b{b}{':sw' if es else ''}{':def' if df else ''}", h_sieve(K, Kn, N, n, b, es, df), f"D=1, {K} -> {Kn} components, {n} candidates, {b} optimisations", time_s=t))
    O = [(1, 1, 0, 1, {}), (2, 1, 0, 1, dict(wlow=(0,))), (3, 1, 0, 1, dict(wlow=(0, 1))), (3, 1, 3, 1, dict(wlow=(0, 2))), (2, 2, 3, 1, dict(midpoint=True, wlow=())), (2, 1, 0, 1, dict(weights=False)),
         (2, 2, 0, 1, dict(wlow=(1,))), (2, 1, 3, 1, dict(midpoint=True, wlow=(0,))), (2, 1, 0, 1, dict(weights=False, warm=True)), (2, 1, 0, 1, dict(full=True, wlow=(0,))), (2, 1, 0, 1, dict())]
    if th:
        O += [(3, 1, 0, 2, dict(wlow=(0, 1))), (3, 2, 3, 1, dict(midpoint=True, wlow=(1,))), (3, 3, 0, 1, dict(wlow=(2,))), (4, 1, 0, 1, dict(wlow=(0, 1, 3)))]
    for K, slow, ns, Ns, kw in O:
        tag = ":".join(f"{k}={v}" for k, v in kw.items()).replace(" ", "")
        out.append(Inst(f"opt:{K}:{slow}:{ns}:{Ns}:{tag}", h_opt(K, slow, ns, Ns, **kw), f"K={K}, {slow} optimisations", time_s=t))
    return out
