"""C27: the surrogate is trained on exactly the recorded evaluations, with the right noise."""
from types import SimpleNamespace

import gpyreg as gpr
import numpy as np

from pyvbmc.function_logger import FunctionLogger
from pyvbmc.vbmc import gaussian_process_train as gt
from pyvbmc.vbmc.iteration_history import IterationHistory
from symex.run import Inst

from checks.c05 import make_transformer
from checks.c26 import Opt, patched

META = dict(assumptions=[
    "records of up to 4 evaluations (fresh, added and repeated points; arbitrary values, noise and discarded rows), D <= 2",
    "the fit itself (gpyreg's fit, update and default bounds) is replaced by arbitrary results; what reaches it is checked",
    "hyperparameter covariance: up to 3 earlier iterations with 1-2 samples of 2 hyperparameters; fun_evals_per_iter = 2",
    "training options: any effective count between the starting design and the maximum, any reliability index, up to 3 iterations",
])


def logger(c, D, n, noise, kind, dup=False, cache=2):
    """a record of n distinct points (plus one repeated), some discarded;
    returns it and the surviving entries (x, y with jacobian, s)"""
    np_ = c.np
    t = make_transformer(c, D, kind)
    k = [0]

    def fun(x):
        y = c.real(f"y{k[0]}", typ=(-5, 5))
        if noise:
            return y, c.real(f"s{k[0]}", sign="+", typ=(0.3, 2))
        return y

    fl = FunctionLogger(fun, D, noise, 2 if noise else 0, cache, t)
    ref = []
    first = c.array("x0", (D,), typ=(-1, 1))
    for i in range(n):
        k[0] = i
        x = first.copy()
        if i:
            x[0] = x[0] + sum(c.real(f"d{j}", sign="+", typ=(0.2, 1)) for j in range(1, i + 1))
        if i % 2:
            # an earlier result handed in by the user
            y = fun(x)
            if noise:
                fl.add(x.copy(), y[0], y[1])
            else:
                fl.add(x.copy(), y)
            lj = t.log_abs_det_jacobian(x.reshape((1, D)))[0] if t is not None else 0
            y, s = (y if noise else (y, None))
            ref.append((x, y + (lj if t is not None else 0), s))
        else:
            fl(x.copy())
            lj = t.log_abs_det_jacobian(x.reshape((1, D)))[0] if t is not None else 0
            s = c.real(f"s{i}", sign="+", typ=(0.3, 2)) if noise else None
            ref.append((x, c.real(f"y{i}", typ=(-5, 5)) + lj, s))
    if dup:
        k[0] = n
        fl(first.copy())
        lj = t.log_abs_det_jacobian(first.reshape((1, D)))[0] if t is not None else 0
        y, s = c.real(f"y{n}", typ=(-5, 5)) + lj, None
        if noise:
            s = c.real(f"s{n}", sign="+", typ=(0.3, 2))
            a, b = 1 / ref[0][2] ** 2, 1 / s**2
            ref[0] = (first, (a * ref[0][1] + b * y) / (a + b), 1 / np_.sqrt(a + b))
        else:
            ref[0] = (first, (ref[0][1] + y) / 2, None)
    keep = []
    for i in range(n):
        if c.choose(f"keep{i}", [True, False]):
            keep.append(ref[i])
        else:
            fl.X_flag[i] = False
    return fl, keep


def check_data(c, X, y, s2, keep, D, noise, what):
    n = len(keep)
    c.check(X.shape == (n, D) and y.shape == (n, 1), f"{what}: exactly the recorded points that were not discarded")
    for i, (x, v, s) in enumerate(keep):
        c.check_eq(X[i], x, f"{what}: the recorded points", tol=1e-7)
        c.check_eq(y[i, 0], v, f"{what}: the recorded values", tol=1e-7)
        if noise:
            c.check_eq(s2[i, 0], s**2, f"{what}: the recorded noise variance", tol=1e-7)
    if noise:
        c.check(s2.shape == (n, 1), f"{what}: one noise variance per point")
    else:
        c.check(s2 is None, f"{what}: no noise for an exact target")


def h_data(D, n, noise, kind, dup):
    def h(c):
        fl, keep = logger(c, D, n, noise, kind, dup)
        X0, y0 = fl.X.copy(), fl.y.copy()
        X, y, s2, t = gt._get_training_data(fl)
        check_data(c, X, y, s2, keep, D, noise, "training set")
        c.check(len(t) == len(keep), "one time per point")
        X += 1
        y += 1
        if s2 is not None:
            s2 += 1
        m = n
        c.check_eq(fl.X[:m], X0[:m], "changing the training set leaves the record alone")
        c.check_eq(fl.y[:m], y0[:m], "changing the training set leaves the record alone")
        g = SimpleNamespace(X=None, y=None, s2=c.q(1), ups=[])

        def update(**k):
            g.ups.append((g.X.copy(), g.y.copy(), None if g.s2 is None else g.s2.copy(), k))

        g.update = update
        r = gt.reupdate_gp(fl, g)
        c.check(r is g and len(g.ups) == 1 and g.ups[0][3].get("compute_posterior", True), "the surrogate is updated once, with its posterior")
        check_data(c, g.ups[0][0], g.ups[0][1], g.ups[0][2], keep, D, noise, "updated surrogate")

    return h


# ----------------------------------------------------------- covariance


def h_hypcov(counts, H, tol, disc=False):
    """counts: samples recorded per iteration"""

    def h(c):
        np_ = c.np
        T = len(counts)
        it = IterationHistory(["sKL", "gp_hyp_full", "r_index"])
        hy = []
        for i, n in enumerate(counts):
            a = c.array(f"h{i}", (n, H), typ=(-1, 1))
            hy.append(a.copy())
            it.record("gp_hyp_full", a, i)
        rate = c.real("rate", lo=0, hi=1, strict=True, typ=(0.3, 0.9)) if disc else c.q(9, 10)
        per = 2
        tolk = c.q(1, 100)
        tc = c.real("tc", lo=0, hi=1, typ=(0, 0.3)) if tol else 0
        big = []
        for i in range(T):
            # logarithm of the change in units of the tolerance
            b = bool(disc and i and c.choose(f"moving{i}", [False, True]))
            L = c.real(f"L{i}", lo=-5, hi=1, typ=(-5, 1)) if not b else c.real(f"L{i}b", lo=1, hi=4, strict=True, typ=(1.1, 3))
            big.append(L if b else 1)
            it.record("sKL", tolk / per * np_.exp(L), i)
        opt = Opt(weighted_hyp_cov=True, tol_skl=tolk, fun_evals_per_iter=per, hyp_run_weight=rate, tol_cov_weight=tc)
        C = gt._get_hyp_cov(dict(iter=T), it, opt, dict(run_cov=None))
        rows, ws = [], []
        w = c.q(1)
        for i in range(T):
            j = T - 1 - i
            if i:
                w = w * rate ** (per * big[T - i])
            if tol and not (w >= tc):
                break
            for s in range(counts[j]):
                rows.append(hy[j][s])
                ws.append(w / counts[j])
        if len(rows) == 1:
            c.check(C is None or not np_.any(np_.isnan(C)), "no covariance from one sample")
            return
        tot = sum(ws)
        ws = [a / tot for a in ws]
        mu = [sum(a * r[q] for a, r in zip(ws, rows)) for q in range(H)]
        den = 1 - sum(a**2 for a in ws)
        c.check(C is not None and C.shape == (H, H), "one row and column per hyperparameter")
        for p in range(H):
            for q in range(H):
                v = sum(a * (r[p] - mu[p]) * (r[q] - mu[q]) for a, r in zip(ws, rows))
                c.check_eq(C[p, q] * den, v, "weighted covariance of the earlier samples", tol=1e-6)

    return h


def h_runcov(c):
    x = c.array("rc", (2, 2), typ=(-1, 1))
    C = gt._get_hyp_cov(dict(iter=1), None, Opt(weighted_hyp_cov=False), dict(run_cov=x))
    c.check_eq(C, x, "running covariance when the weighted one is off")
    c.check(gt._get_hyp_cov(dict(iter=0), None, Opt(weighted_hyp_cov=True), dict(run_cov=x)) is None, "no covariance before the first iteration")


# -------------------------------------------------------------- options


def h_options(sampler, it_, recompute, ns, beyond=False):
    def h(c):
        np_ = c.np
        n0, nf = c.choose("n_init", [(1024, 64), (100, 3)])
        if beyond:
            F = c.real("F", sign="+", typ=(5, 20))
            M = c.real("M", sign="+", typ=(100, 2000))
            c.assume(F < M)
            c.assume(F < 1000)
        else:
            F, M = c.q(10), c.choose("M", [50, 2000])
        top = np_.minimum(M, 1000)
        u = c.real("u", lo=0, hi=1, typ=(0, 1))
        n_eff = F + u * (top - F)
        thin = c.int("thin", 1, 10)
        gw = c.real("gw", lo=0, hi=10, typ=(0, 6))
        r = c.real("r", sign="0+", typ=(0, 10))
        thr = c.real("thr", sign="0+", typ=(0.5, 2))
        it = IterationHistory(["r_index", "sKL", "gp_hyp_full"])
        for i in range(it_):
            it.record("r_index", r if i == it_ - 1 else c.real(f"q{i}", sign="0+", typ=(0, 3)), i)
        cov = c.choose("cov", [True, False])
        v = [c.real(f"cv{i}", sign="0+", typ=(0, 1)) for i in range(2)]
        C = np_.array([[v[0], c.q(0)], [c.q(0), v[1]]]) if cov else None
        opt = Opt(gp_sample_thin=thin, gp_train_init_method="rand", gp_tol_opt=1e-5, gp_tol_opt_mcmc=1e-2, gp_hyp_sampler=sampler, gp_sample_widths=gw,
                  cov_sample_thresh=c.real("cst", sign="0+", typ=(1, 10)), gp_train_n_init=n0, gp_train_n_init_final=nf, fun_eval_start=F, max_fun_evals=M,
                  gp_retrain_threshold=thr, weighted_hyp_cov=False, fun_evals_per_iter=5)
        st = dict(iter=it_, n_eff=n_eff, recompute_var_post=recompute)
        s = gt._get_gp_training_options(st, it, opt, dict(run_cov=C), ns)
        c.check(s["n_samples"] == ns, "number of hyperparameter samples")
        c.check(s["init_method"] == "rand" and s["tol_opt"] == 1e-5 and s["tol_opt_mcmc"] == 1e-2, "configured method and tolerances")
        skip = it_ > 1 and not recompute and bool(r < thr)
        c.check_eq(s["thin"], thin, "configured thinning")
        c.check(s["burn"] == (thin * ns if recompute else thin * 3), "burn-in")
        if skip:
            c.check(s["init_N"] == 0, "no fresh starting points when the solution is stable")
            c.check(s["opts_N"] == (0 if ns > 0 else 1), "number of optimisations when the solution is stable")
        else:
            a = n0 - nf
            # cubic from the initial to the final number of points
            f = nf + a * (1 - u) ** 3
            g = np_.maximum(f, 9)
            c.check(np_.abs(s["init_N"] - g) <= c.q(1, 2) + c.q(1, 10**6), "number of fresh starting points follows the schedule")
            c.check(s["opts_N"] == (1 if ns > 0 else 2), "number of optimisations")
        w = s["widths"]
        use = cov and it_ > 0 and bool(gw > 0)
        mult = np_.maximum(gw, r) if it_ else None
        if sampler == "slicesample" or (sampler == "laplace" and bool(n_eff < 30)):
            c.check(s["sampler"] == "slicesample", "sampler")
            if use:
                for i in range(2):
                    c.check_eq(w[i], np_.maximum(np_.sqrt(v[i]), c.q(1, 1000)) * mult, "slice widths: deviations of the earlier samples times the larger of the factor and the reliability index")
            else:
                c.check(w is None, "default widths")
        else:
            c.check(s["sampler"] == sampler, "sampler")

    return h


# ---------------------------------------------------------------- noise


def h_noise(N, Ns, user, spread):
    def h(c):
        np_ = c.np
        X = c.array("X", (N, 1), typ=(-1, 1))
        if N <= 3:
            y = c.array("y", (N, 1), typ=(-1, 1))
        else:
            y = np_.zeros((N, 1))
            t = c.real("yt", typ=(0, 1))
            for n in range(N):
                y[n, 0] = t
                t = t + c.real(f"dy{n}", sign="+", typ=(0.1, 1)) * (-1 if spread else 1)
        s2 = c.array("s2", (N, 1), sign="+", typ=(0.1, 1)) if user else None
        noise = gpr.noise_functions.GaussianNoise(constant_add=True, user_provided_add=user)
        sd = [c.real(f"sn{s}", sign="+", typ=(0.1, 1)) for s in range(Ns)]
        cv = gpr.covariance_functions.SquaredExponential()
        post = np.empty((Ns,), dtype=object)
        for s in range(Ns):
            post[s] = SimpleNamespace(hyp=np_.array([c.real(f"j{s}", typ=(-1, 1)), c.real(f"k{s}", typ=(-1, 1)), np_.log(sd[s])]))
        gp = SimpleNamespace(X=X, y=y, s2=s2, D=1, covariance=cv, noise=noise, posteriors=post)
        e = gt._estimate_noise(gp)
        m = sum(a**2 for a in sd) / Ns
        if not user:
            c.check_eq(e, m, "average noise variance")
            return
        k = -(-N // 5)
        if k == 1:
            # the highest point
            for n in range(N):
                top = True
                for q in range(N):
                    if q != n and not bool(y[n, 0] > y[q, 0]):
                        top = False
                        break
                if top:
                    c.check_eq(e, m + s2[n, 0], "noise variance at the highest point")
        else:
            top = list(range(k)) if spread else list(range(N - k, N))
            c.check_eq(e, m + (s2[top[0], 0] + s2[top[1], 0]) / 2, "median noise variance of the highest points")

    return h


# ---------------------------------------------------------------- train


def h_train(D, n, noise, level, hist, sk):
    """sk: sampling state ('on', 'stopped', 'points', 'components')"""

    def h(c):
        np_ = c.np
        fl, keep = logger(c, D, n, noise, "id", False)
        if len(keep) < (n if hist else 2):
            return
        made = []
        hyp_n = {"zero": 0, "const": 1, "negquad": 1 + 2 * D}["negquad"] + D + 2
        arb = lambda nm, m: c.array(nm, (m,), typ=(-1, 1))
        plb = c.array("plb", (1, D), typ=(-2, -1))
        pub = plb + c.array("pw", (1, D), sign="+", typ=(1, 3))
        seen = {}

        class GP:
            def __init__(self, D, covariance, mean, noise):
                made.append(self)
                self.D, self.covariance, self.mean, self.noise = D, covariance, mean, noise
                self.hyper_priors = {"mu": np.zeros(hyp_n)}
                for o, m, nm in ((covariance, D + 1, "cov"), (noise, 1, "noi"), (mean, 1 + 2 * D, "mea")):
                    def info(X, y, m=m, nm=nm):
                        seen[nm] = (X, y)
                        return dict(LB=arb(nm + "LB", m), UB=arb(nm + "UB", m), x0=arb(nm + "x0", m))
                    o.get_bounds_info = info

            def get_bounds(self):
                return {}

            def get_priors(self):
                return {}

            def set_bounds(self, b):
                self.bounds = b

            def set_priors(self, p):
                self.priors = p

            def fit(self, X, y, s2, hyp0=None, options=None):
                self.fit_args = (X.copy(), y.copy(), None if s2 is None else s2.copy(), None if hyp0 is None else hyp0.copy(), options)
                self.X, self.y, self.s2 = X, y, s2
                self.posteriors = np.empty((1,), dtype=object)
                self.posteriors[0] = SimpleNamespace(hyp=arb("post", hyp_n))
                self.res = dict(samples=arb("smp", 2 * hyp_n).reshape((2, hyp_n)), log_priors=arb("lp", 2)) if hist != 1 else None
                return arb("fit", hyp_n).reshape((1, hyp_n)), None, self.res

        patched(c, [(gpr, "GP", GP)])
        tn = c.real("tn", sign="+", typ=(1e-3, 1e-2))
        nsz = c.choose("noise_size", [[], 0.5]) if not noise and not hist else []
        N = c.choose("N", [4, 9]) if not hist else 9
        nmax, nw, nm_ = [c.real(k, sign="+", typ=(4, 60)) for k in ("nmax", "nw", "nm")]
        warm = c.choose("warm", [True, False])
        lf = c.choose("lf", [0, 2]) if not hist else 0
        gm, gs = c.real("gm", sign="+", typ=(0.1, 1)), c.real("gs", sign="+", typ=(0.1, 1))
        K = 7
        opt = Opt(
            hpd_frac=1.0, tol_gp_noise=tn, noise_size=nsz, upper_gp_length_factor=lf, gp_quadratic_mean_bound=True, tol_sd=c.q(1, 10), gp_length_prior_mean=gm, gp_length_prior_std=gs,
            ns_gp_max=nmax, ns_gp_max_warmup=nw, ns_gp_max_main=nm_, stable_gp_sampling=N if sk == "points" else 100, stable_gp_vp_k=K if sk == "components" else 100, stable_gp_samples=2 if sk == "components" else 0,
            gp_sample_thin=5, gp_train_init_method="rand", gp_tol_opt=1e-5, gp_tol_opt_mcmc=1e-2, gp_hyp_sampler="slicesample", gp_sample_widths=5,
            gp_train_n_init=64, gp_train_n_init_final=16, fun_eval_start=10, max_fun_evals=100, gp_retrain_threshold=1, weighted_hyp_cov=False, hyp_run_weight=c.q(9, 10), fun_evals_per_iter=2,
        )
        st = dict(gp_mean_fun="negquad", gp_cov_fun=1, gp_noise_fun=[1, level, 0], uncertainty_handling_level=2 if noise else 0, stop_sampling=3 if sk == "stopped" else 0,
                  warmup=warm, N=N, vp_K=K, iter=0 if hist == 0 else 1, n_eff=10, recompute_var_post=True)
        it = IterationHistory(["r_index", "sKL", "gp_hyp_full", "gp"])
        hd = {}
        prev = []
        oldcov = None
        if hist:
            it.record("r_index", c.real("r", sign="0+", typ=(0, 3)), 0)
            old = arb("old", hyp_n)
            rows = c.array("prev", (2, hyp_n), typ=(-1, 1))
            # told apart by their first entry
            rows[0, 0], rows[1, 0] = c.q(1), c.q(-1)
            old[0] = c.choose("old", [c.q(0), c.q(-1)])
            if bool(old[0] == -1):
                old = rows[1].copy()
            prev = [rows[0].copy(), rows[1].copy()]
            it.record("gp", SimpleNamespace(get_hyperparameters=lambda as_array=False: rows.copy(), __deepcopy__=None), 0)
            oldcov = None
            if hist == 2:
                oldcov = np_.zeros((hyp_n, hyp_n)) + c.q(1, 2)
            hd = dict(hyp=old.reshape((1, hyp_n)), run_cov=oldcov)
            prev.append(old.copy())
        X0, y0 = fl.X.copy(), fl.y.copy()
        gp, s_N, sn2, hd2 = gt.train_gp(hd, st, fl, it, opt, plb, pub)
        c.check(len(made) == 1 and gp is made[0], "the surrogate that was trained is returned")
        X, y, s2, hyp0, o = gp.fit_args
        check_data(c, X, y, s2, keep, D, noise, "training")
        c.check_eq(fl.X[:n], X0[:n], "record unchanged")
        c.check_eq(fl.y[:n], y0[:n], "record unchanged")
        # number of samples
        if sk == "on":
            want = np_.minimum(nmax / c.np.sqrt(c.q(N)), nw if warm else nm_)
            c.check(np_.abs(s_N - want) <= c.q(1, 2) + c.q(1, 10**6), "number of hyperparameter samples")
        else:
            c.check(s_N == (2 if sk == "components" else 0), "hyperparameter sampling stops when configured")
        c.check(o["n_samples"] == s_N, "the fit is asked for that many samples")
        c.check(o["opts_N"] == (1 if bool(s_N > 0) else 2), "number of optimisations")
        # model
        c.check(type(gp.mean) is gpr.mean_functions.NegativeQuadratic and type(gp.covariance) is gpr.covariance_functions.SquaredExponential, "mean and covariance functions")
        c.check(list(gp.noise.parameters) == list(gpr.noise_functions.GaussianNoise(constant_add=True, user_provided_add=level == 1, scale_user_provided=level == 2).parameters), "noise model")
        size = np_.maximum(c.q(1, 2), tn) if (not noise and nsz != []) else tn
        b = gp.bounds
        c.check_eq(b["noise_log_scale"][0], np_.log(tn), "smallest noise")
        p = gp.priors["noise_log_scale"]
        c.check_eq(p[1][0], np_.log(size), "prior of the noise at the configured size")
        p = gp.priors["covariance_log_lengthscale"]
        for d in range(D):
            c.check_eq(np.ravel(p[1][0])[d] if c.mode == "con" else p[1][0].ravel()[d], np_.log(gm * (pub[0, d] - plb[0, d])), "prior of the length scales from the plausible box")
        c.check_eq(p[1][1], gs, "prior of the length scales: width")
        ub = b["covariance_log_lengthscale"][1]
        if lf:
            for d in range(D):
                u = ub.ravel()[d] if hasattr(ub, "ravel") else ub
                c.check_eq(u, np_.log(lf * (pub[0, d] - plb[0, d])), "largest length scale as configured")
        # starting points
        if hist == 0:
            prev = [np_.concatenate([arb("covx0", D + 1), np_.array([np_.log(size)]), arb("meax0", 1 + 2 * D)])]
        c.check(hyp0 is not None and hyp0.shape[1] == hyp_n and 1 <= hyp0.shape[0] <= len(prev), "starting points for the fit")
        if hist == 0:
            c.check_eq(hyp0[0], prev[0], "the first fit starts from the defaults")
        else:
            last = False
            for i in range(hyp0.shape[0]):
                known = False
                for q in prev:
                    known = known | c.np.all(hyp0[i] == q)
                c.check(known, "every start is an earlier set of hyperparameters")
                last = last | c.np.all(hyp0[i] == prev[-1])
            c.check(last, "the current hyperparameters are among the starts")
        c.check_eq(hd2["hyp"], arb("fit", hyp_n).reshape((1, hyp_n)), "the fitted hyperparameters are kept")
        if gp.res is not None:
            c.check_eq(hd2["full"], gp.res["samples"], "the samples are kept")
            S = gp.res["samples"]
            for a in range(0, hyp_n, 3):
                for e in range(0, hyp_n, 2):
                    cv = (S[0, a] - S[1, a]) * (S[0, e] - S[1, e]) / 2
                    if oldcov is not None:
                        w = c.q(81, 100)
                        cv = (1 - w) * cv + w * c.q(1, 2)
                    c.check_eq(hd2["run_cov"][a, e], cv, "running covariance of the samples", tol=1e-6)
        # noise estimate
        k = gp.posteriors[0].hyp[D + 1]
        if level == 0:
            c.check_eq(sn2, np_.exp(2 * k), "noise variance at high density")

    return h


def instances(tier):
    out = []
    t = 600 if tier == "quick" else 3000
    th = tier == "thorough"
    for D, n, noise, kind, dup in [(1, 2, False, "id", False), (1, 3, True, "id", True), (2, 2, True, "none", False), (1, 2, False, "probit", True), (2, 2, False, "id", True), (1, 2, True, "probit", False)] + ([(2, 4, True, "id", True), (1, 3, True, "probit", True)] if th else []):
        out.append(Inst(f"data:{D}:{n}{'n' if noise else ''}:{kind}{':dup' if dup else ''}", h_data(D, n, noise, kind, dup), f"D={D}, {n} points", time_s=t))
    for counts, H, tol, disc in [((2,), 2, False, False), ((1, 2), 2, False, False), ((2, 2), 2, True, False), ((1,), 2, False, False), ((1, 1, 1), 1, False, False), ((2, 1), 3, False, False), ((1, 2), 1, False, True)] + ([((2, 2, 2), 2, True, False), ((2, 1, 2), 3, False, False), ((1, 1, 1), 1, False, True), ((1, 1), 2, True, True)] if th else []):
        out.append(Inst(f"cov:{'-'.join(map(str, counts))}:{H}{':tol' if tol else ''}{':rate' if disc else ''}", h_hypcov(counts, H, tol, disc), f"{len(counts)} iterations, {H} hyperparameters", time_s=t))
    out.append(Inst("cov:run", h_runcov, "2 hyperparameters", time_s=t))
    for s, i, r, ns in [("slicesample", 0, False, 9), ("slicesample", 0, False, 8), ("slicesample", 1, False, 8), ("slicesample", 2, False, 8), ("slicesample", 2, False, 0), ("slicesample", 2, True, 8), ("slicesample", 3, True, 0), ("laplace", 2, False, 4), ("npv", 2, False, 4), ("splitsample", 1, False, 3)]:
        out.append(Inst(f"opts:{s}:{i}{':re' if r else ''}:{ns}", h_options(s, i, r, ns, ns == 9), f"iteration {i}, {ns} samples", time_s=t))
    for N, Ns, u, sp in [(1, 1, True, False), (3, 2, True, False), (6, 1, True, False), (7, 2, True, True), (3, 1, False, False)] + ([(9, 2, True, True)] if th else []):
        out.append(Inst(f"noise:{N}:{Ns}{':user' if u else ''}{':desc' if sp else ''}", h_noise(N, Ns, u, sp), f"N={N}, {Ns} samples", time_s=t))
    for D, n, noise, lev, hist, sk in [(1, 2, False, 0, 0, "on"), (1, 2, True, 1, 0, "stopped"), (2, 2, False, 0, 0, "points"), (1, 2, False, 0, 1, "components"), (1, 2, True, 1, 2, "on"), (1, 3, True, 2, 0, "on")] + ([(2, 3, True, 1, 2, "points"), (2, 3, False, 0, 1, "on")] if th else []):
        out.append(Inst(f"train:{D}:{n}{'n' if noise else ''}:{lev}:h{hist}:{sk}", h_train(D, n, noise, lev, hist, sk), f"D={D}, {n} points", time_s=t))
    return out
