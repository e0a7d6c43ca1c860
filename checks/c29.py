"""C29: importance weights are normalised and follow their definition."""
import sys

import gpyreg as gpr
import numpy as np

from pyvbmc.acquisition_functions import AcqFcnIMIQR, AcqFcnVIQR
from pyvbmc.vbmc import VBMC  # noqa: F401  (loads the module below)
from pyvbmc.variational_posterior import VariationalPosterior
from symex.run import Inst

from checks.gpx import make_gp, solveK
from checks.vpb import make_vp, snap, unchanged

AIS = sys.modules["pyvbmc.vbmc.active_importance_sampling"]
REALMIN = sys.float_info.min

META = dict(assumptions=[
    "D <= 2 variables, 1-2 training points, up to 2 hyperparameter samples, up to 3 importance points; all points, predictive moments, densities, weights and hyperparameters",
    "the surrogate's prediction is an arbitrary function of the point; the kernel is the squared exponential; posterior draws are arbitrary points",
    "the slice sampler is gpyreg's: its output is an arbitrary set of points with arbitrary recorded densities",
])


class GPStub(gpr.GP):
    """fitted surrogate: real kernel and posterior quantities, arbitrary
    predictions (one function per hyperparameter sample)"""

    def __init__(self, c, base):
        self.__dict__.update(base.__dict__)
        self.c = c

    def __deepcopy__(self, memo):
        g = GPStub.__new__(GPStub)
        g.__dict__.update(self.__dict__)
        g.posteriors = self.posteriors.copy()
        g.X, g.y = self.X.copy(), self.y.copy()
        return g

    def moments_at(self, p, x):
        c = self.c
        return c.uf(f"fmu{p.number}", x), c.uf(f"fs{p.number}", x) ** 2 + c.q(1, 10)

    def predict(self, X, y=None, s2=None, separate_samples=False, add_noise=False, **k):
        np_ = self.c.np
        N, S = X.shape[0], len(self.posteriors)
        m, v = np_.zeros((N, S)), np_.zeros((N, S))
        for i in range(N):
            for s, p in enumerate(self.posteriors):
                m[i, s], v[i, s] = self.moments_at(p, [X[i, d] for d in range(self.D)])
        if not separate_samples:
            a = np_.reshape(np_.mean(m, axis=1), (N, 1))
            return a, (v if S == 1 else None)
        return m, v


def gp_stub(c, D, N, Ns, chol=True):
    base = make_gp(c, D, N, Ns, "const", chol)
    for s, p in enumerate(base.posteriors):
        p.number = s
    return GPStub(c, base)


class VPStub:
    def __init__(self, c, D):
        self.c, self.D, self.draws = c, D, []

    def dens(self, x):
        return self.c.uf("q", x) ** 2 + self.c.q(1, 100)

    def pdf(self, X, orig_flag=True, log_flag=False, **k):
        np_ = self.c.np
        assert not orig_flag, "density in the inference space"
        p = np_.zeros((X.shape[0], 1))
        for i in range(X.shape[0]):
            p[i, 0] = self.dens([X[i, d] for d in range(self.D)])
        return np_.log(p) if log_flag else p

    def sample(self, N, orig_flag=True, balance_flag=False, df=np.inf):
        assert not orig_flag, "draws in the inference space"
        self.draws.append(N)
        return self.c.array("draw", (N, self.D), typ=(-2, 2)), np.zeros(N, dtype=int)


def point(X, i):
    return [X[i, d] for d in range(X.shape[1])]


def h_fess(D, N, Ns, how):
    """Kish's effective sample size of the ratios exp(mean) / density."""

    def h(c):
        np_ = c.np
        vp = VPStub(c, D)
        if how == "means":
            X = c.array("draw", (N, D), typ=(-2, 2))
            F = c.array("F", (N, Ns), typ=(-2, 2))
            k = X.copy(), F.copy()
            r = AIS.fess(vp, F, X)
            c.check_eq(X, k[0], "points unchanged")
            c.check_eq(F, k[1], "means unchanged")
            fb = [sum((F[i, s] for s in range(1, Ns)), F[i, 0]) / Ns for i in range(N)]
        else:
            gp = gp_stub(c, D, 1, Ns)
            X = c.array("draw", (N, D), typ=(-2, 2))
            r = AIS.fess(vp, gp, N if how == "draw" else X.copy())
            c.check(vp.draws == ([N] if how == "draw" else []), "draws only when a number is given")
            fb = []
            for i in range(N):
                m = [gp.moments_at(p, point(X, i))[0] for p in gp.posteriors]
                fb.append(sum(m[1:], m[0]) / Ns)
        w = [np_.exp(fb[i]) / vp.dens(point(X, i)) for i in range(N)]
        s1, s2 = sum(w[1:], w[0]), sum((a * a for a in w[1:]), w[0] * w[0])
        c.check_eq(r * N * s2, s1 * s1, "effective sample size over the number of points", tol=1e-6)
        c.check(r > 0, "positive")
        if N <= 2:
            c.check(r <= 1 + 1e-9, "at most one")

    return h


def h_fess_args(c):
    vp = VPStub(c, 1)
    try:
        AIS.fess(vp, c.array("F", (3, 1)), c.array("X", (2, 1)))
    except ValueError:
        return
    c.fail("accepts a mismatch of means and points")


def h_norm(Ns, Na, dead):
    """Renormalising: weights sum to one, ratios unchanged, zero stays zero."""

    def h(c):
        np_ = c.np
        L = c.array("lw", (Ns, Na), typ=(-2, 2))
        out = c.choose("dead", dead)
        for s, i in out:
            L[s, i] = -np.inf
        k = L.copy()
        r = AIS.renormalize_weights(L)
        c.check(r.shape == (Ns, Na), "shape")
        live = [(s, i) for s in range(Ns) for i in range(Na) if (s, i) not in out]
        tot = c.q(0)
        for s, i in live:
            tot = tot + np_.exp(r[s, i])
            c.check_eq(r[s, i] - r[live[0]], k[s, i] - k[live[0]], "ratios unchanged")
        c.check_eq(tot, 1, "weights sum to one", tol=1e-7)
        for s, i in out:
            c.check(bool(r[s, i] == -np.inf), "zero weight stays zero")

    return h


def inside(x, y, h, D):
    ok = True
    for d in range(D):
        ok = ok and bool(abs(x[d] - y[d]) < h[d])
    return ok


def h_proposal(D, N, Na, Ns, wkind):
    """Weights of the mixture proposal: base density over proposal density."""

    def h(c):
        np_ = c.np
        vp, gp = VPStub(c, D), gp_stub(c, D, N, Ns)
        X = c.array("Xa", (Na, D), typ=(-2, 2))
        rect = c.array("rect", (D,), sign="+", typ=(0.5, 2))
        w = {"none": 0, "all": 1}.get(wkind)
        if w is None:
            w = c.real("wvp", typ=(0.2, 0.8))
            c.assume(w > 0)
            c.assume(w < 1)
        f = AcqFcnIMIQR()
        kX, kg = X.copy(), gp.X.copy()
        dens = []
        VV = 1
        for d in range(D):
            VV = VV * 2 * rect[d]
        for i in range(Na):
            x = point(kX, i)
            hit = sum(1 for n in range(N) if inside(x, point(kg, n), rect, D)) if wkind != "all" else 0
            dens.append(w * vp.dens(x) + (1 - w) * hit / VV / N if wkind != "none" else c.q(hit, N) / VV)
        try:
            lw, fs2 = AIS.active_sample_proposal_pdf(X, gp, vp if wkind != "none" else None, w, rect, f)
        except ValueError:
            c.check(wkind == "none" and any(not bool(q > 0) for q in dens), "refuses only points the proposal cannot produce")
            return
        c.check(lw.shape == (Na, Ns) and fs2.shape == (Na, Ns), "one weight per point and hyperparameter sample")
        c.check_eq(X, kX, "points unchanged")
        c.check_eq(gp.X, kg, "training points unchanged")
        for i in range(Na):
            for s in range(Ns):
                m, v = gp.moments_at(gp.posteriors[s], point(kX, i))
                c.check_eq(np_.exp(lw[i, s]) * dens[i], np_.exp(m), "base density over proposal density", tol=1e-6)
                c.check_eq(fs2[i, s], v, "predictive variance at the points")

    return h


class Opt(dict):
    def eval(self, key, params):
        v = self[key]
        return v(**params) if callable(v) else v


def kern(c, p, a, b, D):
    np_ = c.np
    q = c.q(0)
    for d in range(D):
        q = q + (a[d] - b[d]) ** 2 / np_.exp(2 * p.hyp[d])
    return np_.exp(2 * p.hyp[D]) * np_.exp(-q / 2)


def check_kernels(c, gp, out, D, N, Ns, chol):
    X = out["X"]
    for s in range(Ns):
        P = X[s] if X.ndim == 3 else X
        for i in range(P.shape[0]):
            row = [kern(c, gp.posteriors[s], point(P, i), point(gp.X, n), D) for n in range(N)]
            for n in range(N):
                c.check_eq(out["K_Xa_X"][s, i, n], row[n], "kernel between importance and training points", tol=1e-6)
            sol = solveK(c, gp.truth[s], row, chol)
            for n in range(N):
                c.check_eq(out["C_tmp"][s, n, i] * (1 if chol else -1), sol[n], "kernel product with the inverse training covariance", tol=1e-6)


def h_vp(D, N, Na, Ns, chol):
    """Plain draws from the posterior: equal weights."""

    def h(c):
        np_ = c.np
        vp, gp = VPStub(c, D), gp_stub(c, D, N, Ns, chol)
        vp.K = 3
        seen = []
        o = Opt(active_importance_sampling_mcmc_samples=lambda K, D, n_vars: seen.append((K, D, n_vars)) or Na - 0.5)
        kg = gp.X.copy()
        out = AIS.active_importance_sampling(vp, gp, AcqFcnVIQR(), o)
        c.check(seen == [(3, D, D)], "the number of points is the option's, for the current posterior")
        c.check(vp.draws == [Na], "that many draws, rounded up")
        X = c.array("draw", (Na, D), typ=(-2, 2))
        c.check_eq(out["X"], X, "the draws are the importance points")
        c.check_eq(gp.X, kg, "training points unchanged")
        for i in range(Na):
            for s in range(Ns):
                c.check_eq(np_.exp(out["ln_weights"][s, i]), c.q(1, Na * Ns), "equal weights that sum to one", tol=1e-7)
                c.check_eq(out["f_s2"][i, s], gp.moments_at(gp.posteriors[s], point(X, i))[1], "predictive variance at the points")
        check_kernels(c, gp, out, D, N, Ns, chol)

    return h


def smoothed(c, v, x):
    """the smoothed posterior: the components and three widened copies"""
    np_ = c.np
    D = v.mu.shape[0]
    t = c.q(0)
    nc = float(1 / (2 * np.pi) ** (D / 2))
    for k in range(v.mu.shape[1]):
        for a in (0, 0.05, 0.2, 1.0):
            s2 = v.sigma[0, k] ** 2 + a**2
            q, den = c.q(0), c.q(1)
            for d in range(D):
                q = q + (x[d] - v.mu[d, k]) ** 2 / (s2 * v.lambd[d, 0] ** 2)
                den = den * np_.sqrt(s2) * v.lambd[d, 0]
            t = t + v.w[0, k] * nc * np_.exp(-q / 2) / den / 4
    return t


def box(c, gp, x, D):
    """the mixture of boxes around the training points"""
    np_ = c.np
    N = gp.X.shape[0]
    h = []
    for d in range(D):
        m = sum((gp.X[n, d] for n in range(1, N)), gp.X[0, d]) / N
        h.append(2 * np_.sqrt(sum(((gp.X[n, d] - m) ** 2 for n in range(1, N)), (gp.X[0, d] - m) ** 2) / (N - 1)))
    V = 1
    for d in range(D):
        V = V * 2 * h[d]
    hit = sum(1 for n in range(N) if inside(x, point(gp.X, n), h, D))
    return c.q(hit, N) / V


def settle(c, gp, D):
    """two training points, apart from each other in every variable"""
    t = c.array("gap", (D,), sign="+", typ=(0.5, 2))
    gp.X = c.np.stack([gp.X[0], gp.X[0] + t])


def h_isr(D, K, nvp, nbox, Ns, chol=True):
    """Importance points from the smoothed posterior and from boxes around the
    training points."""

    def h(c):
        np_ = c.np
        v, gp = make_vp(c, D, K), gp_stub(c, D, 2, Ns, chol)
        settle(c, gp, D)
        s0, kg = snap(v), gp.X.copy()
        asked = []

        def sample(self, N, orig_flag=True, balance_flag=False, df=np.inf):
            asked.append((N, orig_flag, self is v))
            return c.array("draw", (N, D), typ=(-2, 2)), np.zeros(N, dtype=int)

        old = VariationalPosterior.sample
        VariationalPosterior.sample = sample
        c.cleanup.append(lambda: setattr(VariationalPosterior, "sample", old))
        o = Opt(active_importance_sampling_vp_samples=nvp, active_importance_sampling_box_samples=nbox, active_importance_sampling_mcmc_samples=0)
        out = AIS.active_importance_sampling(v, gp, AcqFcnIMIQR(), o)
        unchanged(c, v, s0)
        c.check(v.K == K, "posterior unchanged")
        c.check_eq(gp.X, kg, "training points unchanged")
        n = nvp + nbox
        c.check(asked == ([(nvp, False, False)] if nvp else []), "draws from the smoothed posterior, in the inference space")
        c.check(out["X"].shape == (n, D) and out["ln_weights"].shape == (Ns, n) and out["f_s2"].shape == (n, Ns), "shapes")
        X = out["X"]
        if nvp:
            c.check_eq(X[:nvp], c.array("draw", (nvp, D), typ=(-2, 2)), "the draws are importance points")
        w = c.q(nvp, n)
        dens = []
        for i in range(n):
            x = point(X, i)
            dens.append(w * smoothed(c, v, x) + (1 - w) * (box(c, gp, x, D) if nbox else 0))
            if i >= nvp:
                c.check(box(c, gp, x, D) > 0, "box points lie in one of the boxes")
        tot = c.q(0)
        R = {}
        for i in range(n):
            for s in range(Ns):
                m, var = gp.moments_at(gp.posteriors[s], point(X, i))
                c.check_eq(out["f_s2"][i, s], var, "predictive variance at the points")
                tot = tot + np_.exp(out["ln_weights"][s, i])
                R[s, i] = (np_.exp(out["ln_weights"][s, i]), np_.exp(m) / dens[i])
        c.check_eq(tot, 1, "weights sum to one", tol=1e-6)
        for a in R.values():
            c.check_eq(a[0] * R[0, 0][1], a[1] * R[0, 0][0], "weights proportional to base density over proposal density", tol=1e-6)
        check_kernels(c, gp, out, D, 2, Ns, chol)

    return h


def h_parts(D, K, nvp, nbox, Ns):
    """Both kinds of importance points together: what the weights are computed
    from (the weights themselves: see the proposal harnesses)."""

    def h(c):
        np_ = c.np
        v, gp = make_vp(c, D, K), gp_stub(c, D, 2, Ns)
        settle(c, gp, D)
        f = AcqFcnIMIQR()
        calls = []

        def sample(self, N, orig_flag=True, balance_flag=False, df=np.inf):
            return c.array("draw", (N, D), typ=(-2, 2)), np.zeros(N, dtype=int)

        def proposal(Xa, g, vp_is, w, rect, a):
            n = len(calls)
            calls.append((Xa.copy(), g, vp_is, w, rect, a))
            return c.array(f"pw{n}_", (Xa.shape[0], Ns), typ=(-1, 1)), c.array(f"pv{n}_", (Xa.shape[0], Ns), sign="+", typ=(0.5, 1))

        for obj, nm, new in ((VariationalPosterior, "sample", sample), (AIS, "active_sample_proposal_pdf", proposal)):
            old = getattr(obj, nm)
            setattr(obj, nm, new)
            c.cleanup.append(lambda obj=obj, nm=nm, old=old: setattr(obj, nm, old))
        o = Opt(active_importance_sampling_vp_samples=nvp, active_importance_sampling_box_samples=nbox, active_importance_sampling_mcmc_samples=0)
        out = AIS.active_importance_sampling(v, gp, f, o)
        want = [m for m in (nvp, nbox) if m]
        c.check([len(a[0]) for a in calls] == want, "as many points of each kind as configured")
        r, L, F = 0, [], []
        for n, (Xa, g, vp_is, w, rect, a) in enumerate(calls):
            c.check(g is gp and a is f, "weights from the surrogate and the acquisition function")
            c.check_eq(w, c.q(nvp, nvp + nbox), "fraction of posterior points", tol=1e-9)
            for d in range(D):
                sd = np_.sqrt((gp.X[1, d] - gp.X[0, d]) ** 2 / 2)
                c.check_eq(rect[d], 2 * sd, "boxes reach two standard deviations of the training points")
            if nvp:
                c.check(vp_is is not v and vp_is.K == 4 * K, "a copy of the posterior is smoothed")
            else:
                c.check(vp_is is None, "no smoothed posterior without posterior points")
            c.check_eq(out["X"][r:r + len(Xa)], Xa, "the points, in order")
            L.append(c.array(f"pw{n}_", (len(Xa), Ns), typ=(-1, 1)))
            F.append(c.array(f"pv{n}_", (len(Xa), Ns), sign="+", typ=(0.5, 1)))
            if n == len(calls) - 1 and nbox:
                for i in range(len(Xa)):
                    hit = False
                    for t in range(2):
                        ok = True
                        for d in range(D):
                            ok = ok and bool(abs(Xa[i, d] - gp.X[t, d]) <= rect[d])
                        hit = hit or ok
                    c.check(hit, "box points lie in one of the boxes")
            r += len(Xa)
        c.check(r == len(out["X"]), "no other points")
        L, F = np_.concatenate(L), np_.concatenate(F)
        tot = c.q(0)
        for i in range(r):
            for s in range(Ns):
                c.check_eq(out["f_s2"][i, s], F[i, s], "predictive variances in the order of the points")
                c.check_eq(out["ln_weights"][s, i] - out["ln_weights"][0, 0], L[i, s] - L[0, 0], "log-weights in the order of the points")
                tot = tot + np_.exp(out["ln_weights"][s, i])
        c.check_eq(tot, 1, "weights sum to one", tol=1e-6)

    return h


class Sampler:
    """stands for gpyreg's slice sampler"""

    made = None

    def __init__(self, log_f, x0, widths=None, LB=None, UB=None, options=None):
        self.made.append(dict(f=log_f, x0=x0, widths=widths, lb=LB, ub=UB, o=options))
        self.k = len(self.made) - 1

    def sample(self, N, thin=1, burn=None):
        c, m = self.c, self.made[self.k]
        m.update(N=N, thin=thin, burn=burn)
        m["X"] = c.array(f"chain{self.k}_", (N, self.D), typ=(-2, 2))
        m["lp"] = c.array(f"lp{self.k}_", (N,), typ=(-2, 2))
        return dict(samples=m["X"].copy(), f_vals=m["lp"].copy())


def h_mcmc(D, Ns, Nm, dead=False):
    """Chains per hyperparameter sample, started from a resampled importance
    point."""

    def h(c):
        np_ = c.np
        v, gp = make_vp(c, D, 1), gp_stub(c, D, 2, Ns)
        settle(c, gp, D)
        Sampler.made, Sampler.c, Sampler.D = [], c, D

        class SS:
            SliceSampler = Sampler

        class G:
            def __getattr__(self, k):
                return SS if k == "slice_sample" else getattr(gpr, k)

        def sample(self, N, orig_flag=True, balance_flag=False, df=np.inf):
            return c.array("draw", (N, D), typ=(-2, 2)), np.zeros(N, dtype=int)

        old, og = VariationalPosterior.sample, AIS.gpr
        VariationalPosterior.sample = sample
        AIS.gpr = G()
        c.cleanup.append(lambda: setattr(VariationalPosterior, "sample", old))
        c.cleanup.append(lambda: setattr(AIS, "gpr", og))
        # the weights before resampling: as computed for the points alone
        LW, P = c.array("old", (2, Ns), typ=(-1, 1)), []
        if dead:
            LW[0, 0] = -np.inf

        def proposal(Xa, g, vp_is, w, rect, f):
            P.append(Xa.copy())
            return LW.copy(), c.array("oldfs", (2, Ns), sign="+", typ=(0.5, 1))

        op = AIS.active_sample_proposal_pdf
        AIS.active_sample_proposal_pdf = proposal
        c.cleanup.append(lambda: setattr(AIS, "active_sample_proposal_pdf", op))
        o = Opt(active_importance_sampling_vp_samples=2, active_importance_sampling_box_samples=0, active_importance_sampling_mcmc_samples=Nm, active_importance_sampling_mcmc_thin=3)
        f = AcqFcnIMIQR()
        u = f.u = c.real("u", lo=c.q(1, 10), hi=2, sign="+", typ=(0.5, 1))
        c.notes["choice"] = []
        out = AIS.active_importance_sampling(v, gp, f, o)
        c.check(len(gp.posteriors) == Ns, "the surrogate keeps its hyperparameter samples")
        c.check(len(Sampler.made) == Ns, "one chain per hyperparameter sample")
        c.check(out["X"].shape == (Ns, Nm, D) and out["ln_weights"].shape == (Ns, Nm) and out["f_s2"].shape == (Nm, Ns), "shapes")
        X0 = P[0]
        tot, R = c.q(0), []
        for s in range(Ns):
            m, ch = Sampler.made[s], c.notes["choice"][s]
            c.check((m["N"], m["thin"], m["burn"]) == (Nm, 3, -(-3 * Nm // 2)), "chain length, thinning and burn-in")
            # resampling probabilities
            q = []
            for i in range(2):
                mu, var = gp.moments_at(gp.posteriors[s], point(X0, i))
                sd = np_.sqrt(var)
                if dead and (i, s) == (0, 0):
                    q.append(c.q(0))
                else:
                    q.append(np_.exp(LW[i, s]) * (np_.exp(u * sd) - np_.exp(-u * sd)))
            c.check(ch["n"] == 2 and len(ch["p"]) == 2, "start chosen among the importance points")
            c.check_eq(ch["p"][0] * (q[0] + q[1]), q[0], "start chosen by importance weight", tol=1e-6)
            c.check_eq(ch["p"][1] * (q[0] + q[1]), q[1], "start chosen by importance weight", tol=1e-6)
            for d in range(D):
                lo, hi = gp.X[0, d], gp.X[1, d]
                w = hi - lo
                c.check_eq(m["lb"][d], lo - w / 2, "chain bounds: half the range beyond the training points")
                c.check_eq(m["ub"][d], hi + w / 2, "chain bounds: half the range beyond the training points")
                j = ch["idx"]
                c.check_eq(m["x0"][d], np_.maximum(np_.minimum(X0[j, d], m["ub"][d]), m["lb"][d]), "starts at the chosen point, moved inside the bounds")
            # target of the chain: log sinh times the surrogate, this sample only
            x = c.array(f"t{s}", (1, D), typ=(-1, 1))
            mu, var = gp.moments_at(gp.posteriors[s], point(x, 0))
            sd = np_.sqrt(var)
            if s == Ns - 1:
                # (gp1 is one object, so only the last chain's target is live)
                c.check_eq(np_.exp(np_.reshape(m["f"](x), (-1,))[0]), np_.exp(mu) * (np_.exp(u * sd) - np_.exp(-u * sd)) , "target of the chain", tol=1e-6)
            for i in range(Nm):
                mu, var = gp.moments_at(gp.posteriors[s], point(m["X"], i))
                c.check_eq(out["f_s2"][i, s], var, "predictive variance of this hyperparameter sample")
                c.check_eq(out["X"][s, i], m["X"][i], "points of the chain")
                e = np_.exp(out["ln_weights"][s, i])
                tot = tot + e
                R.append((e, np_.exp(mu) / np_.exp(m["lp"][i])))
        c.check_eq(tot, 1, "weights sum to one", tol=1e-6)
        for a in R[1:]:
            c.check_eq(a[0] * R[0][1], a[1] * R[0][0], "weights proportional to base density over the chain's density", tol=1e-6)
        check_kernels(c, gp, out, D, 2, Ns, True)

    return h


def instances(tier):
    T = tier == "thorough"
    out = []
    for D, N, Ns, how in ((1, 2, 1, "means"), (1, 2, 2, "means"), (2, 2, 1, "means"), (1, 3, 1, "means"), (1, 2, 2, "gp"), (1, 2, 1, "draw"), (2, 2, 1, "draw")):
        out.append(Inst(f"fess:{how}:{D}:{N}:{Ns}", h_fess(D, N, Ns, how), f"D={D}, {N} points, {Ns} samples", merge=False))
    out.append(Inst("fess:args", h_fess_args, "mismatch"))
    out.append(Inst("norm:1:3", h_norm(1, 3, [[], [(0, 0)], [(0, 1), (0, 2)]]), "3 weights"))
    out.append(Inst("norm:2:2", h_norm(2, 2, [[], [(1, 0)], [(0, 0), (0, 1)]]), "2x2 weights"))
    for D, N, Na, Ns, w in ((1, 1, 1, 1, "some"), (1, 2, 1, 2, "some"), (2, 1, 1, 1, "some"), (1, 1, 2, 1, "some"), (1, 2, 1, 1, "none"), (1, 1, 2, 2, "all"), (2, 1, 1, 1, "all")):
        out.append(Inst(f"proposal:{D}:{N}:{Na}:{Ns}:{w}", h_proposal(D, N, Na, Ns, w), f"D={D}, {N} training points, {Na} points"))
    for D, N, Na, Ns, ch in ((1, 1, 2, 1, True), (1, 2, 1, 2, True), (2, 1, 1, 1, True), (1, 2, 2, 1, False)):
        out.append(Inst(f"vp:{D}:{N}:{Na}:{Ns}:{int(ch)}", h_vp(D, N, Na, Ns, ch), f"D={D}, {Na} draws"))
    for D, K, a, b, Ns in ((1, 1, 1, 0, 1), (1, 1, 0, 1, 1), (1, 2, 1, 0, 2)):
        out.append(Inst(f"isr:{D}:{K}:{a}:{b}:{Ns}", h_isr(D, K, a, b, Ns), f"D={D}, K={K}, {a} posterior and {b} box points"))
    for D, K, a, b, Ns in ((1, 2, 1, 1, 1), (1, 1, 2, 1, 2), (2, 1, 1, 1, 1), (1, 1, 0, 2, 1)):
        out.append(Inst(f"parts:{D}:{K}:{a}:{b}:{Ns}", h_parts(D, K, a, b, Ns), f"D={D}, K={K}, {a} posterior and {b} box points"))
    for D, Ns, Nm in ((1, 1, 1), (1, 2, 1), (1, 1, 2)):
        out.append(Inst(f"mcmc:{D}:{Ns}:{Nm}", h_mcmc(D, Ns, Nm), f"D={D}, {Ns} chains of {Nm}"))
    out.append(Inst("mcmc:dead", h_mcmc(1, 1, 1, True), "a point of zero weight"))
    if T:
        out.append(Inst("isr:2:1:1:0:1", h_isr(2, 1, 1, 0, 1), "D=2"))
        out.append(Inst("mcmc:2:1:1", h_mcmc(2, 1, 1), "D=2"))
        out.append(Inst("mcmc:1:2:2", h_mcmc(1, 2, 2), "two chains of two"))
        out.append(Inst("proposal:2:2:1:1:some", h_proposal(2, 2, 1, 1, "some"), "D=2"))
    return out
