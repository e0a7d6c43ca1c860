"""C18: acquisition values follow their formulas and never select invalid points."""
import sys

import gpyreg as gpr
import numpy as np
from scipy.stats import norm

from pyvbmc.acquisition_functions import AcqFcn, AcqFcnIMIQR, AcqFcnLog, AcqFcnNoisy, AcqFcnVanilla, AcqFcnVIQR
from symex.run import Inst

from checks.c15 import InvTr
from checks.gpx import make_gp
from checks.vb import make_vbmc

META = dict(assumptions=[
    "up to 3 search points (2 for the integrated functions), D <= 2, up to 2 hyperparameter samples, up to 2 training and 2 integration points; all points, predictive means and variances (zero included), densities (zero included), noise levels, limits and tolerances",
    "the surrogate's prediction, the posterior density and the parameter transform are arbitrary functions of the point; the kernel is the squared exponential",
    "finite real arithmetic: overflow of the exponential of a mean more than 700 above the best value is outside",
    "the integrated functions take the quantities prepared for them (importance points, weights, kernel products) as given; C29 covers their preparation",
])


class GPStub:
    def __init__(self, c, Ns):
        self.c, self.Ns = c, Ns
        self.temporary_data = {}
        self.calls = []

    def predict(self, x_star=None, separate_samples=False, **k):
        c, np_ = self.c, self.c.np
        assert separate_samples
        N = x_star.shape[0]
        m, s = np_.zeros((N, self.Ns)), np_.zeros((N, self.Ns))
        for i in range(N):
            a = [x_star[i, d] for d in range(x_star.shape[1])]
            for j in range(self.Ns):
                m[i, j] = c.uf(f"fmu{j}", a)
                s[i, j] = c.uf(f"fs{j}", a) ** 2
        self.calls.append(x_star)
        self.f_mu, self.f_s2 = m, s
        return m.copy(), s.copy()


class VPStub:
    """posterior with an arbitrary density"""

    def __init__(self, c, tr):
        self.c = c
        self.parameter_transformer = tr

    def pdf(self, X, orig_flag=True, log_flag=False, **k):
        c, np_ = self.c, self.c.np
        assert not orig_flag, "density in the inference space"
        p = np_.zeros((X.shape[0], 1))
        for i in range(X.shape[0]):
            p[i, 0] = c.uf("q", [X[i, d] for d in range(X.shape[1])]) ** 2
        return np_.log(p) if log_flag else p


class FL:
    pass


REALMIN = sys.float_info.min
REALMAX = sys.float_info.max


def setup(c, D, N, Ns, noisy, reg):
    np_ = c.np
    tr = InvTr(D).bind(c, np.full((1, D), -np.inf), np.full((1, D), np.inf))
    gp, vp, fl = GPStub(c, Ns), VPStub(c, tr), FL()
    fl.y_max = c.real("ymax", typ=(-1, 2))
    X = c.array("X", (N, D), typ=(-2, 2))
    st = dict(
        integer_vars=np.full(D, False),
        lb_eps_orig=c.array("lbe", (1, D), typ=(-3, 0)),
        ub_eps_orig=c.array("ube", (1, D), typ=(0.5, 3)),
        tol_gp_var=c.real("tolv", sign="+", typ=(0.01, 1)),
        variance_regularized_acq_fcn=reg,
    )
    if noisy:
        st["gp_length_scale"] = c.array("ls", (D,), sign="+", typ=(0.5, 2))
        gp.temporary_data["X_rescaled"] = c.array("Xr", (2, D), typ=(-2, 2))
        gp.temporary_data["sn2_new"] = c.array("sn2n", (2,), sign="+", typ=(0.1, 2))
    return gp, vp, fl, X, st


def nearest_noise(c, gp, st, x):
    """noise of the nearest training point (any of the nearest)"""
    ls = st["gp_length_scale"]
    R, s = gp.temporary_data["X_rescaled"], gp.temporary_data["sn2_new"]
    d = [sum((x[k] / ls[k] - R[t, k]) ** 2 for k in range(len(ls))) for t in range(2)]
    if c.mode == "con" and abs(float(d[0] - d[1])) < 1e-9:
        c.assume(False)
    return s[0] if d[0] <= d[1] else s[1]


def h_acq(cls, D, N, Ns, reg, zero=False, limits=False):
    """zero: no uncertainty left; limits: the hard limits may be violated"""
    noisy = cls is AcqFcnNoisy

    def h(c):
        np_ = c.np
        gp, vp, fl, X, st = setup(c, D, N, Ns, noisy, reg)
        kX, kst = X.copy(), {k: (v.copy() if hasattr(v, "copy") else v) for k, v in st.items()}
        ktmp = {k: v.copy() for k, v in gp.temporary_data.items()}
        inv = vp.parameter_transformer.inverse(kX)
        if not limits:
            for n in range(N):
                for d in range(D):
                    c.assume(inv[n, d] >= st["lb_eps_orig"][0, d])
                    c.assume(inv[n, d] <= st["ub_eps_orig"][0, d])
        m, s = gp.predict(kX, separate_samples=True)
        fbs, vts = [], []
        for n in range(N):
            fb = sum(m[n, j] for j in range(Ns)) / Ns
            vt = sum(s[n, j] for j in range(Ns)) / Ns
            if Ns > 1:
                vt = vt + sum((m[n, j] - fb) ** 2 for j in range(Ns)) / (Ns - 1)
            if zero:
                c.assume(vt == 0)
            else:
                # (floating point only: no variances that underflow)
                c.assume(vt >= c.q(1, 10**6))
                c.assume(vt <= 10**6)
                if reg:
                    c.assume(st["tol_gp_var"] / vt <= 100)
                    if c.mode == "con" and abs(float(vt - st["tol_gp_var"])) < 1e-9:
                        c.assume(False)
            c.assume(fb - fl.y_max <= 300)
            c.assume(fb - fl.y_max >= -300)
            fbs.append(fb)
            vts.append(vt)
        f = cls()
        a = f(X, gp, vp, fl, st)
        c.check(a.shape == (N,), "one value per point")
        c.check_eq(X, kX, "search points unchanged")
        for k in kst:
            c.check_eq(st[k], kst[k], "state unchanged")
        for k in ktmp:
            c.check_eq(gp.temporary_data[k], ktmp[k], "surrogate data unchanged")
        for n in range(N):
            x = [kX[n, d] for d in range(D)]
            fb, vt = fbs[n], vts[n]
            c.check(not bool(np_.isnan(a[n])), "never NaN")
            out = False
            for d in range(D):
                if inv[n, d] < st["lb_eps_orig"][0, d] or inv[n, d] > st["ub_eps_orig"][0, d]:
                    out = True
            if out:
                c.check(bool(np_.isposinf(a[n])), "plus infinity outside the hard limits")
                continue
            if zero:
                # no uncertainty left: never preferred to any other point
                c.check(bool(np_.isposinf(a[n])) or a[n] >= 0, "points without uncertainty are never preferred")
                continue
            p = vp.pdf(kX[n : n + 1], orig_flag=False)[0, 0]
            e = st["tol_gp_var"] / vt - 1
            small = reg and bool(vt < st["tol_gp_var"])
            if cls is AcqFcnLog:
                # the smallest positive number stands in for smaller densities
                r = -(np_.log(vt) + fb - fl.y_max + np_.maximum(np_.log(p), np_.log(REALMIN)))
                if small:
                    r = r + e
            else:
                p = np_.maximum(p, REALMIN)
                if cls is AcqFcnVanilla:
                    r = -vt * p**2
                else:
                    r = -vt * np_.exp(fb - fl.y_max) * p
                    if noisy:
                        sn = nearest_noise(c, gp, st, x)
                        r = r * (vt / (vt + sn))
                if small:
                    r = r * np_.exp(-e)
            # the result is never below the largest finite magnitude
            c.check_eq(a[n], np_.maximum(r, -REALMAX), "documented function of density, mean and variance")

    return h


def h_flat(cls):
    """a flat point is one point"""

    def h(c):
        gp, vp, fl, X, st = setup(c, 2, 1, 1, cls is AcqFcnNoisy, True)
        f = cls()
        a = f(X, gp, vp, fl, st)
        b = f(X[0], gp, vp, fl, st)
        c.check(b.shape == (1,), "one value for a flat point")
        c.check_eq(a, b, "a flat point has the value of a one-row array")

    return h


class SE(gpr.covariance_functions.SquaredExponential):
    """squared exponential kernel, from its definition"""

    c = None

    def compute(self, hyp, X, X_star=None, compute_diag=False, compute_grad=False):
        B = X if X_star is None else X_star
        D = X.shape[1]
        assert len(hyp) == D + 1
        K = self.c.np.zeros((X.shape[0], B.shape[0]))
        for i in range(X.shape[0]):
            for j in range(B.shape[0]):
                K[i, j] = kern_se(self.c, hyp, [X[i, d] for d in range(D)], [B[j, d] for d in range(D)])
        return K


def kern_se(c, hyp, a, b):
    """squared exponential, from its definition"""
    np_ = c.np
    D = len(a)
    q = c.q(0)
    for d in range(D):
        q = q + ((a[d] - b[d]) / np_.exp(hyp[d])) ** 2
    return np_.exp(2 * hyp[D]) * np_.exp(-q / 2)


def h_int(cls, D, Nx, Na, Ns, chol, Nt=1, multi=False, spread=True):
    """integrated interquantile range at the search points"""

    def h(c):
        np_ = c.np
        tr = InvTr(D).bind(c, np.full((1, D), -np.inf), np.full((1, D), np.inf))
        gp = make_gp(c, D, Nt, Ns, "zero", chol)
        gp.covariance = SE()
        gp.covariance.c = c
        gp.D = D
        stub = GPStub(c, Ns)
        gp.predict = stub.predict
        gp.temporary_data = dict(X_rescaled=c.array("Xr", (2, D), typ=(-2, 2)), sn2_new=c.array("sn2n", (2,), sign="+", typ=(0.1, 2)))
        for t in range(2):
            c.assume(gp.temporary_data["sn2_new"][t] >= c.q(1, 100))
        for s in range(Ns):
            t = gp.truth[s]
            c.assume(t["sw"] <= 100)
            if chol:
                for i in range(Nt):
                    c.assume(t["L"][i][i] >= c.q(1, 10))
        X = c.array("Xs", (Nx, D), typ=(-2, 2))
        st = dict(
            integer_vars=np.full(D, False),
            lb_eps_orig=np.full((1, D), -np.inf),
            ub_eps_orig=np.full((1, D), np.inf),
            tol_gp_var=1e-4,
            variance_regularized_acq_fcn=False,
            gp_length_scale=c.array("ls", (D,), sign="+", typ=(0.5, 2)),
        )
        Xa = c.array("Xa", (Ns, Na, D) if multi else (Na, D), typ=(-2, 2))
        ais = dict(X=Xa, f_s2=c.array("fs2a", (Na, Ns), sign="+", typ=(0.5, 3)))
        for i in range(Na):
            for s in range(Ns):
                c.assume(ais["f_s2"][i, s] <= 1000)
        pt = lambda s, i: [Xa[s, i, d] if multi else Xa[i, d] for d in range(D)]
        tx = [[gp.X[t, d] for d in range(D)] for t in range(Nt)]
        kf = lambda s, a, b: kern_se(c, gp.posteriors[s].hyp, a, b)

        def solve(s, v):
            t = gp.truth[s]
            if not chol:
                return [-sum(t["L"][i][j] * v[j] for j in range(Nt)) for i in range(Nt)]
            L = t["L"]
            z = [None] * Nt
            for i in range(Nt):
                z[i] = (v[i] - sum(L[j][i] * z[j] for j in range(i))) / L[i][i]
            w = [None] * Nt
            for i in range(Nt - 1, -1, -1):
                w[i] = (z[i] - sum(L[i][j] * w[j] for j in range(i + 1, Nt))) / L[i][i]
            return [x * t["sw"] ** 2 for x in w]

        # kernel between integration and training points, and its solution
        kax = [[[kf(s, pt(s, i), tx[t]) for t in range(Nt)] for i in range(Na)] for s in range(Ns)]
        sol = [[solve(s, kax[s][i]) for i in range(Na)] for s in range(Ns)]
        if cls is AcqFcnVIQR:
            g = 1 if chol else -1
            ais["C_tmp"] = np_.array([[[g * sol[s][i][t] for i in range(Na)] for t in range(Nt)] for s in range(Ns)])
            lw = None
        else:
            ais["K_Xa_X"] = np_.array(kax)
            lw = c.array("lw", (Ns, Na), lo=-20, hi=20, typ=(-1, 1))
            ais["ln_weights"] = lw
        st["active_importance_sampling"] = ais
        f = cls()
        c.check(abs(f.u - norm.ppf(0.75)) < 1e-12, "upper quartile of the normal distribution")
        f.u = u = c.real("u", lo=c.q(1, 10), hi=2, sign="+", typ=(0.5, 1))
        kX, ka = X.copy(), {k: v.copy() for k, v in ais.items()}
        vp = VPStub(c, tr)
        refs = []
        for n in range(Nx):
            x = [X[n, d] for d in range(D)]
            vals = []
            sn = nearest_noise(c, gp, st, x)
            for s in range(Ns):
                tot = c.q(0)
                for i in range(Na):
                    C = kf(s, pt(s, i), x) - sum(kf(s, x, tx[t]) * sol[s][i][t] for t in range(Nt))
                    fs = c.uf(f"fs{s}", x) ** 2
                    v = ais["f_s2"][i, s] - C**2 / (fs + sn)
                    if spread:
                        c.assume(v >= c.q(1, 1000))
                        q = np_.sqrt(np_.maximum(v, 0))
                        w = 1 if lw is None else np_.exp(lw[s, i])
                        tot = tot + w * (np_.exp(u * q) - np_.exp(-u * q))
                    else:
                        c.assume(v <= 0)
                vals.append(tot)
            refs.append(sum(vals) / Ns)
        a = f(X, gp, vp, FL(), st)
        c.check(a.shape == (Nx,), "one value per point")
        c.check_eq(X, kX, "search points unchanged")
        for k in ka:
            c.check_eq(ais[k], ka[k], "prepared quantities unchanged")
        for n in range(Nx):
            c.check(not bool(np_.isnan(a[n])), "never NaN")
            if spread:
                c.check_eq(a[n], np_.maximum(np_.log(refs[n]), -REALMAX), "log of the weighted interquantile range left after observing the point")
            else:
                c.check_eq(a[n], -REALMAX, "no spread left anywhere: smallest value")

    return h


def h_switch(c):
    """the optimiser's own state asks for the regularisation"""
    v = make_vbmc(1)
    st = v.optim_state
    c.check(st.get("variance_regularized_acq_fcn") is True, "regularisation is on in a run's state, under the name the functions read")
    c.check(st.get("tol_gp_var") == v.options["tol_gp_var"] and st["tol_gp_var"] > 0, "with the configured tolerance")
    c.check(st.get("lb_eps_orig") is not None and st.get("ub_eps_orig") is not None, "hard limits are in the state")


def instances(tier):
    out = []
    t = 600 if tier == "quick" else 3000
    th = tier == "thorough"
    for cls in (AcqFcn, AcqFcnVanilla, AcqFcnLog, AcqFcnNoisy):
        for D, N, Ns in [(1, 1, 1), (1, 2, 1), (2, 1, 2)] + ([(1, 3, 1), (2, 2, 2)] if th else []):
            for reg in (True, False):
                if reg or N == 1:
                    out.append(Inst(f"{cls.__name__}:{D}:N{N}:S{Ns}:{'reg' if reg else 'plain'}", h_acq(cls, D, N, Ns, reg), f"D={D}, {N} points, {Ns} samples", time_s=t))
        for reg in (True, False):
            out.append(Inst(f"{cls.__name__}:zero:{'reg' if reg else 'plain'}", h_acq(cls, 1, 1, 1, reg, zero=True), "D=1, one point", time_s=t))
        for D, N in [(1, 2), (2, 1)] + ([(2, 2)] if th else []):
            out.append(Inst(f"{cls.__name__}:limits:{D}:N{N}", h_acq(cls, D, N, 1, True, limits=True), f"D={D}, {N} points", time_s=t))
        out.append(Inst(f"{cls.__name__}:flat", h_flat(cls), "D=2", time_s=t, merge=False))
    for cls in (AcqFcnVIQR, AcqFcnIMIQR):
        q = [(1, 1, 1, 1, True, 1), (1, 1, 1, 1, False, 1), (1, 1, 1, 1, True, 2), (1, 1, 1, 1, False, 2), (1, 1, 2, 1, True, 1), (1, 1, 1, 2, False, 1), (2, 1, 1, 1, True, 1), (1, 2, 1, 1, True, 1)]
        for D, Nx, Na, Ns, chol, Nt in q + ([(2, 1, 2, 1, True, 1), (1, 1, 2, 2, True, 1), (2, 2, 1, 1, False, 1)] if th else []):
            out.append(Inst(f"{cls.__name__}:{D}:N{Nx}:A{Na}:S{Ns}:T{Nt}:{'chol' if chol else 'inv'}", h_int(cls, D, Nx, Na, Ns, chol, Nt), f"D={D}, {Nx} points, {Na} integration points, {Ns} samples, {Nt} training points", time_s=t))
        out.append(Inst(f"{cls.__name__}:nospread", h_int(cls, 1, 1, 1, 1, True, spread=False), "D=1, no spread left", time_s=t))
    out.append(Inst("AcqFcnIMIQR:multi", h_int(AcqFcnIMIQR, 1, 1, 1, 2, True, 1, True), "D=1, per-sample integration points", time_s=t))
    out.append(Inst("switch", h_switch, "D=1"))
    return out
