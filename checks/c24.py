"""C24: whitening re-expresses the same problem."""
import copy
from types import SimpleNamespace

import gpyreg as gpr
import numpy as np

import pyvbmc.vbmc.vbmc as vm
import pyvbmc.whitening.whitening as wh
from pyvbmc.function_logger import FunctionLogger
from pyvbmc.parameter_transformer import ParameterTransformer
from pyvbmc.variational_posterior import VariationalPosterior
from symex.run import Inst

from checks.c26 import Opt, patched
from checks.vb import make_vbmc
from checks.vpb import make_vp, snap, unchanged

META = dict(assumptions=[
    "D <= 2 variables, K <= 2 components (3 in thorough), up to 2 training points and 2 hyperparameter samples, up to 3 recorded evaluations with unrecorded rows among them; all parameters, points, values and transforms",
    "unscented estimates: an arbitrary map of the point; the sigma-points are pairwise distinct after the map (a map that collapses them has zero scale)",
    "the singular value decomposition is used through its defining contract (symmetric positive definite argument = U diag(s) U', U a rotation or reflection); the uniform points behind the plausible and search ranges are 2 arbitrary points instead of 100000 and 1000, and the ranges are checked with D = 1 only",
    "schedule and undo: the real loop with stand-ins for training, variational optimisation and active sampling; 2-3 iterations",
])


SVD = np.linalg.svd

# ---------------------------------------------------------------- stubs


class Map(ParameterTransformer):
    """unbounded space with an arbitrary (not separable) map and log-Jacobian"""

    def bind(self, c, name):
        self._c, self._n = c, name
        return self

    def __deepcopy__(self, memo):
        o = copy.copy(self)
        return o

    def _f(self, tag, u):
        c = self._c
        one = u.ndim == 1
        if one:
            u = u.reshape((1, -1))
        D = u.shape[1]
        out = c.np.zeros(u.shape)
        for i in range(u.shape[0]):
            for d in range(D):
                out[i, d] = c.uf(f"{self._n}{tag}{d}", [u[i, e] for e in range(D)])
        return out[0] if one else out

    def __call__(self, x):
        return self._f("T", x)

    def inverse(self, u):
        return self._f("V", u)

    def log_abs_det_jacobian(self, u):
        c = self._c
        one = u.ndim == 1
        if one:
            u = u.reshape((1, -1))
        r = c.np.array([c.uf(f"{self._n}J", [u[i, d] for d in range(u.shape[1])]) for i in range(u.shape[0])])
        return r[0] if one else r


def sigma_points(c, x, s):
    """centre and +- sqrt(D) standard deviations along each coordinate"""
    D = len(x)
    out = [list(x)]
    for d in range(D):
        for sg in (1, -1):
            p = list(x)
            p[d] = p[d] + sg * c.np.sqrt(D) * s[d]
            out.append(p)
    return out


def ref_unscent(c, f, x, s):
    """mean, variance (per coordinate) of the mapped sigma-points"""
    P = [f(p) for p in sigma_points(c, x, s)]
    U, D = len(P), len(x)
    m = [sum(p[d] for p in P) / U for d in range(D)]
    v = [sum((p[d] - m[d]) ** 2 for p in P) / (U - 1) for d in range(D)]
    for d in range(D):
        c.assume(v[d] > c.q(1, 1000))
    return m, v, P


# ---------------------------------------------------------------- unscented


def h_unscent(D, Nx, Ns, flat=(False, False)):
    def h(c):
        np_ = c.np
        x = c.array("x", (D,) if flat[0] else (Nx, D), typ=(-1, 1))
        s = c.array("s", (D,) if flat[1] else (Ns, D), sign="+", typ=(0.5, 2))
        x0, s0 = x.copy(), s.copy()
        N = max(Nx, Ns)
        fm = Map(D).bind(c, "f")
        row = lambda a, i: [a.reshape((-1, D))[i % (a.size // D), d] for d in range(D)]
        f = lambda p: [c.uf(f"fT{d}", p) for d in range(D)]
        want = [ref_unscent(c, f, row(x, i), row(s, i)) for i in range(N)]
        m, sd, P = wh.unscent_warp(fm, x, s)
        shp = x0.shape if N == Nx else (N, D)
        c.check(m.shape == shp and sd.shape == shp, "one mean and one scale per point")
        c.check(P.shape == (2 * D + 1, N, D), "2D+1 sigma-points per point")
        m, sd = m.reshape((N, D)), sd.reshape((N, D))
        for i in range(N):
            for d in range(D):
                c.check_eq(m[i, d], want[i][0][d], "mean of the mapped sigma-points")
                c.check(sd[i, d] >= 0, "a scale")
                c.check_eq(sd[i, d] ** 2, want[i][1][d], "variance of the mapped sigma-points")
                for u in range(2 * D + 1):
                    c.check_eq(P[u, i, d], want[i][2][u][d], "the mapped sigma-points themselves")
        c.check_eq(x, x0, "points unchanged")
        c.check_eq(s, s0, "scales unchanged")

    return h


# ---------------------------------------------------------------- gp and vp


def make_warp_gp(c, D, N, Ns, mean):
    g = SimpleNamespace()
    g.X = c.array("X", (N, D), typ=(-1, 1))
    g.covariance = gpr.covariance_functions.SquaredExponential()
    g.noise = gpr.noise_functions.GaussianNoise(constant_add=True)
    g.mean = dict(const=gpr.mean_functions.ConstantMean, quad=gpr.mean_functions.NegativeQuadratic, zero=gpr.mean_functions.ZeroMean)[mean]()
    g.posteriors = np.empty(Ns, dtype=object)
    g.truth = []
    np_ = c.np
    for s in range(Ns):
        t = dict(ell=[c.real(f"ell{s}{d}", sign="+", typ=(0.5, 2)) for d in range(D)], sf=c.real(f"lsf{s}", typ=(-1, 1)), sn=c.real(f"lsn{s}", typ=(-3, -1)))
        hyp = [np_.log(e) for e in t["ell"]] + [t["sf"], t["sn"]]
        if mean != "zero":
            t["m0"] = c.real(f"m0{s}", typ=(-1, 1))
            hyp.append(t["m0"])
        if mean == "quad":
            t["xm"] = [c.real(f"xm{s}{d}", typ=(-1, 1)) for d in range(D)]
            t["om"] = [c.real(f"om{s}{d}", sign="+", typ=(0.5, 2)) for d in range(D)]
            hyp += t["xm"] + [np_.log(o) for o in t["om"]]
        g.posteriors[s] = SimpleNamespace(hyp=np_.array(hyp))
        g.truth.append(t)
    return g


def temp(c, T):
    if T == "none":
        return {}, c.q(1)
    t = c.real("T", sign="+", typ=(0.5, 3))
    return {"temperature": t}, t


def uscent_stub(c, f):
    """stand-in for unscent_warp: arbitrary means and positive scales, a
    function of the point and the scales; the map it is given is compared
    with the composed map"""

    def g(fun, x, sigma):
        np_ = c.np
        D = x.shape[-1]
        X, G = x.reshape((-1, D)), sigma.reshape((-1, D))
        N = max(len(X), len(G))
        y = fun(X)
        for i in range(len(X)):
            w = f([X[i, d] for d in range(D)])
            for d in range(D):
                c.check_eq(y[i, d], w[d], "points go back through the old transform and forward through the new one")
        m, s = np_.zeros((N, D)), np_.zeros((N, D))
        for i in range(N):
            a, b, _ = ref_stub(c, [X[i % len(X), d] for d in range(D)], [G[i % len(G), d] for d in range(D)])
            for d in range(D):
                m[i, d], s[i, d] = a[d], np_.sqrt(b[d])
        shp = x.shape if N == len(X) else (N, D)
        return m.reshape(shp), s.reshape(shp), None

    return g


def ref_stub(c, x, s):
    D = len(x)
    return [c.uf(f"um{d}", x + s) for d in range(D)], [c.np.exp(c.uf(f"us{d}", x + s)) ** 2 for d in range(D)], None


def h_gp(D, K, N, Ns, mean, T="none", modular=False):
    """arbitrary old and new transforms: hyperparameters and mixture follow the
    unscented estimates of the composed map (modular: any such estimates)"""

    def h(c):
        np_ = c.np
        old, new = Map(D).bind(c, "o"), Map(D).bind(c, "n")
        v = make_vp(c, D, K, old)
        g = make_warp_gp(c, D, N, Ns, mean)
        st, t = temp(c, T)
        vb = SimpleNamespace(D=D, optim_state=st)
        s0, X0 = snap(v), g.X.copy()
        hyp0 = [p.hyp.copy() for p in g.posteriors]

        def f(p):
            o = [c.uf(f"oV{d}", p) for d in range(D)]
            return [c.uf(f"nT{d}", o) for d in range(D)]

        if modular:
            patched(c, [(wh, "unscent_warp", uscent_stub(c, f))])
            ref_u = lambda c, f, x, s: ref_stub(c, x, s)
        else:
            ref_u = ref_unscent
        # references first: they carry the distinctness assumptions
        rX = [[ref_u(c, f, [g.X[n, d] for d in range(D)], q["ell"]) for n in range(N)] for q in g.truth]
        rq = [ref_u(c, f, q["xm"], q["om"]) for q in g.truth] if mean == "quad" else None
        sl = lambda k: [s0["lambd"][d, 0] * s0["sigma"][0, k] for d in range(D)]
        rv = [ref_u(c, f, [s0["mu"][d, k] for d in range(D)], sl(k)) for k in range(K)]
        u, hyp = wh.warp_gp_and_vp(new, g, v, vb)
        n0 = D + 2
        c.check(hyp.shape == (Ns, len(hyp0[0])), "one hyperparameter vector per sample")
        for s in range(Ns):
            for d in range(D):
                w = 0
                for n in range(N):
                    w = w + np_.log(rX[s][n][1][d]) / 2
                c.check_eq(hyp[s, d], w / N, "length scales: mean log of the unscented scales at the training points", tol=1e-7)
            c.check_eq(hyp[s, D], hyp0[s][D], "output scale kept")
            c.check_eq(hyp[s, D + 1], hyp0[s][D + 1], "noise kept")
            if mean == "const":
                dn = 0
                for n in range(N):
                    x = [g.X[n, d] for d in range(D)]
                    dn = dn + c.uf("nJ", f(x)) - c.uf("oJ", x)
                c.check_eq(hyp[s, n0], g.truth[s]["m0"] + dn / N / t, "constant mean shifted by the mean change of the log-Jacobian", tol=1e-7)
            if mean == "quad":
                for d in range(D):
                    c.check_eq(hyp[s, n0 + 1 + d], rq[s][0][d], "location of the mean function", tol=1e-7)
                    c.check_eq(hyp[s, n0 + 1 + D + d], np_.log(rq[s][1][d]) / 2, "scale of the mean function", tol=1e-7)
                c.check_eq(hyp[s, n0], g.truth[s]["m0"] + (c.uf("nJ", rq[s][0]) - c.uf("oJ", g.truth[s]["xm"])) / t, "maximum of the mean function shifted by the change of the log-Jacobian", tol=1e-7)
        # the mixture
        c.check(u is not v and u.parameter_transformer is not old, "a new posterior")
        c.check(u.parameter_transformer._n == "n", "the posterior carries the new transform")
        c.check(v.parameter_transformer is old, "the current posterior keeps its transform")
        c.check(u.K == K and u.D == D and u.mu.shape == (D, K) and u.sigma.shape == (1, K) and u.lambd.shape == (D, 1), "shape of the mixture")
        a = []
        for k in range(K):
            for d in range(D):
                c.check_eq(u.mu[d, k], rv[k][0][d], "component means are mapped", tol=1e-7)
            a.append(c.uf("nJ", rv[k][0]) - c.uf("oJ", [s0["mu"][d, k] for d in range(D)]))
        tot = sum(s0["w"][0, k] * np_.exp(a[k] / t) for k in range(K))
        W = u.w.reshape(-1)
        c.check(W.shape == (K,), "one weight per component")
        for k in range(K):
            c.check_eq(W[k] * tot, s0["w"][0, k] * np_.exp(a[k] / t), "weights follow the change of the log-Jacobian", tol=1e-7)
        lam2 = [0] * D
        for k in range(K):
            ss = sum(rv[k][1])
            for d in range(D):
                lam2[d] = lam2[d] + D * rv[k][1][d] / ss / K
        for d in range(D):
            c.check(u.lambd[d, 0] > 0, "positive coordinate scales")
            c.check_eq(u.lambd[d, 0] ** 2, lam2[d], "coordinate scales: mean share of the variance", tol=1e-7)
        for k in range(K):
            x, y = u.sigma[0, k] ** (2 * D), c.q(1)
            for d in range(D):
                x, y = x * u.lambd[d, 0] ** 2, y * rv[k][1][d]
            c.check(u.sigma[0, k] > 0, "positive component scales")
            c.check_eq(x, y, "component scales: geometric mean over the coordinates", tol=1e-7)
        unchanged(c, v, s0)
        c.check_eq(g.X, X0, "surrogate unchanged")
        for p, q in zip(g.posteriors, hyp0):
            c.check_eq(p.hyp, q, "surrogate unchanged")
        # nothing shared with the current posterior
        for name in ("mu", "sigma", "lambd", "w"):
            x = getattr(u, name)
            x += 1
        unchanged(c, v, s0)

    return h


def rot(c, name):
    """a rotation, by the rational parametrisation of the circle"""
    t = c.real(name, typ=(-0.6, 0.6))
    den = 1 + t * t
    a, b = (1 - t * t) / den, 2 * t / den
    return c.np.array([[a, -b], [b, a]])


def affine(c, D, name, R=True):
    np_ = c.np
    tr = ParameterTransformer(D)
    tr.mu = c.array(name + "mu", (D,), typ=(-1, 1))
    tr.delta = c.array(name + "de", (D,), sign="+", typ=(0.5, 2))
    if R:
        tr.R_mat = rot(c, name + "t") if D == 2 else np_.ones((1, 1))
        tr.scale = c.array(name + "sc", (D,), sign="+", typ=(0.5, 2))
    return tr


def lin(c, tr, D):
    """matrix A and offset b with x = A u + b"""
    A = [[0] * D for _ in range(D)]
    for i in range(D):
        for j in range(D):
            e = tr.delta[i]
            if tr.R_mat is not None:
                e = e * tr.R_mat[i, j] * tr.scale[j]
            elif i != j:
                e = 0
            A[i][j] = e
    return A, [tr.mu[i] for i in range(D)]


def h_affine(D, K, mean, Rold):
    """between affine transforms the original-space mixture is the same"""

    def h(c):
        np_ = c.np
        old, new = affine(c, D, "o", Rold), affine(c, D, "n")
        v = make_vp(c, D, K, old)
        v.mu = np_.array([[c.real(f"m{d}{k}", typ=(-1, 1)) for k in range(K)] for d in range(D)])
        g = make_warp_gp(c, D, 1, 1, mean)
        vb = SimpleNamespace(D=D, optim_state={})
        s0 = snap(v)
        u, hyp = wh.warp_gp_and_vp(new, g, v, vb)
        A, b = lin(c, old, D)
        B, e = lin(c, new, D)
        for k in range(K):
            x0 = [sum(A[i][j] * s0["mu"][j, k] for j in range(D)) + b[i] for i in range(D)]
            x1 = [sum(B[i][j] * u.mu[j, k] for j in range(D)) + e[i] for i in range(D)]
            for d in range(D):
                c.check_eq(x1[d], x0[d], "the same component mean in the original space", tol=1e-7)
            c.check_eq(u.w.reshape(-1)[k], s0["w"][0, k], "the same weights", tol=1e-7)
        if D == 1 or K == 1:
            # variances along the new coordinates: B^-1 A S A' B^-T
            iB = [[new.R_mat[i, j] / new.scale[j] / new.delta[i] for i in range(D)] for j in range(D)]
            C = [[sum(iB[i][l] * A[l][j] for l in range(D)) for j in range(D)] for i in range(D)]
            for k in range(K):
                for d in range(D):
                    var = sum(C[d][j] ** 2 * (s0["lambd"][j, 0] * s0["sigma"][0, k]) ** 2 for j in range(D))
                    c.check_eq((u.lambd[d, 0] * u.sigma[0, k]) ** 2, var, "the same spread of each component along the new coordinates", tol=1e-7)
        if mean == "quad" and D == 1:
            t = g.truth[0]
            xm = A[0][0] * t["xm"][0] + b[0]
            c.check_eq(B[0][0] * hyp[0, 4] + e[0], xm, "the mean function peaks at the same point", tol=1e-7)
            c.check_eq(np_.log(B[0][0]) + hyp[0, 5], np_.log(A[0][0]) + np_.log(t["om"][0]), "the mean function has the same width", tol=1e-7)
            c.check_eq(np_.log(B[0][0]) + hyp[0, 0], np_.log(A[0][0]) + np_.log(t["ell"][0]), "the same length scale", tol=1e-7)
            c.check_eq(hyp[0, 3] - np_.log(B[0][0]), t["m0"] - np_.log(A[0][0]), "the same peak value of the original-space density", tol=1e-7)

    return h


# ---------------------------------------------------------------- warp_input


def stub_svd(c, D):
    """U diag(s) U' = argument; U orthogonal"""
    calls = []

    def svd(a, *k, **kw):
        if c.mode == "sym":
            if D == 1:
                U, s = c.np.ones((1, 1)), c.np.array([c.real("s0", sign="+", lo=c.q(1, 100), typ=(0.1, 2))])
            else:
                U = rot(c, "u")
                if c.choose("refl", [0, 1]):
                    U = U * c.np.array([[c.q(1), c.q(-1)]])
                s1 = c.real("s1", sign="+", lo=c.q(1, 100), typ=(0.1, 2))
                s = c.np.array([s1 + c.real("s0", sign="0+", typ=(0.1, 2)), s1])
            r = U, s, U.T
        else:
            r = SVD(np.asarray(a, dtype=float), *k, **kw)
        calls.append((a, r[0].copy(), r[1].copy()))
        return r

    patched(c, [(wh.np.linalg, "svd", svd)])
    return calls


def h_input(D, K, kind, T="none", thr=0, reg=0, cache=0, noise=False, flags=(1, 0, 1)):
    """kind: old transform.  thr: correlation threshold (None: symbolic).
    reg: a number, 'sym', or 'fun'.  cache: points in the search cache."""

    def h(c):
        np_ = c.np
        if kind == "probit":
            tr = ParameterTransformer(D, np.full((1, D), -1.0), np.full((1, D), 3.0), transform_type="probit")
            tr.mu = c.array("omu", (D,), typ=(-1, 1))
            tr.delta = c.array("ode", (D,), sign="+", typ=(0.5, 2))
        else:
            tr = affine(c, D, "o", kind == "R")
        t0 = {k: None if getattr(tr, k) is None else getattr(tr, k).copy() for k in ("mu", "delta", "R_mat", "scale")}
        v = make_vp(c, D, K, tr)
        if kind == "fix":
            # one free mean; everything else fixed
            v.mu = np_.array([[c.q(0), c.q(1)], [c.q(0), c.real("m", lo=-2, hi=2, typ=(-1, 1))]])
            v.sigma, v.lambd, v.w = np_.array([[c.q(1), c.q(1, 2)]]), np_.array([[c.q(1)], [c.q(1, 2)]]), np_.array([[c.q(1, 2), c.q(1, 2)]])
            tr.delta = np_.array([c.q(1), c.q(2)])
            t0["delta"] = tr.delta.copy()
        s0 = snap(v)
        n = len(flags)
        fl = FunctionLogger(lambda x: 0.0, D, noise, 2 if noise else 0, n + 1, tr)
        F = np.array([bool(f) for f in flags] + [False])
        fl.X_flag = F
        fl.X_orig = c.array("xo", (n + 1, D), typ=(0.2, 0.8))
        fl.y_orig = c.array("yo", (n + 1, 1), typ=(-1, 1))
        fl.X = c.array("xt", (n + 1, D), typ=(-1, 1))
        fl.y = c.array("yt", (n + 1, 1), typ=(-1, 1))
        fl.Xn, fl.func_count = n - 1, n
        if noise:
            fl.S = c.array("sd", (n + 1, 1), sign="+", typ=(0.5, 1))
        if kind == "probit":
            for a in range(n + 1):
                for d in range(D):
                    c.assume(fl.X_orig[a, d] > c.q(-9, 10))
                    c.assume(fl.X_orig[a, d] < c.q(29, 10))
        f0 = {k: getattr(fl, k).copy() for k in ("X_orig", "y_orig", "X", "y", "X_flag") + (("S",) if noise else ())}
        st, t = temp(c, T)
        lo = c.array("lo", (1, D), typ=(-1, 0)) if kind != "probit" else np_.ones((1, D)) * c.q(-1, 2)
        wd = c.array("wd", (1, D), sign="+", typ=(0.5, 1)) if kind != "probit" else np_.ones((1, D)) * c.q(2)
        ls = c.array("ls", (1, D), typ=(-1, 0))
        lw = c.array("lw", (1, D), sign="+", typ=(0.5, 1))
        it = c.choose("iter", [3, 17])
        st.update(plb_orig=lo, pub_orig=lo + wd, lb_search=ls, ub_search=ls + lw, iter=it, N=2, warping_count=c.choose("count", [0, 3]), last_warping=-np.inf, last_successful_warping=-np.inf,
                  run_mean=np.ones(3), run_cov=np.eye(3), last_run_avg=1.0, search_cache=c.array("sc", (cache, D), typ=(-1, 1)) if cache else [], recompute_var_post=False, skip_active_sampling=False, other=7)
        st0 = dict(st)
        cache0 = st["search_cache"].copy() if cache else None
        wr = {0: 0, "int": 1, "one": 5.0, "neg": -1.0}.get(reg, reg)
        if reg == "sym":
            wr = 0.25
        th = 0 if thr == 0 else thr
        o = Opt(warp_rotoscaling=True, warp_nonlinear=False, warp_roto_corr_thresh=th, warp_cov_reg=wr)
        calls = stub_svd(c, D)
        pts = {}

        def rand(m, d):
            c.check(d == D and m >= 1000, "many uniform points")
            r = c.np.array([[c.real(f"r{len(pts)}_{i}_{j}", lo=0, hi=1, typ=(0, 1)) for j in range(D)] for i in range(2)])
            pts[m] = r
            return r

        patched(c, [(wh.np.random, "rand", rand)])
        if D == 2 and c.mode == "sym":
            # ranges are checked with one variable; here they are arbitrary
            rmin, rmax = wh.np.min, wh.np.max
            anyrow = lambda tag: np_.array([c.real(f"{tag}{d}", typ=(-1, 1)) for d in range(D)])
            ext = lambda real, tag: lambda a, *k, **kw: anyrow(tag) if getattr(a, "ndim", 0) == 2 else real(a, *k, **kw)
            patched(c, [(wh.np, "quantile", lambda a, q, axis=None: [anyrow("q0"), anyrow("q1")]), (wh.np, "min", ext(rmin, "mn")), (wh.np, "max", ext(rmax, "mx"))])
        newt, ns, nf, act = wh.warp_input(v, st, fl, o)
        # the decomposed matrix: covariance before centring, rotation and scaling
        c.check(len(calls) == 1, "one decomposition")
        A, U, s = calls[0]
        mean = [sum(s0["w"][0, k] * s0["mu"][d, k] for k in range(K)) for d in range(D)]
        cov = [[sum(s0["w"][0, k] * ((s0["mu"][i, k] - mean[i]) * (s0["mu"][j, k] - mean[j]) + ((s0["sigma"][0, k] * s0["lambd"][i, 0]) ** 2 if i == j else 0)) for k in range(K)) for j in range(D)] for i in range(D)]
        M = [[t0["delta"][i] * (1 if i == j else 0) for j in range(D)] for i in range(D)]
        if kind == "R":
            M = [[t0["delta"][i] * t0["R_mat"][i, j] * t0["scale"][j] for j in range(D)] for i in range(D)]
        full = [[sum(M[i][a] * cov[a][b] * M[j][b] for a in range(D) for b in range(D)) for j in range(D)] for i in range(D)]
        w = max(0.0, min(1.0, float(wr)))
        for i in range(D):
            c.check_eq(A[i, i], full[i][i], "variances of the mixture before rotation", tol=1e-7)
            for j in range(D):
                if i == j:
                    continue
                keep = True
                if th > 0:
                    keep = bool(full[i][j] ** 2 > c.q(int(round(th * 100)), 100) ** 2 * full[i][i] * full[j][j])
                want = full[i][j] * (1 - w) if keep else c.q(0)
                c.check_eq(A[i, j], want, "covariances of the mixture before rotation, thresholded and regularised", tol=1e-7)
        # the new transform whitens that matrix
        c.check(newt is not tr and nf.parameter_transformer is newt, "a new transform, used by the record")
        R, sc = newt.R_mat, newt.scale
        c.check(R.shape == (D, D) and sc.shape == (D,), "rotation and scale")
        eps = np.finfo(np.float64).eps
        for i in range(D):
            c.check(sc[i] > 0, "positive scale")
            for j in range(D):
                c.check_eq(sum(R[i, a] * sc[a] ** 2 * R[j, a] for a in range(D)), sum(U[i, a] * (s[a] + eps) * U[j, a] for a in range(D)), "rotation and scale factor the covariance", tol=1e-7)
                c.check_eq(sum(R[a, i] * R[a, j] for a in range(D)), 1 if i == j else 0, "a rotation", tol=1e-7)
        if D == 2:
            c.check(R[0, 0] * R[1, 1] - R[0, 1] * R[1, 0] > 0, "a proper rotation")
        for d in range(D):
            c.check_eq(newt.mu[d], 0, "no centring left")
            c.check_eq(newt.delta[d], 1, "no scaling left")
        # the record
        c.check(nf is not fl, "a new record")
        for k in ("X_orig", "y_orig", "X_flag") + (("S",) if noise else ()):
            c.check_eq(getattr(nf, k), f0[k], "original points, values and noise are kept")
        for a in range(n + 1):
            if not F[a]:
                c.check_eq(nf.X[a], f0["X"][a], "unused rows untouched")
                c.check_eq(nf.y[a, 0], f0["y"][a, 0], "unused rows untouched")
                continue
            xo = [f0["X_orig"][a, d] for d in range(D)]
            lj = 0
            if kind == "probit":
                z = []
                for d in range(D):
                    q = [nf.X[a, e] * sc[e] for e in range(D)]
                ref = newt(f0["X_orig"][a : a + 1])
                lj = newt.log_abs_det_jacobian(ref)[0]
                want = [ref[0, d] for d in range(D)]
            else:
                want = [sum(xo[e] * R[e, d] for e in range(D)) / sc[d] for d in range(D)]
                for d in range(D):
                    lj = lj + np_.log(sc[d])
            for d in range(D):
                c.check_eq(nf.X[a, d], want[d], "recorded points in the new space", tol=1e-7)
            c.check_eq(nf.y[a, 0], f0["y_orig"][a, 0] + lj / t, "recorded values corrected by the new log-Jacobian", tol=1e-7)
        # ranges
        c.check(len(pts) == 2, "two sets of points")
        big, small = pts[max(pts)], pts[min(pts)]
        yy = newt(big * wd + lo)
        for key, (a, b) in dict(plb_tran=(0.05, 0), pub_tran=(0.95, 1)).items():
            c.check(ns[key].shape == (1, D), "plausible bounds")
        for d in range(D if D == 1 else 0):
            u0, u1 = yy[0, d], yy[1, d]
            hi, lw_ = np_.maximum(u0, u1), np_.minimum(u0, u1)
            # 5% to 95% of the range, widened by a ninth on each side
            c.check_eq(ns["pub_tran"][0, d] - ns["plb_tran"][0, d], (hi - lw_) * 0.9 * 11 / 9, "plausible range: 5% to 95% of the mapped plausible box, widened by a ninth on both sides", tol=1e-7)
            c.check_eq(ns["pub_tran"][0, d] + ns["plb_tran"][0, d], hi + lw_, "plausible range centred", tol=1e-7)
        z = newt(tr.inverse(small * lw + ls))
        for d in range(D if D == 1 else 0):
            c.check(ns["lb_search"].shape == (1, D) and ns["ub_search"].shape == (1, D), "search bounds")
            for i in range(2):
                c.check(ns["lb_search"][0, d] <= z[i, d] + (0 if c.mode == "sym" else 1e-9), "search bounds contain the mapped search box")
                c.check(ns["ub_search"][0, d] >= z[i, d] - (0 if c.mode == "sym" else 1e-9), "search bounds contain the mapped search box")
            r_ = np_.abs(z[0, d] - z[1, d])
            c.check(ns["ub_search"][0, d] - ns["lb_search"][0, d] <= r_ * 1.01 + 1e-9, "search bounds are no wider than the mapped search box")
        if cache:
            c.check_eq(ns["search_cache"], newt(tr.inverse(cache0)), "cached search points mapped to the new space", tol=1e-7)
        else:
            c.check(len(ns["search_cache"]) == 0, "no cached search points")
        c.check(ns["warping_count"] == st0["warping_count"] + 1, "warps are counted")
        c.check(ns["last_warping"] == it and ns["last_successful_warping"] == it, "the iteration of the warp is recorded")
        c.check(ns["recompute_var_post"] is True and ns["skip_active_sampling"] is True, "the posterior is recomputed before sampling")
        c.check(len(ns["run_mean"]) == 0 and len(ns["run_cov"]) == 0 and bool(np.isnan(ns["last_run_avg"])), "running hyperparameter averages are reset")
        c.check(ns["other"] == 7 and ns["iter"] == it and ns["N"] == 2, "the rest of the state is kept")
        c.check(act == "rotoscale", "kind of warp")
        # the arguments are untouched
        unchanged(c, v, s0)
        c.check(v.parameter_transformer is tr, "posterior unchanged")
        for k, a in t0.items():
            b = getattr(tr, k)
            c.check((a is None) == (b is None), "current transform unchanged")
            if a is not None:
                c.check_eq(b, a, "current transform unchanged")
        for k, a in f0.items():
            c.check_eq(getattr(fl, k), a, "current record unchanged")
        c.check(fl.parameter_transformer is tr, "current record unchanged")
        c.check(all(st[k] is st0[k] for k in st0) and set(st) == set(st0), "current state unchanged")
        if cache:
            c.check_eq(st["search_cache"], cache0, "current state unchanged")

    return h


# ---------------------------------------------------------------- the loop


class GPTag:
    def __init__(self, c, tag):
        self.tag = tag
        self.X, self.y, self.s2 = np.zeros((1, 2)), np.zeros((1, 1)), None
        self.c = c

    def __deepcopy__(self, memo):
        g = copy.copy(self)
        g.X = g.X.copy()
        return g

    def predict(self, X, y=None, s2=None, add_noise=False):
        return np.zeros((1, 1)), np.zeros((1, 1))

    def get_hyperparameters(self, as_array=False):
        return np.zeros((1, 3))


def h_loop(iters, check=True, delay=True, every=0, min_k=1, free_r=False, warm=False, on=True):
    """the real loop: when a warp is tried, what is kept and what is undone"""

    def h(c):
        np_ = c.np
        tol_i = c.real("tol_i", sign="0+", typ=(0, 0.3))
        mult = c.real("mult", sign="+", typ=(0.5, 2))
        base = c.real("base", sign="0+", typ=(0, 0.2))
        o = dict(do_final_boost=False, fun_evals_per_iter=1, fun_eval_start=1, max_iter=iters, min_iter=0, min_fun_evals=0, max_fun_evals=100, warmup=warm,
                 warp_every_iters=every, incremental_warp_delay=delay, warp_min_k=min_k, warp_tol_reliability=3, warp_undo_check=check, warp_rotoscaling=on, entropy_switch=False, tol_stable_count=50)
        v = make_vbmc(2, o)
        for k, x in dict(warp_tol_improvement=tol_i, warp_tol_sd_multiplier=mult, warp_tol_sd_base=base).items():
            v.options.__setitem__(k, x, force=True)
        nit, ntrain, nopt = [-1], [0], [0]
        events, fits = [], []
        snapd = {}

        def state():
            return dict(vp=snap(v.vp), vtag=getattr(v.vp, "tag", None), gp=v.gp.tag, st=copy.deepcopy(v.optim_state), fl=(v.function_logger.X.copy(), v.function_logger.y.copy(), v.function_logger.func_count), tr=getattr(v.vp.parameter_transformer, "gen", 0),
                        hyp=copy.deepcopy(v.hyp_dict))

        def active_sample(gp, n, optim_state, fl, ih, vp, options):
            c.check(fl.parameter_transformer is vp.parameter_transformer, "record and posterior use the same transform")
            c.check(getattr(vp.parameter_transformer, "gen", 0) == optim_state.get("gen", 0) == getattr(fl, "gen", 0), "record, state and posterior belong to the same space")
            events.append(("sample", v.iteration, state() if gp is not None else None))
            k = fl.func_count
            fl.fun = lambda x: float(k)
            fl(np.array([0.01 * (k + 1), -0.02 * k]))
            return fl, optim_state, vp, gp

        def train_gp(hyp_dict, optim_state, fl, ih, options, plb, pub):
            g = GPTag(c, ("gp", ntrain[0]))
            g.gen = optim_state.get("gen", 0)
            ntrain[0] += 1
            return g, 1, 0.1 * ntrain[0], dict(hyp_dict, n=ntrain[0])

        def optimize_vp(options, optim_state, vp, gp, nf, ns, K=None):
            i = nopt[0]
            nopt[0] += 1
            vp = copy.deepcopy(vp)
            vp.tag = i
            vp.stats = dict(elbo=c.real(f"e{i}", typ=(-1, 1)), elbo_sd=c.real(f"s{i}", sign="+", typ=(0.05, 0.5)), entropy=0.0, e_log_joint=0.0, stable=False)
            fits.append((i, v.iteration, gp.tag, vp.stats))
            c.check(gp.gen == optim_state.get("gen", 0) == getattr(vp.parameter_transformer, "gen", 0), "surrogate and posterior are fitted in the same space")
            return vp, 0.0, 0

        def warp_input(vp, optim_state, fl, options):
            snapd[v.iteration] = state()
            c.check(vp is not v.vp, "the warp is computed from a copy")
            st, f = copy.deepcopy(optim_state), copy.deepcopy(fl)
            tr = copy.deepcopy(vp.parameter_transformer)
            tr.gen = st["gen"] = f.gen = getattr(v.vp.parameter_transformer, "gen", 0) + 1
            f.X, f.y = f.X + 100, f.y + 100
            f.parameter_transformer = tr
            st["warping_count"] += 1
            st["last_warping"] = st["last_successful_warping"] = st["iter"]
            st["lb_search"] = st["lb_search"] - 5
            events.append(("warp", v.iteration, None))
            return tr, st, f, "rotoscale"

        def warp_gp_and_vp(tr, gp, vp, vb):
            u = copy.deepcopy(vp)
            u.parameter_transformer = copy.deepcopy(tr)
            u.mu = u.mu + 7
            return u, np.full((1, 3), 9.0)

        def kl_div(self, vp2=None, samples=None, N=None, gauss_flag=False):
            return np.zeros(2)

        def moments(self, *a, **k):
            return np.zeros((1, 2)), np.eye(2)

        def r_index(i):
            return c.real(f"r{i}", sign="0+", typ=(1, 5)) if free_r else c.q(1)

        def terminated(self):
            i = self.iteration
            self.iteration_history.record("r_index", r_index(i), i)
            self.iteration_history.record("elcbo_impro", 0.0, i)
            self.iteration_history.record("stable", False, i)
            self.optim_state["R"] = 1.0
            return i >= iters - 1, ""

        patched(c, [(vm, "active_sample", active_sample), (vm, "train_gp", train_gp), (vm, "optimize_vp", optimize_vp), (vm, "reupdate_gp", lambda fl, gp: gp), (vm, "warp_input", warp_input), (vm, "warp_gp_and_vp", warp_gp_and_vp),
                    (VariationalPosterior, "kl_div", kl_div), (VariationalPosterior, "moments", moments)])
        v._check_termination_conditions = lambda: terminated(v)
        v._check_warmup_end_conditions = lambda: False
        v._recompute_lcb_max = lambda: np.zeros((1, 1))
        v.determine_best_vp = lambda *a, **k: (copy.deepcopy(v.vp), 0.0, 0.1, 0)
        v._is_gp_sampling_finished = lambda: False
        v.optim_state["warmup"] = warm
        v.optimize()
        # the schedule and the decisions, written out
        last, count, gen = -np.inf, 0, 0
        prev = {}
        fi = {}
        for f in fits:
            fi.setdefault(f[1], []).append(f)
        for i in range(iters):
            due = on and i > 0 and not warm and i - last > every * (max(1, count) if delay else 1) and v.vp.K >= min_k
            if due and free_r:
                due = bool(r_index(i - 1) < 3)
            tried = any(e[0] == "warp" and e[1] == i for e in events)
            c.check(tried == due, "warps are tried on schedule, after warm-up, with enough components and a reliable solution")
            c.check(len(fi[i]) == (2 if due and check else 1), "one fit per iteration, one more to judge a warp")
            if i == 0:
                continue
            s = [e for e in events if e[0] == "sample" and e[1] == i][0][2]
            if due:
                b = snapd[i]
                keep = True
                if check:
                    e0, sd0 = fi[i - 1][-1][3]["elbo"], fi[i - 1][-1][3]["elbo_sd"]
                    e1, sd1 = fi[i][0][3]["elbo"], fi[i][0][3]["elbo_sd"]
                    keep = bool(e1 >= e0 + tol_i) and bool(sd1 <= sd0 * mult + base)
                last = i
                if keep:
                    gen += 1
                    count += 1
                    c.check(s["st"]["gen"] == s["tr"] == gen, "the kept warp is in force")
                    c.check(s["st"]["warping_count"] == count and s["st"]["last_warping"] == i and s["st"]["last_successful_warping"] == i, "a kept warp is counted")
                    if check:
                        c.check(s["gp"] == fi[i][0][2] and s["vtag"] == fi[i][0][0], "surrogate and posterior of the new space")
                else:
                    count += 2
                    c.check(s["tr"] == b["tr"] == gen, "an undone warp restores the transform")
                    for k in b["vp"]:
                        c.check_eq(s["vp"][k], b["vp"][k], "an undone warp restores the posterior")
                    c.check(s["vtag"] == b["vtag"], "an undone warp restores the posterior")
                    c.check(s["gp"] == b["gp"], "an undone warp restores the surrogate")
                    for x, y in zip(s["fl"], b["fl"]):
                        c.check_eq(np.asarray(x), np.asarray(y), "an undone warp restores the record")
                    c.check(repr(s["hyp"]) == repr(b["hyp"]), "an undone warp restores the hyperparameters")
                    for k in b["st"]:
                        if k not in ("warping_count", "last_warping", "hyp_dict"):
                            x, y = s["st"].get(k), b["st"][k]
                            c.check(repr(x) == repr(y), f"an undone warp restores the state ({k})")
                    c.check(set(s["st"]) == set(b["st"]), "an undone warp leaves nothing behind in the state")
                    c.check(s["st"]["warping_count"] == count and s["st"]["last_warping"] == i, "a failed warp counts twice")
            else:
                c.check(s["tr"] == gen, "no change of space without a warp")

    return h


def instances(tier):
    th = tier == "thorough"
    out = []

    def add(name, fn, bound, **k):
        out.append(Inst(name, fn, bound, **k))

    for D, Nx, Ns, fl in [(1, 1, 1, (False, False)), (1, 2, 2, (False, False)), (2, 1, 1, (True, True)), (2, 2, 1, (False, True)), (2, 1, 2, (False, False)), (2, 1, 2, (True, False)), (1, 2, 1, (False, False))] + ([(2, 2, 2, (False, False)), (3, 1, 1, (False, False)), (3, 2, 1, (False, True))] if th else []):
        add(f"unscent[{D},{Nx},{Ns},{int(fl[0])}{int(fl[1])}]", h_unscent(D, Nx, Ns, fl), f"D={D}, {Nx} point(s), {Ns} scale(s)")
    for D, K, N, Ns, mean, T in [(1, 1, 1, 1, "quad", "none"), (1, 2, 2, 1, "const", "T"), (1, 2, 1, 2, "quad", "T"), (2, 1, 1, 1, "const", "none"), (2, 2, 1, 1, "quad", "none"), (2, 2, 2, 2, "quad", "T"), (2, 1, 1, 1, "quad", "T")] + ([(2, 3, 2, 1, "const", "T"), (2, 3, 2, 2, "quad", "T"), (3, 2, 1, 1, "quad", "T"), (1, 3, 2, 2, "const", "none")] if th else []):
        add(f"gpvp[{D},{K},{N},{Ns},{mean},{T}]", h_gp(D, K, N, Ns, mean, T, D > 1), f"D={D} K={K} N={N} samples={Ns} mean={mean} temperature={T}" + (", unscented estimates arbitrary" if D > 1 else ""))
    for D, K, mean, R in [(1, 1, "quad", True), (1, 2, "quad", False), (2, 2, "const", False)] + ([(2, 1, "const", False), (2, 1, "const", True), (2, 2, "const", True), (1, 3, "quad", True)] if th else []):
        add(f"affine[{D},{K},{mean},{int(R)}]", h_affine(D, K, mean, R), f"D={D} K={K}, affine transforms, rotation before={R}")
    for D, K, kind, T, thr, reg, cache, noise in [
        (1, 1, "plain", "none", 0, 0, 0, False),
        (1, 2, "R", "T", 0, 0, 2, True),
        (2, 2, "fix", "none", 0.3, 0.25, 0, False),
        (2, 1, "R", "T", 0, 0.25, 0, False),
        (2, 2, "plain", "none", 0, 0, 1, False),
        (2, 1, "plain", "none", 0, "int", 0, False),
        (2, 1, "plain", "none", 0, "one", 0, False),
        (2, 1, "plain", "T", 0, "neg", 0, True),
    ] + ([(2, 1, "R", "none", 0.05, 0, 0, False), (2, 2, "plain", "none", 0.05, 0, 1, False), (2, 2, "R", "T", 0.05, 0.25, 2, True), (2, 3, "plain", "none", 0.05, 0, 0, False)] if th else []):
        add(f"input[{D},{K},{kind},{T},{thr},{reg},{cache},{int(noise)}]", h_input(D, K, kind, T, thr, reg, cache, noise), f"D={D} K={K} {kind}, threshold {thr}, regularisation {reg}, {cache} cached point(s)")
    for i, kw in enumerate([dict(iters=3), dict(iters=3, check=False), dict(iters=3, free_r=True, every=1), dict(iters=3, warm=True), dict(iters=3, on=False), dict(iters=3, min_k=9)] + ([dict(iters=5, every=1), dict(iters=5, delay=False, every=1)] if th else [dict(iters=4, every=1, delay=True)])):
        add(f"loop[{','.join(f'{k}={x}' for k, x in kw.items())}]", h_loop(**kw), f"optimize(): {kw}")
    return out
