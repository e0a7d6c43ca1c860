"""C19: search candidates stay inside the search box and the hard limits."""
import types

import sys

import numpy as np
import scipy.optimize

from pyvbmc.acquisition_functions import AbstractAcqFcn
from pyvbmc.vbmc import VBMC
from pyvbmc.vbmc.active_sample import _get_search_points, active_sample
from pyvbmc.parameter_transformer import ParameterTransformer
from symex.run import Inst

from checks.c15 import InvTr
from checks.vb import make_vbmc, target

am = sys.modules["pyvbmc.vbmc.active_sample"]

META = dict(assumptions=[
    "candidate sets of up to 3 points with arbitrary source fractions, up to 12 points with the fractions listed; D <= 2, up to 2 cached starting points, up to 3 training points; all bounds, points and draws",
    "the posterior's draws and moments are arbitrary, its transform an arbitrary function (identity in the sampling-loop harnesses)",
    "sampling loop: up to 2 acquisitions per call, acquisition values arbitrary per point, optimisers replaced by stand-ins returning arbitrary points; the branch for infinite search bounds is outside",
])


class RowTr(InvTr):
    """also maps single points"""

    def __call__(self, x):
        return super().__call__(x) if x.ndim > 1 else super().__call__(x[None, :])[0]

    def inverse(self, u):
        return super().inverse(u) if u.ndim > 1 else super().inverse(u[None, :])[0]


class VP:
    """draws and moments are arbitrary"""

    def __init__(self, c, D):
        self.c, self.D, self.n = c, D, 0
        self.drawn = []

    def sample(self, N=1, orig_flag=True, balance_flag=False, df=np.inf):
        c = self.c
        c.check(not orig_flag, "candidates are drawn in the inference space")
        self.n += 1
        x = c.array(f"vp{self.n}", (int(N), self.D), typ=(-3, 3))
        self.drawn.append(x.copy())
        return x, None

    def moments(self, N=1, orig_flag=True, cov_flag=False):
        c = self.c
        c.check(not orig_flag, "moments in the inference space")
        self.n += 1
        m = c.array(f"mb{self.n}", (1, self.D), typ=(-1, 1))
        return (m, c.np.eye(self.D)) if cov_flag else m

    def get_parameters(self, *a, **k):
        return np.zeros(1)


ZERO = dict(cache_frac=0.5, search_cache_frac=0.0, heavy_tail_search_frac=0.0, mvn_search_frac=0.0, hpd_search_frac=0.0,
            hpd_frac=0.8, box_search_frac=0.0)


def h_points(D, N0, n, fr, Nx=2, Nsc=0, sym=(), inf=False):
    """fr: fractions of the sources; sym: those that are arbitrary"""

    def h(c):
        np_ = c.np
        tr = InvTr(D).bind(c, np.full((1, D), -np.inf), np.full((1, D), np.inf))
        vp = VP(c, D)
        o = dict(ZERO)
        o.update(fr)
        for k in sym:
            o[k] = c.real(k, lo=0, hi=1, typ=(0, 1))
        fl = types.SimpleNamespace(parameter_transformer=tr)
        fl.X = c.array("X", (Nx + 1, D), typ=(-2, 2))
        fl.y = c.array("y", (Nx + 1, 1), typ=(-3, 1))
        fl.X_flag = np.array([True] * Nx + [False])
        x0 = c.array("x0", (N0, D), typ=(-1, 1))
        lb = c.array("lb", (1, D), typ=(-3, -1))
        ub = c.array("ub", (1, D), typ=(1, 3))
        plb = c.array("plb", (1, D), typ=(-1, -0.2))
        pub = c.array("pub", (1, D), typ=(0.2, 1))
        if inf:
            lb = np_.full((1, D), -np.inf)
            ub = np_.full((1, D), np.inf)
        for d in range(D):
            c.assume(plb[0, d] < pub[0, d])
            if not inf:
                c.assume(lb[0, d] <= ub[0, d])
        st = dict(cache=dict(x_orig=x0, y_orig=np_.full(N0, np.nan)), lb_search=lb, ub_search=ub, plb_tran=plb, pub_tran=pub,
                  search_cache=c.array("sc", (Nsc, D), typ=(-2, 2)) if Nsc else [])
        keep = {k: v.copy() for k, v in (("x0", x0), ("lb", lb), ("ub", ub), ("X", fl.X), ("y", fl.y))}
        sc = st["search_cache"].copy() if Nsc else None
        try:
            Z, idx = _get_search_points(n, st, fl, vp, o)
        except ValueError as e:
            # documented: the configured sources exceed the requested number
            m = n - min(int(np.ceil(float(n * fr.get("cache_frac", ZERO["cache_frac"])))), N0) if N0 else n
            r = lambda k, cap=10**9: min(round(o[k] * m), cap)
            c.check(int(r("search_cache_frac", Nsc)) + int(r("heavy_tail_search_frac")) + int(r("mvn_search_frac"))
                    + int(r("hpd_search_frac")) + int(r("box_search_frac")) > m, f"only an excess of points is refused ({e})")
            return
        c.check(Z.shape == (n, D), "exactly the requested number of candidates")
        c.check(idx.shape == (n,), "one cache index per candidate")
        used = []
        for i in range(n):
            for d in range(D):
                if not inf:
                    c.check(Z[i, d] >= lb[0, d], "candidate not below the search bounds")
                    c.check(Z[i, d] <= ub[0, d], "candidate not above the search bounds")
                else:
                    c.check(bool(np_.isfinite(Z[i, d])), "candidate is finite")
            if not bool(np_.isnan(idx[i])):
                j = int(idx[i])
                c.check(0 <= j < N0, "index of a cached point")
                used.append(j)
                if 0 <= j < N0:
                    for d in range(D):
                        c.check_eq(Z[i, d], np_.minimum(np_.maximum(c.uf(f"T{d}", [keep["x0"][j, d]]), lb[0, d]), ub[0, d]),
                                   "an indexed candidate is the cached starting point")
        c.check(len(set(used)) == len(used), "no cached point is proposed twice")
        c.check_eq(st["cache"]["x_orig"], keep["x0"], "cache unchanged")
        c.check_eq(lb, keep["lb"], "search bounds unchanged")
        c.check_eq(ub, keep["ub"], "search bounds unchanged")
        c.check_eq(fl.X, keep["X"], "record unchanged")
        c.check_eq(fl.y, keep["y"], "record unchanged")
        if Nsc:
            c.check_eq(st["search_cache"], sc, "search cache unchanged")

    return h


def setup_loop(c, D, N0, y0, opts, noise=False):
    np_ = c.np
    v = make_vbmc(D, opts, noise)
    st, fl = v.optim_state, v.function_logger
    fl.parameter_transformer = ParameterTransformer(D)  # identity
    calls = []

    def f(x):
        calls.append(x.copy())
        r = c.uf("target", [x.ravel()[d] for d in range(D)])
        return (r, 1.0) if noise else r

    fl.fun = f
    for nm, t in (("plb_tran", (-1, -0.5)), ("pub_tran", (0.5, 1)), ("lb_search", (-3, -1)), ("ub_search", (1, 3)), ("lb_tran", (-5, -3)), ("ub_tran", (3, 5))):
        st[nm] = c.array(nm, (1, D), typ=t)
    for d in range(D):
        a = [st[k][0, d] for k in ("lb_tran", "lb_search", "plb_tran", "pub_tran", "ub_search", "ub_tran")]
        for i in range(5):
            c.assume(a[i] < a[i + 1] if i == 2 else a[i] <= a[i + 1])
    x0 = c.array("x0", (N0, D), typ=(-0.5, 0.5))
    ys = np_.array([c.real(f"y0_{i}", typ=(-3, 1)) if y0[i] else np.nan for i in range(N0)]) if N0 else np_.zeros((0,))
    for i in range(N0):
        for d in range(D):
            c.assume(st["plb_tran"][0, d] <= x0[i, d])
            c.assume(x0[i, d] <= st["pub_tran"][0, d])
    st["cache"] = dict(x_orig=x0, y_orig=ys)
    return v, st, fl, x0.copy(), ys.copy(), calls


def differ(c, A, B):
    """pairwise different points (the first coordinate differs)"""
    for a in A:
        for b in B:
            c.assume(a[0] != b[0])


def h_init(D, N0, n, y0, design, noise=False):
    def h(c):
        np_ = c.np
        v, st, fl, x0, ys, calls = setup_loop(c, D, N0, y0, dict(init_design=design), noise)
        for i in range(N0):
            differ(c, [x0[i]], x0[:i])
        P, Q = st["plb_tran"].copy(), st["pub_tran"].copy()
        c.notes["draws"] = []
        r = active_sample(None, n, st, fl, v.iteration_history, v.vp, v.options)
        m = min(N0, n)
        drawn = [a for t, a in c.notes["draws"]] if n > N0 else []
        X, Y = fl.X_orig, fl.y_orig
        # points drawn may coincide with others only on a null set: excluded
        if n > N0 and fl.Xn + 1 < n:
            c.assume(False)
        c.check(fl.Xn + 1 == n, "the requested number of points is evaluated")
        if fl.Xn + 1 != n:
            return
        c.check_eq(X[:m], x0[:m], "the provided points come first, in order")
        k = 0
        for i in range(n):
            known = i < N0 and y0[i]
            if known:
                c.check_eq(Y[i, 0], ys[i], "the provided value is recorded")
            else:
                c.check(k < len(calls), "a missing value is evaluated")
                if k < len(calls):
                    c.check_eq(calls[k].ravel(), X[i], "evaluated at the recorded point")
                k += 1
            if i >= N0:
                for d in range(D):
                    c.check(X[i, d] >= P[0, d], "design point above the plausible lower bound")
                    c.check(X[i, d] <= Q[0, d], "design point below the plausible upper bound")
                    if design == "narrow":
                        w = (Q[0, d] - P[0, d]) * c.q(1, 20)
                        c.check(abs(X[i, d] - x0[0, d]) <= w, "narrow design: close to the first point")
        c.check(len(calls) == k, "known values are not evaluated again")
        c.check(st["cache"]["x_orig"].shape[0] == 0 and st["cache"]["y_orig"].shape[0] == 0, "the cache of starting points is used up")
        c.check_eq(st["plb_tran"], P, "plausible bounds unchanged")
        c.check_eq(st["pub_tran"], Q, "plausible bounds unchanged")

    return h


class GP:
    """surrogate: only its inputs and length scales are used here"""

    def __init__(self, c, X, y):
        D = X.shape[1]
        self.D, self.X, self.y, self.s2 = D, X, y, None
        self.temporary_data = {}
        self.covariance = types.SimpleNamespace(hyperparameter_count=lambda D: D + 1)
        self.noise = types.SimpleNamespace(hyperparameter_count=lambda: 1, compute=lambda h, X, y, s2: c.np.ones((X.shape[0], 1)))
        self.posteriors = np.array([types.SimpleNamespace(hyp=np.zeros(D + 3))], dtype=object)
        self.updates = []

    def update(self, X, y, compute_posterior=True, **k):
        self.updates.append((X.copy(), y.copy()))


class Acq(AbstractAcqFcn):
    """arbitrary acquisition values"""

    def __init__(self, c, log=False):
        super().__init__()
        self.acq_info = dict(log_flag=log)
        self.c, self.seen, self.sets = c, [], []

    def __call__(self, X, gp, vp, fl, st):
        if X.ndim > 1:
            self.sets.append(X.copy())
        X = X[None, :] if X.ndim == 1 else X
        self.seen.append(X.copy())
        c = self.c
        r = c.np.zeros(X.shape[0])
        for i in range(X.shape[0]):
            r[i] = c.uf("acq", [X[i, d] for d in range(X.shape[1])])
        return r

    def _compute_acquisition_function(self, *a, **k):
        raise AssertionError

    def value(self, x):
        return self.c.uf("acq", [x.ravel()[d] for d in range(x.size)])


def h_loop(D, N0, y0, n, opt, scache=False, samples=1, log=False):
    """opt: None, "cmaes" or "Nelder-Mead"; n candidates"""

    def h(c):
        np_ = c.np
        v, st, fl, x0, ys, calls = setup_loop(c, D, N0, y0, dict(
            ns_search=n, search_optimizer=opt or "none", search_cache_frac=0.5 if scache else 0.0, cache_frac=0.5,
            heavy_tail_search_frac=0.0, mvn_search_frac=0.0, hpd_search_frac=0.0, box_search_frac=0.0,
            active_sample_vp_update=False, active_sample_gp_update=False, search_cmaes_vp_init=True))
        acq = Acq(c, log)
        v.options.__setitem__("search_acq_fcn", [acq], force=True)
        T = c.array("T", (2, D), typ=(-0.5, 0.5))
        differ(c, [T[0]], [T[1]])
        differ(c, T, x0)
        for i in range(N0):
            differ(c, [x0[i]], x0[:i])
        for i in range(2):
            fl.add(T[i], c.real(f"yt{i}", typ=(-3, 1)))
        st["search_cache"] = []
        vp = VP(c, D)
        gp = GP(c, fl.X[:2].copy(), fl.y[:2].copy())
        start, found = [], []
        lb, ub = st["lb_search"].copy(), st["ub_search"].copy()
        SL, SU = lb[0].copy(), ub[0].copy()
        LB, UB = st["lb_tran"].copy(), st["ub_tran"].copy()
        PL, PU = st["plb_tran"].copy(), st["pub_tran"].copy()

        def search(f, a):
            start.append(a.copy())
            x = c.array(f"opt{len(found)}", (D,), typ=(-2, 2))
            found.append(x.copy())
            return x, f(x)

        def fmin(f, a, sigma0, options=None, **k):
            lo, hi = options["bounds"]
            for d in range(D):
                c.check(np_.ravel(lo)[d] <= a[d], "the optimiser's bounds contain its starting point")
                c.check(a[d] <= np_.ravel(hi)[d], "the optimiser's bounds contain its starting point")
                if samples == 1:
                    c.check_eq(np_.ravel(lo)[d], lb[0, d], "the optimiser searches within the search bounds")
                    c.check_eq(np_.ravel(hi)[d], ub[0, d], "the optimiser searches within the search bounds")
            return search(f, a)

        def minimize(f, a, method=None, tol=None, **k):
            x, y = search(f, a)
            return types.SimpleNamespace(x=x, fun=y)

        cma = types.SimpleNamespace(fmin=fmin, NoiseHandler=lambda *a, **k: None)
        for o, nm, g in ((am, "cma", cma), (scipy.optimize, "minimize", minimize), (am, "reupdate_gp", lambda fl, gp: gp)):
            c.cleanup.append(lambda o=o, nm=nm, old=getattr(o, nm): setattr(o, nm, old))
            setattr(o, nm, g)
        calls.clear()
        rec = fl.Xn
        active_sample(gp, samples, st, fl, v.iteration_history, vp, v.options)
        sets = [x for x in acq.sets if x.shape == (n, D)]
        c.check(len(sets) == samples, "one candidate set per acquisition")
        if len(sets) != samples:
            return
        for drawn in vp.drawn:
            differ(c, drawn, x0)
        for i in range(N0):
            c.assume(SL[0] < x0[i, 0])
            c.assume(x0[i, 0] < SU[0])
        cache = [(x0[i], ys[i], bool(y0[i])) for i in range(N0)]
        ncalls, new = 0, []
        for s in range(samples):
            Z = sets[s]
            for i in range(n):
                for d in range(D):
                    c.check(Z[i, d] >= lb[0, d], "candidate not below the search bounds")
                    c.check(Z[i, d] <= ub[0, d], "candidate not above the search bounds")
            val = [acq.value(Z[i]) for i in range(n)]
            best = 0
            for i in range(1, n):
                if val[i] < val[best]:
                    best = i
            for i in range(n):
                if i != best:
                    c.assume(val[best] < val[i])  # ties: any of the best
            x, y, known, src = Z[best], None, False, None
            for j, (p, q, k) in enumerate(cache):
                if all(bool(p[d] == x[d]) for d in range(D)):
                    src, y, known = j, q, k
            if opt is not None:
                c.check_eq(start[s], x, "the optimiser starts from the best candidate")
                if acq.value(found[s]) < val[best]:
                    x, known, src = found[s], False, None
            rows = [T[0], T[1]] + new
            differ(c, [x], rows + ([p for j, (p, _, _) in enumerate(cache) if j != src] if src is None else []))
            rec += 1
            c.check(fl.Xn >= rec, "every acquisition is recorded")
            if fl.Xn < rec:
                return
            c.check_eq(fl.X[rec], x, "the point with the lowest acquisition value is acquired")
            if known:
                c.check_eq(fl.y_orig[rec, 0], y, "a known value is used")
                del cache[src]
            else:
                c.check(len(calls) > ncalls, "the target is evaluated")
                if len(calls) > ncalls:
                    c.check_eq(calls[ncalls].ravel(), x, "the target is evaluated at the acquired point")
                ncalls += 1
            if s + 1 < samples:
                c.check(len(gp.updates) == s + 1, "the surrogate is updated between acquisitions")
                if len(gp.updates) == s + 1:
                    c.check_eq(np_.ravel(gp.updates[s][0]), x, "the surrogate is updated with the acquired point")
                    c.check_eq(np_.ravel(gp.updates[s][1])[0], fl.y[rec, 0], "the surrogate is updated with its value")
            new.append(x)
            for d in range(D):
                w = (ub[0, d] - lb[0, d]) * c.q(1, 20)
                l, u = lb[0, d], ub[0, d]
                for e in (abs(x[d] - l) - w, abs(x[d] - u) - w):
                    if c.mode == "con":
                        c.assume(abs(float(e)) > 1e-9)
                if abs(x[d] - l) < w:
                    lb[0, d] = np_.maximum(LB[0, d], l - w)
                if abs(x[d] - u) < w:
                    ub[0, d] = np_.minimum(UB[0, d], u + w)
        c.check(fl.Xn == rec, "nothing else is recorded")
        c.check(len(calls) == ncalls, "the target is evaluated for the acquired points only")
        c.check_eq(st["lb_search"], lb, "search bounds widen next to acquired points, within the hard bounds")
        c.check_eq(st["ub_search"], ub, "search bounds widen next to acquired points, within the hard bounds")
        for k, a in (("lb_tran", LB), ("ub_tran", UB), ("plb_tran", PL), ("pub_tran", PU)):
            c.check_eq(st[k], a, "other bounds unchanged")
        c.check(st["cache"]["x_orig"].shape[0] == len(cache) and st["cache"]["y_orig"].shape[0] == len(cache), "used cached points are removed")
        if st["cache"]["x_orig"].shape[0] == len(cache):
            for j, (p, q, k) in enumerate(cache):
                c.check_eq(st["cache"]["x_orig"][j], p, "other cached points stay")

    return h


def h_int(D, mask, shape):
    """snapping: integer values inside half-integer hard bounds"""

    def h(c):
        np_ = c.np
        lo = [c.int(f"lo{d}", -4, 0) for d in range(D)]
        hi = [c.int(f"hi{d}", 0, 4) for d in range(D)]
        for d in range(D):
            c.assume(lo[d] < hi[d])
        tr = RowTr(D).bind(c, np.full((1, D), -np.inf), np.full((1, D), np.inf))
        X = c.array("X", shape, typ=(-2, 2))
        kX, m = X.copy(), np.array(mask)
        X2 = np_.reshape(X, (-1, D))
        U = [[c.uf(f"Inv{d}", [X2[i, d]]) for d in range(D)] for i in range(X2.shape[0])]
        for i in range(X2.shape[0]):
            for d in range(D):
                # any point in the support
                if c.mode == "con":
                    f = float(U[i][d])
                    c.assume(abs(f - np.floor(f) - 0.5) > 1e-6)
                c.assume(lo[d] - c.q(1, 2) < U[i][d])
                c.assume(U[i][d] < hi[d] + c.q(1, 2))
        R = AbstractAcqFcn._real2int(X, tr, m)
        c.check(R.shape == tuple(shape), "shape kept")
        c.check_eq(X, kX, "the caller's points are unchanged")
        R2, k2 = np_.reshape(R, (-1, D)), np_.reshape(kX, (-1, D))
        for i in range(R2.shape[0]):
            for d in range(D):
                if not mask[d]:
                    c.check_eq(R2[i, d], k2[i, d], "other variables unchanged")
                    continue
                # the value handed to the forward transform
                r = np_.around(U[i][d])
                c.check(r >= lo[d], "snapped value inside the hard bounds")
                c.check(r <= hi[d], "snapped value inside the hard bounds")
                c.check_eq(R2[i, d], c.uf(f"T{d}", [r]), "snapped to the nearest admissible value")

    return h


def h_ctor(D, mask, kind):
    """constructor: integer variables need half-integer bounds"""

    def h(c):
        np_ = c.np
        lb = c.array("lb", (1, D), -9, -4)
        ub = c.array("ub", (1, D), 4, 9)
        q = c.choose("half", ["half", "any"])
        m = list(mask) if kind == "list" else np.array(mask)
        if q == "half":
            for d in range(D):
                if mask[d]:
                    lb[0, d] = c.int(f"il{d}", -9, -5) + c.q(1, 2)
                    ub[0, d] = c.int(f"iu{d}", 5, 9) - c.q(1, 2)
        one = np.ones((1, D))
        vm = sys.modules["pyvbmc.vbmc.vbmc"]
        c.cleanup.append(lambda old=vm.ParameterTransformer: setattr(vm, "ParameterTransformer", old))
        vm.ParameterTransformer = lambda D, *a, **k: ParameterTransformer(D)
        try:
            v = VBMC(target, 0 * one, lb, ub, -one, one, options=dict(display="off", integer_vars=m))
        except ValueError:
            v = None
        if q == "half":
            c.check(v is not None, "half-integer bounds are accepted")
        if v is None:
            return
        iv = v.optim_state["integer_vars"]
        c.check(np.shape(iv) == (D,), "one flag per variable")
        for d in range(D):
            c.check(bool(iv[d]) == bool(mask[d]), "exactly the listed variables are integers")
            if mask[d]:
                c.check_eq(np_.around(lb[0, d] + c.q(1, 2)), lb[0, d] + c.q(1, 2), "only half-integer bounds are accepted")
                c.check_eq(np_.around(ub[0, d] + c.q(1, 2)), ub[0, d] + c.q(1, 2), "only half-integer bounds are accepted")

    return h


def instances(tier):
    out = []

    def add(nm, h, b, **kw):
        out.append(Inst(nm, h, b, time_s=kw.pop("time_s", 500), **kw))

    DEF = dict(heavy_tail_search_frac=0.25, mvn_search_frac=0.25, box_search_frac=0.25)
    # sources, sizes as configured by default and alternatives
    for D in (1, 2):
        for N0 in (0, 1, 2):
            add(f"points:default:D{D}:cache{N0}", h_points(D, N0, 4 if D == 2 else 8, DEF), f"D={D}, {N0} cached points")
    for nm, fr, n in (
        ("heavy", dict(heavy_tail_search_frac=0.5), 3), ("mvn", dict(mvn_search_frac=1.0), 2), ("box", dict(box_search_frac=1.0), 2),
        ("hpd", dict(hpd_search_frac=1.0), 3), ("none", {}, 2), ("cacheall", dict(cache_frac=1.0), 3), ("nocache", dict(cache_frac=0.0), 2),
        ("scache", dict(search_cache_frac=0.5), 4), ("mixed", dict(search_cache_frac=0.25, hpd_search_frac=0.25, **DEF), 4),
        ("excess", dict(heavy_tail_search_frac=0.75, mvn_search_frac=0.75), 4),
    ):
        add(f"points:{nm}", h_points(2 if nm != "hpd" else 1, 2, n, fr, Nsc=2 if nm in ("scache", "mixed") else 0), f"{n} candidates")
    add("points:shortcache", h_points(1, 0, 8, dict(search_cache_frac=0.5), Nsc=2), "search cache shorter than requested")
    add("points:infinite", h_points(1, 1, 3, dict(box_search_frac=1.0), inf=True), "no search bounds")
    for n in (1, 2, 3):
        add(f"points:anyfrac:{n}", h_points(1, 1, n, {}, sym=("heavy_tail_search_frac", "mvn_search_frac", "box_search_frac")), f"{n} candidates, arbitrary fractions")
        add(f"points:anyfrac2:{n}", h_points(1, 0, n, {}, Nsc=2, sym=("search_cache_frac", "heavy_tail_search_frac")), f"{n} candidates, arbitrary fractions")
    for design in ("plausible", "narrow"):
        for N0, n, y0 in ((1, 1, [False]), (1, 3, [False]), (1, 2, [True]), (2, 3, [True, False]), (2, 1, [False, False]), (3, 2, [False, True, True])):
            add(f"init:{design}:{N0}of{n}:{''.join('yn'[not y] for y in y0)}", h_init(1, N0, n, y0, design), f"{N0} provided points, {n} requested")
        add(f"init:{design}:D2", h_init(2, 1, 2, [False], design), "D=2")
        add(f"init:{design}:noise", h_init(1, 1, 2, [False], design, noise=True), "noisy target")
    for opt in (None, "cmaes", "Nelder-Mead"):
        D = 1 if opt == "Nelder-Mead" else 2
        nm = opt or "none"
        add(f"loop:{nm}:fresh", h_loop(D, 0, [], 2, opt), "2 candidates")
        add(f"loop:{nm}:cache", h_loop(D, 1, [True], 2, opt), "2 candidates, 1 cached")
        add(f"loop:{nm}:unknown", h_loop(D, 1, [False], 2, opt), "2 candidates, 1 cached without value")
        m = 1 if opt else 2
        if opt != "cmaes" or tier == "thorough":
            add(f"loop:{nm}:twice", h_loop(1 if opt != "cmaes" else 2, 0, [], m, opt, samples=2), "2 acquisitions")
    add("loop:none:scache", h_loop(1, 0, [], 2, None, scache=True, samples=2), "2 acquisitions, search cache")
    add("loop:none:cachetwice", h_loop(1, 2, [True, True], 2, None, samples=2), "2 acquisitions, 2 cached points")
    for D, mask, shape in ((1, [True], (1, 1)), (2, [True, False], (2, 2)), (2, [False, True], (2,)), (2, [True, True], (1, 2)), (2, [False, False], (1, 2))):
        add(f"int:{D}:{''.join('yn'[not m] for m in mask)}:{len(shape)}", h_int(D, mask, shape), f"D={D}")
    for D, mask, kind in ((1, [True], "list"), (2, [True, False], "list"), (2, [False, True], "array"), (2, [False, False], "list")):
        add(f"ctor:{''.join('yn'[not m] for m in mask)}:{kind}", h_ctor(D, mask, kind), f"D={D}")
    if tier == "thorough":
        for N0 in (0, 2):
            add(f"points:default:D3:cache{N0}", h_points(3, N0, 8, DEF), "D=3", time_s=800)
        add("points:anyfrac:4", h_points(1, 2, 4, {}, sym=("heavy_tail_search_frac", "mvn_search_frac", "box_search_frac")), "4 candidates", time_s=800)
        add("loop:cmaes:3", h_loop(2, 1, [True], 3, "cmaes"), "3 candidates", time_s=800)
        add("loop:none:thrice", h_loop(1, 1, [True], 2, None, samples=3), "3 acquisitions", time_s=800)
    return out
