"""C33: the mode is the best point found, and belongs to the current posterior."""
import sys
import types

import numpy as np

from symex.run import Inst

from checks.c15 import InvTr
from checks.vpb import make_vp, snap, unchanged

VPM = sys.modules["pyvbmc.variational_posterior.variational_posterior"]

META = dict(assumptions=[
    "D <= 2 variables, K <= 5 components, up to 3 starting samples per optimisation (the code draws 10^5); density, gradient, samples and transform arbitrary",
    "the optimiser is a stand-in returning an arbitrary point inside the bounds it was given, not worse than its starting point",
])


def bind(c, v, log):
    """density and draws of the posterior are arbitrary"""
    np_ = c.np
    D = v.D

    def value(u, orig):
        tag = "p" if orig else "pt"
        return c.uf(f"{tag}{log['gen']}", [u[d] for d in range(D)])

    def pdf(x, orig_flag=True, log_flag=False, grad_flag=False, df=np.inf):
        c.check(log_flag, "log density requested")
        X = x[None, :] if x.ndim == 1 else x
        r = np_.zeros((X.shape[0], 1))
        for i in range(X.shape[0]):
            r[i, 0] = value(X[i], orig_flag)
        if x.ndim == 1:
            r = r[0]
        if grad_flag:
            c.check(not orig_flag, "gradients in the inference space")
            g = np_.zeros((X.shape[0], D))
            for i in range(X.shape[0]):
                for d in range(D):
                    g[i, d] = c.uf(f"g{d}", [X[i, k] for k in range(D)])
            return r, (g if x.ndim > 1 else g[0])
        return r

    def sample(N, orig_flag=True, **k):
        log["n"] += 1
        x = c.array(f"s{log['n']}", (log["M"], D), typ=(-1, 1))
        for i in range(log["M"]):
            for d in range(D):
                c.assume(-2 < x[i, d])
                c.assume(x[i, d] < 2)
        log["cand"].append((log["gen"], x.copy()))
        c.check(bool(orig_flag) == bool(log["orig"]), "starting points in the requested space")
        return x, None

    def minimize(fun, x0, bounds=None, jac=None, **k):
        i = len(log["opt"])
        x = c.array(f"o{i}", (D,), typ=(-1, 1))
        for d in range(D):
            lo, hi = (-3, 3) if bounds is None else bounds[d]
            c.assume(lo <= x[d])
            c.assume(x[d] <= hi)
        a, b = fun(x0.copy()), fun(x.copy())
        if log["orig"]:
            c.check(bounds is not None, "bounded search in the original space")
            for d in range(D):
                lb = v.parameter_transformer.lb_orig[0, d]
                c.check(bounds[d][0] > lb, "search inside the hard bounds")
                c.check(bounds[d][1] < v.parameter_transformer.ub_orig[0, d], "search inside the hard bounds")
        else:
            c.check(bool(jac), "the gradient is used")
        if jac:
            for d in range(D):
                c.check_eq(np_.ravel(b[1])[d], -c.uf(f"g{d}", [x[k] for k in range(D)]), "gradient of the objective")
            a, b = a[0], b[0]
        c.check_eq(np_.ravel(b)[0], -value(x, log["orig"]), "objective: minus the log density")
        c.assume(np_.ravel(b)[0] <= np_.ravel(a)[0])
        log["opt"].append(x.copy())
        return types.SimpleNamespace(x=x, fun=b if c.mode == "con" and np.ndim(b) == 0 else np_.ravel(b)[0])

    v.pdf, v.sample = pdf, sample
    c.cleanup.append(lambda old=VPM.minimize: setattr(VPM, "minimize", old))
    VPM.minimize = minimize
    return value


def h_mode(D, K, M, orig, n_opts=None, again=False):
    def h(c):
        np_ = c.np
        tr = InvTr(D).bind(c, np.full((1, D), -4.0), np.full((1, D), 4.0))
        if orig:
            tr.lb_orig = np_.array([[c.real(f"lb{d}", typ=(-5, -3)) for d in range(D)]])
            tr.ub_orig = np_.array([[c.real(f"ub{d}", typ=(3, 5)) for d in range(D)]])
            for d in range(D):
                c.assume(tr.lb_orig[0, d] < -3)
                c.assume(tr.ub_orig[0, d] > 3)
        v = make_vp(c, D, K, tr, norm=True)
        log = dict(gen=0, n=0, M=M, cand=[], opt=[], orig=orig)
        value = bind(c, v, log)
        s = snap(v)
        means = []
        for k in range(K):
            m = np_.array([c.uf(f"Inv{d}", [v.mu[d, k]]) if orig else v.mu[d, k] for d in range(D)])
            for d in range(D):
                if orig:
                    c.assume(m[d] > -3)
                    c.assume(m[d] < 3)
            means.append(m)
        kw = {} if n_opts is None else dict(n_opts=n_opts)
        x = v.mode(orig_flag=orig, **kw)
        runs = n_opts if n_opts is not None else int(np.ceil(np.sqrt(K)))
        c.check(x.shape == (D,), "one point")
        c.check(len(log["opt"]) == runs, "the requested number of optimisations")
        unchanged(c, v, s)
        y = value(x, orig)
        for _, X in log["cand"]:
            for i in range(M):
                c.check(y >= value(X[i], orig), "at least as high as every starting point")
        for m in means:
            c.check(y >= value(m, orig), "at least as high as every component mean")
        for o in log["opt"]:
            c.check(y >= value(o, orig), "the best of all optimisation results")
        c.check(any(all(bool(o[d] == x[d]) for d in range(D)) for o in log["opt"]), "the mode is one of the points found")
        if again:
            k = x.copy()
            x[0] = 7
            z = v.mode(orig_flag=orig)
            if orig:
                c.check(len(log["opt"]) == runs, "a known mode is not searched again")
                c.check_eq(z, k, "the same mode again")
            # the posterior changes: the old mode is not reported for it
            th = v.get_parameters()
            v.set_parameters(th.copy())
            log["gen"] = 1
            n = len(log["opt"])
            w = v.mode(orig_flag=orig)
            c.check(len(log["opt"]) > n, "a changed posterior is searched anew")
            if len(log["opt"]) > n:
                y = value(w, orig)
                for g, X in log["cand"]:
                    if g == 1:
                        for i in range(M):
                            c.check(y >= value(X[i], orig), "at least as high as every starting point of the changed posterior")

    return h


def instances(tier):
    out = []

    def add(nm, h, b, **kw):
        out.append(Inst(nm, h, b, time_s=kw.pop("time_s", 500), **kw))

    for orig in (False, True):
        o = "orig" if orig else "trans"
        add(f"{o}:D1:K1", h_mode(1, 1, 2, orig), "D=1, K=1")
        add(f"{o}:D1:K2", h_mode(1, 2, 1, orig), "D=1, K=2, 2 optimisations")
        add(f"{o}:D2:K1", h_mode(2, 1, 2, orig), "D=2, K=1")
        add(f"{o}:D2:K2", h_mode(2, 2, 1, orig, n_opts=1), "D=2, K=2, 1 optimisation")
        add(f"{o}:D1:K1:n3", h_mode(1, 1, 1, orig, n_opts=3), "D=1, K=1, 3 optimisations")
        add(f"{o}:again", h_mode(1, 1, 1, orig, again=True), "D=1, K=1, repeated")
        if tier == "thorough":
            add(f"{o}:D1:K5", h_mode(1, 5, 1, orig), "D=1, K=5, 3 optimisations", time_s=800)
            add(f"{o}:D2:K3", h_mode(2, 3, 2, orig), "D=2, K=3, 2 optimisations", time_s=800)
    return out
