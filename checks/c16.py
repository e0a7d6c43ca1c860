"""C16: gradients used in variational optimisation are exact derivatives."""
import itertools

import numpy as np

from pyvbmc.entropy import entlb_vbmc, entmc_vbmc
from pyvbmc.vbmc import variational_optimization as vo
from symex.run import Inst

from checks.c17 import set_groups, theta_of, to_theta
from checks.gpx import make_gp
from checks.vpb import make_vp, snap, unchanged

META = dict(assumptions=[
    "D <= 2 variables (3 in thorough), K <= 3 components, N <= 2 training points, up to 2 hyperparameter samples; all parameters, soft bounds and surrogate quantities",
    "reference: exact symbolic derivative of the value the code returns without the gradient flag",
    "Monte-Carlo entropy: derivative along the drawn points (the zero-mean score terms of means and scales are, as in the reparameterisation trick, left out)",
    "objective: weight penalty and soft bounds are piecewise; their kinks (a value exactly on a threshold) are excluded",
])


def raw_params(c, v, groups):
    """the raw parameters selected by groups as one vector of symbols"""
    np_ = c.np
    D, K = v.D, v.K
    x = []
    if groups[0]:
        x += [v.mu[d, k] for k in range(K) for d in range(D)]
    if groups[1]:
        x += [v.sigma[0, k] for k in range(K)]
    if groups[2]:
        x += [v.lambd[d, 0] for d in range(D)]
    if groups[3]:
        x += [v.w[0, k] for k in range(K)]
    return np_.array(x)


def put(v, x, groups):
    D, K = v.D, v.K
    i = 0
    if groups[0]:
        v.mu = x[: D * K].reshape((D, K), order="F").copy()
        i = D * K
    if groups[1]:
        v.sigma = x[i : i + K].reshape((1, K)).copy()
        i += K
    if groups[2]:
        v.lambd = x[i : i + D].reshape((D, 1)).copy()
        i += D
    if groups[3]:
        v.w = x[i : i + K].reshape((1, K)).copy()


def clone(c, v):
    import copy

    u = copy.copy(v)
    for k in ("mu", "sigma", "lambd", "w", "eta"):
        setattr(u, k, getattr(v, k).copy())
    return u


def free_w(c, v):
    """weights as independent positive numbers (the derivative with respect to
    a weight is taken on the unnormalised formula)"""
    v.w = c.array("wf", (1, v.K), sign="+", typ=(0.2, 0.8))


def h_part(what, D, K, groups, jac, N=1, Ns=1, mean="quad", avg=True):
    """raw encoding: derivative in the raw parameters; transformed encoding:
    derivative in the logarithms / softmax arguments"""

    def h(c):
        np_ = c.np
        v = make_vp(c, D, K)
        g = None
        if what == "G":
            g = make_gp(c, D, N, Ns, mean)
        e = None
        if groups[3]:
            if jac:
                e = c.array("ew", (K,), sign="+", typ=(0.3, 0.9))
                v.eta = np_.log(e).reshape((1, K))
                v.w = (e / np_.sum(e)).reshape((1, K))
            else:
                free_w(c, v)

        def val(u):
            if what == "H":
                return entlb_vbmc(u, (False,) * 4)[0]
            return vo._gp_log_joint(u, g, False, avg, True, 0)[0]

        s0 = snap(v)
        if what == "H":
            y, dy = entlb_vbmc(v, groups, jac)
        else:
            y, dy = vo._gp_log_joint(v, g, groups, avg, jac, 0)[:2]
        unchanged(c, v, s0)
        x = raw_params(c, v, groups)
        nw = len(x) - (K if groups[3] else 0)
        if groups[3] and jac:
            x = np_.concatenate([x[:nw], e])

        def f(z):
            u = clone(c, v)
            if groups[3] and jac:
                q = z[nw:]
                z = np_.concatenate([z[:nw], q / np_.sum(q)])
            put(u, z, groups)
            return val(u)

        y0, J = c.jac(f, x)
        c.check_eq(y, y0, "the value is the same as without the gradient")
        many = J.ndim == 2
        c.check(dy.shape == (len(x),) + ((Ns,) if many else ()), "one derivative per selected parameter")
        nlog = D * K if groups[0] else 0
        for i in range(len(x)):
            m = x[i] if (jac and i >= nlog) else 1
            if many:
                for s in range(Ns):
                    c.check_eq(dy[i, s], J[s, i] * m, "gradient is the derivative of the value")
            else:
                c.check_eq(dy[i], J[i] * m, "gradient is the derivative of the value")

    return h


def h_mc(D, K, Ns, groups, jac):
    """Monte-Carlo entropy: derivative through the drawn points (weights: all
    terms)"""

    def h(c):
        np_ = c.np
        v = make_vp(c, D, K)
        e = None
        if groups[3]:
            if jac:
                e = c.array("ew", (K,), sign="+", typ=(0.3, 0.9))
                v.eta = np_.log(e).reshape((1, K))
                v.w = (e / np_.sum(e)).reshape((1, K))
            else:
                free_w(c, v)
        c.notes["draws"] = []
        y, dy = entmc_vbmc(v, Ns, groups, jac)
        zs = [a for t, a in c.notes["draws"] if t == "randn"]
        x = raw_params(c, v, groups)
        nw = len(x) - (K if groups[3] else 0)
        if groups[3] and jac:
            x = np_.concatenate([x[:nw], e])
        nc = float(1 / (2 * np.pi) ** (D / 2))

        def f(z):
            u = clone(c, v)
            if groups[3] and jac:
                q = z[nw:]
                z = np_.concatenate([z[:nw], q / np_.sum(q)])
            put(u, z, groups)
            tot = c.q(0)
            for j in range(K):
                for sg in (1, -1):
                    for n in range(zs[j].shape[0]):
                        p = [u.mu[d, j] + sg * zs[j][n, d] * u.sigma[0, j] * u.lambd[d, 0] for d in range(D)]
                        t = c.q(0)
                        for k in range(K):
                            # density of the fixed mixture (weights vary)
                            q, den = c.q(0), c.q(1)
                            for d in range(D):
                                q = q + ((p[d] - v.mu[d, k]) / (v.sigma[0, k] * v.lambd[d, 0])) ** 2
                                den = den * v.sigma[0, k] * v.lambd[d, 0]
                            t = t + u.w[0, k] * nc * np_.exp(-q / 2) / den
                        tot = tot - u.w[0, j] * np_.log(t) / (2 * zs[j].shape[0])
            return tot

        # symbolic runs: separate copies of the symbols for the fixed mixture
        y0, J = jac_frozen(c, f, x, v, e if (groups[3] and jac) else None)
        c.check_eq(y, y0, "value on the drawn points")
        c.check(dy.shape == (len(x),), "one derivative per selected parameter")
        nlog = D * K if groups[0] else 0
        for i in range(len(x)):
            m = x[i] if (jac and i >= nlog) else 1
            c.check_eq(dy[i], J[i] * m, "gradient is the derivative along the drawn points")

    return h


def jac_frozen(c, f, x, v, e):
    """derivative of f at x where v inside f stays fixed: x is displaced by
    fresh symbols (added, or multiplied where positive) that are then set to
    zero or one"""
    if c.mode == "con":
        return c.jac(f, x)
    from symex.engine import mk, SN
    import symex.poly as P

    np_ = c.np
    out = []
    y = f(x)
    for i in range(len(x)):
        pos = P.sign(mk(x[i]).p) == "+"
        h = c.real(f"dx{i}", sign="+" if pos else None)
        z = x.copy()
        z[i] = z[i] * h if pos else z[i] + h
        yy = f(z)
        (m,) = mk(h).p.t
        aid = m[0][0]
        d = P.diff(mk(yy).p, aid, {})
        d = SN(subst(P, d, aid, P.const(1) if pos else P.Poly({}), {}))
        out.append(d / x[i] if pos else d)
    return y, np_.array(out)


def subst(P, p, aid, val, cache):
    """p with one variable replaced by a constant"""
    if p in cache:
        return cache[p]
    r = P.Poly({})
    for m, k in p.t.items():
        t = P.const(k)
        for i, e in m:
            a = P.T.atoms[i]
            if i == aid:
                q = val
            elif not a.args or aid not in P.closure([i]):
                q = P.atom_poly(a)
            else:
                q = {"exp": P.exp, "log": P.log, "sqrt": P.sqrt, "inv": P.inv}[a.kind](subst(P, a.args[0], aid, val, cache))
            t = P.mul(t, P.power(q, e) if e >= 0 else P.power(P.inv(q), -e))
        r = P.add(r, t)
    cache[p] = r
    return r


def bounds(c, v, K, groups):
    """soft bounds of the right length"""
    D = v.D
    n = (D * K if groups[0] else 0) + (D * K if groups[1] or groups[2] else 0) + (K if groups[3] else 0)
    np_ = c.np
    lb = c.array("slb", (n,), typ=(-1, 0))
    w = c.array("swd", (n,), sign="+", typ=(0.2, 1))
    return dict(lb=lb, ub=lb + w, tol_con=c.real("tolc", sign="+", typ=(0.5, 1)))


def h_bound(D, K, groups):
    """penalty of parameters outside the soft bounds"""

    def h(c):
        np_ = c.np
        v = make_vp(c, D, K)
        set_groups(v, groups)
        bnd = bounds(c, v, K, groups)
        n = (D * K if groups[0] else 0) + (K if groups[1] else 0) + (D if groups[2] else 0) + (K if groups[3] else 0)
        th = c.array("th", (n,), typ=(-2, 2))
        keep, kl, ku = th.copy(), bnd["lb"].copy(), bnd["ub"].copy()
        s0 = snap(v)
        L, dL = vo._vp_bound_loss(v, th, bnd, bnd["tol_con"])
        L0 = vo._vp_bound_loss(v, th, bnd, bnd["tol_con"], compute_grad=False)
        c.check_eq(L, L0, "the value is the same as without the gradient")
        c.check_eq(th, keep, "parameters unchanged")
        c.check_eq(bnd["lb"], kl, "bounds unchanged")
        c.check_eq(bnd["ub"], ku, "bounds unchanged")
        unchanged(c, v, s0)
        # definition: squared relative excess of means, log scales and weights
        i, ext = 0, []
        if groups[0]:
            ext += [th[j] for j in range(D * K)]
            i = D * K
        ls = [np_.log(v.sigma[0, k]) for k in range(K)]
        if groups[1]:
            ls = [th[i + k] for k in range(K)]
            i += K
        ll = [np_.log(v.lambd[d, 0]) for d in range(D)]
        if groups[2]:
            ll = [th[i + d] for d in range(D)]
        if groups[1] or groups[2]:
            ext += [ls[k] + ll[d] for k in range(K) for d in range(D)]
        if groups[3]:
            ext += [th[n - K + k] for k in range(K)]
        ref = c.q(0)
        for a, lo, hi in zip(ext, kl, ku):
            s = (hi - lo) * bnd["tol_con"]
            if a < lo:
                ref = ref + ((lo - a) / s) ** 2 / 2
            elif a > hi:
                ref = ref + ((a - hi) / s) ** 2 / 2
        c.check_eq(L, ref, "penalty: half the squared excess relative to the width of the bounds")
        _, J = c.jac(lambda z: vo._vp_bound_loss(v, z, bnd, bnd["tol_con"], compute_grad=False), th)
        c.check(dL.shape == (n,), "one derivative per parameter")
        c.check_eq(dL, J, "gradient of the penalty is its derivative")

    return h


def h_obj(D, K, N, groups, kind, Ns=0):
    """the complete objective. kind: plain | soft | penal"""

    def h(c):
        np_ = c.np
        v = make_vp(c, D, K)
        set_groups(v, groups)
        if groups[1] != groups[2]:
            # length scales of unit mean square to begin with
            a = c.choose("lambda", [(1, 1), (7, 1)] if D == 2 else [(1,)])
            v.lambd = np_.array([[c.q(i, 5) if a == (7, 1) else c.q(1)] for i in a])
        g = make_gp(c, D, N, 1, "const")
        x, lg = theta_of(c, v, groups)
        bnd = None
        if kind != "plain":
            bnd = bounds(c, v, K, groups)
            if kind == "penal":
                n = bnd["lb"].shape[0]
                bnd["lb"], bnd["ub"] = np_.full((n,), -np.inf), np_.full((n,), np.inf)
            if groups[3]:
                bnd["weight_threshold"] = c.real("wth", 0, 1, strict=True, typ=(0.3, 0.7))
                bnd["weight_penalty"] = c.real("wpen", sign="+", typ=(0.2, 2))
        th = to_theta(c, x, lg)
        keep = th.copy()
        F, dF, G, H, varF = vo._neg_elcbo(th, g, clone(c, v), 0, 0, True, None, bnd)
        c.check_eq(th, keep, "the caller's parameters are unchanged")

        def f(z):
            return vo._neg_elcbo(to_theta(c, z, lg), g, clone(c, v), 0, 0, False, None, bnd)[0]

        y, J = c.jac(f, x)
        c.check_eq(F, y, "the value is the same as without the gradient")
        c.check(dF.shape == x.shape, "one derivative per parameter")
        for i in range(len(x)):
            c.check_eq(dF[i], J[i] * (x[i] if lg[i] else 1), "gradient of the objective is its derivative")

    return h


def h_refuse(c):
    """a gradient that is not available is refused, not made up"""
    v = make_vp(c, 1, 2)
    set_groups(v, (True,) * 4)
    g = make_gp(c, 1, 1, 1, "zero")
    x, lg = theta_of(c, v, (True,) * 4)
    b = c.real("beta", sign="+", typ=(0.5, 3))
    for cv in (None, True, 1, 2):
        try:
            vo._neg_elcbo(to_theta(c, x, lg), g, v, b, 0, True, cv)
        except NotImplementedError:
            c.check(True, "refused")
            continue
        c.fail("gradient with the full variance is refused")


def nm(gr):
    return "".join("mslw"[i] for i in range(4) if gr[i]) or "none"


def instances(tier):
    out = []
    t = 600 if tier == "quick" else 3000
    th = tier == "thorough"
    T, F_ = True, False
    ALL = (T, T, T, T)
    for what in ("H", "G"):
        for D, K in [(1, 1), (2, 1), (1, 2), (2, 2)] + ([(2, 3), (3, 2)] if th else []):
            for jac in (True, False):
                out.append(Inst(f"{what}:{D}x{K}:{nm(ALL)}:{'log' if jac else 'raw'}", h_part(what, D, K, ALL, jac), f"D={D}, K={K}", time_s=t))
        for gr in itertools.product((T, F_), repeat=4):
            if any(gr) and gr != ALL:
                out.append(Inst(f"{what}:1x2:{nm(gr)}", h_part(what, 1, 2, gr, True), "D=1, K=2", time_s=t))
    out.append(Inst("G:2x2:N2:zero", h_part("G", 2, 2, ALL, True, N=2, mean="zero"), "D=2, K=2, N=2", time_s=t))
    out.append(Inst("G:1x2:S2:avg", h_part("G", 1, 2, ALL, True, Ns=2), "D=1, K=2, 2 hyperparameter samples", time_s=t))
    out.append(Inst("G:1x2:S2:each", h_part("G", 1, 2, ALL, True, Ns=2, mean="const", avg=False), "D=1, K=2, 2 hyperparameter samples", time_s=t))
    for D, K, Ns, gr, jac in [(1, 1, 2, ALL, True), (1, 2, 2, ALL, True), (1, 2, 1, ALL, False), (2, 2, 2, (T, T, T, F_), True), (2, 2, 2, (F_, F_, F_, T), True)] + ([(1, 3, 2, ALL, True), (2, 2, 4, ALL, True)] if th else []):
        out.append(Inst(f"mc:{D}x{K}:{Ns}:{nm(gr)}:{'log' if jac else 'raw'}", h_mc(D, K, Ns, gr, jac), f"D={D}, K={K}, {Ns} draws", time_s=t))
    for gr in itertools.product((T, F_), repeat=4):
        if any(gr):
            out.append(Inst(f"bound:1x2:{nm(gr)}", h_bound(1, 2, gr), "D=1, K=2", time_s=t))
    for D, K, gr in [(2, 1, (T, T, T, F_)), (2, 2, (F_, T, F_, F_)), (2, 2, (F_, F_, T, F_)), (1, 1, ALL)] + ([(2, 2, (F_, T, T, F_)), (2, 2, ALL)] if th else []):
        out.append(Inst(f"bound:{D}x{K}:{nm(gr)}", h_bound(D, K, gr), f"D={D}, K={K}", time_s=t, max_paths=200000))
    for D, K, gr, kind in [(1, 2, ALL, "plain"), (2, 2, (T, T, F_, F_), "plain"), (1, 2, (F_, F_, F_, T), "penal"), (1, 2, ALL, "penal"), (2, 1, (T, T, T, F_), "plain"), (1, 1, (T, T, F_, F_), "soft")] + ([(2, 2, ALL, "plain"), (1, 2, (F_, F_, F_, T), "soft")] if th else []):
        out.append(Inst(f"obj:{D}x{K}:{nm(gr)}:{kind}", h_obj(D, K, 1, gr, kind), f"D={D}, K={K}, N=1", time_s=t, merge=False))
    out.append(Inst("refuse", h_refuse, "D=1, K=2", time_s=t))
    return out
