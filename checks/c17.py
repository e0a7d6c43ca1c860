"""C17: the reported lower bound is expected log-joint plus entropy of the mixture."""
import numpy as np

from pyvbmc.entropy import entlb_vbmc, entmc_vbmc
from pyvbmc.vbmc import variational_optimization as vo
from symex.run import Inst

from checks.gpx import make_gp, ref_I, ref_J
from checks.vpb import make_vp, snap, unchanged

META = dict(assumptions=[
    "D <= 2 variables (3 in thorough), K <= 3 components, N <= 2 training points, up to 2 hyperparameter samples; all means, scales, weights, hyperparameters and posterior quantities of the surrogate",
    "the surrogate is given by its stored posterior quantities (factor of the kernel matrix, alpha, hyperparameters): the fit itself is gpyreg's",
    "oracle: the closed form of the Gaussian integral of a squared-exponential kernel and of a quadratic mean",
])


def h_G(D, K, N, Ns, mean, avg=True):
    def h(c):
        v = make_vp(c, D, K)
        g = make_gp(c, D, N, Ns, mean)
        s0 = snap(v)
        G, dG, varG, dvarG, ss, I, J = _unpack(vo._gp_log_joint, v, g, avg)
        for s in range(Ns):
            for k in range(K):
                c.check_eq(I[s, k], ref_I(c, g, v, s, k), "expectation of the surrogate under one component")
        Gs = [sum(v.w[0, k] * I[s, k] for k in range(K)) for s in range(Ns)]
        if avg:
            c.check_eq(G, sum(Gs) / Ns, "expected log-joint is the weighted sum, averaged over hyperparameter samples")
        else:
            for s in range(Ns):
                c.check_eq(np.atleast_1d(G)[s] if Ns == 1 else G[s], Gs[s], "expected log-joint of each hyperparameter sample")
        c.check(varG is None, "no variance unless asked for")
        unchanged(c, v, s0)

    return h


def _unpack(f, v, g, avg):
    r = f(v, g, False, avg, True, 1, True)
    G, dG, varG, dvarG, ss, I, J = r
    r2 = f(v, g, False, avg, True, 0)
    return r2[0], r2[1], r2[2], r2[3], ss, I, J


def h_var(D, K, N, Ns, mean, chol, exact):
    def h(c):
        np_ = c.np
        v = make_vp(c, D, K)
        g = make_gp(c, D, N, Ns, mean, chol)
        eps = c.q(1, 2**52)
        if exact:
            # the integrals of the exact posterior covariance are non-negative
            # on the diagonal; below 2^-52 the code rounds up
            Js = [[[ref_J(c, g, v, s, j, k, chol) for k in range(K)] for j in range(K)] for s in range(Ns)]
            V = []
            for s in range(Ns):
                t = c.q(0)
                for k in range(K):
                    c.assume(Js[s][k][k] > eps)
                    for j in range(K):
                        t = t + v.w[0, j] * v.w[0, k] * Js[s][min(j, k)][max(j, k)]
                c.assume(t > eps)
                V.append(t)
        G, dG, varG, dvarG, ss, I, J = vo._gp_log_joint(v, g, False, True, True, 1, True)
        if not exact:
            # with one hyperparameter sample the total may not be rounded up
            c.check(np.all(np.atleast_1d(varG) >= 0) if c.mode == "con" else np_.all(varG >= 0), "variance of the expected log-joint is non-negative")
            return
        for s in range(Ns):
            for k in range(K):
                for j in range(K):
                    c.check_eq(J[s, j, k], Js[s][min(j, k)][max(j, k)], "covariance of the expectations under two components")
        if Ns == 1:
            c.check_eq(varG, V[0], "variance of the expected log-joint")
            c.check_eq(ss, 0, "no spread between samples with one sample")
        else:
            Gs = [sum(v.w[0, k] * I[s, k] for k in range(K)) for s in range(Ns)]
            gb = sum(Gs) / Ns
            sp = sum((a - gb) ** 2 for a in Gs) / (Ns - 1)
            c.check_eq(varG, sum(V) / Ns + sp, "variance: mean of the variances plus variance of the means")
            vb = sum(V) / Ns
            c.check_eq(ss, sp + np_.sqrt(sum((a - vb) ** 2 for a in V) / (Ns - 1)), "spread between hyperparameter samples")

    return h


def h_entlb(D, K):
    def h(c):
        np_ = c.np
        v = make_vp(c, D, K)
        s0 = snap(v)
        H, dH = entlb_vbmc(v, (False,) * 4)
        nc = float(1 / (2 * np.pi) ** (D / 2))
        if K == 1:
            ref = c.q(1) * float(0.5 * D * (1 + np.log(2 * np.pi)))
            for d in range(D):
                ref = ref + np_.log(v.sigma[0, 0] * v.lambd[d, 0])
            c.check_eq(H, ref, "entropy of one component is exact")
        else:
            ref = c.q(0)
            for i in range(K):
                t = c.q(0)
                for j in range(K):
                    s2 = v.sigma[0, i] ** 2 + v.sigma[0, j] ** 2
                    q, den = c.q(0), c.q(1)
                    for d in range(D):
                        q = q + (v.mu[d, i] - v.mu[d, j]) ** 2 / (s2 * v.lambd[d, 0] ** 2)
                        den = den * np_.sqrt(s2) * v.lambd[d, 0]
                    t = t + v.w[0, j] * nc * np_.exp(-q / 2) / den
                ref = ref - v.w[0, i] * np_.log(t)
            c.check_eq(H, ref, "Jensen lower bound: minus the weighted logarithms of the components' expected mixture densities")
        unchanged(c, v, s0)

    return h


def h_entmc(D, K, Ns):
    """value on the drawn points"""

    def h(c):
        np_ = c.np
        v = make_vp(c, D, K)
        s0 = snap(v)
        c.notes["draws"] = []
        H, dH = entmc_vbmc(v, Ns, (False,) * 4)
        z = [a for t, a in c.notes["draws"] if t == "randn"]
        c.check(len(z) == K, "fresh draws for every component")
        n2 = (Ns + 1) // 2
        nc = float(1 / (2 * np.pi) ** (D / 2))
        ref = c.q(0)
        for j in range(K):
            c.check(z[j].shape == (n2, D), "half the draws, mirrored")
            for sg in (1, -1):
                for n in range(n2):
                    x = [v.mu[d, j] + sg * z[j][n, d] * v.sigma[0, j] * v.lambd[d, 0] for d in range(D)]
                    t = c.q(0)
                    for k in range(K):
                        q, den = c.q(0), c.q(1)
                        for d in range(D):
                            q = q + ((x[d] - v.mu[d, k]) / (v.sigma[0, k] * v.lambd[d, 0])) ** 2
                            den = den * v.sigma[0, k] * v.lambd[d, 0]
                        t = t + v.w[0, k] * nc * np_.exp(-q / 2) / den
                    ref = ref - v.w[0, j] * np_.log(t) / (2 * n2)
        c.check_eq(H, ref, "minus the mean log mixture density over mirrored draws of every component")
        unchanged(c, v, s0)

    return h


def theta_of(c, v, groups):
    """flat vector with log / softmax encodings; also the raw positive symbols"""
    np_ = c.np
    D, K = v.D, v.K
    x, lg = [], []
    if groups[0]:
        for k in range(K):
            for d in range(D):
                x.append(c.real(f"tm{d}_{k}", typ=(-1, 1)))
                lg.append(False)
    if groups[1]:
        for k in range(K):
            x.append(c.real(f"ts{k}", sign="+", typ=(0.4, 1.5)))
            lg.append(True)
    if groups[2]:
        for d in range(D):
            x.append(c.real(f"tl{d}", sign="+", typ=(0.5, 1.5)))
            lg.append(True)
    if groups[3]:
        for k in range(K):
            x.append(c.real(f"tw{k}", sign="+", typ=(0.2, 0.9)))
            lg.append(True)
    return np_.array(x), lg


def to_theta(c, x, lg):
    np_ = c.np
    return np_.array([np_.log(x[i]) if l else x[i] for i, l in enumerate(lg)])


def set_groups(v, groups):
    v.optimize_mu, v.optimize_sigma, v.optimize_lambd, v.optimize_weights = groups


def h_elbo(D, K, N, groups, beta, Ns=0):
    """F = -(G + H) + beta sqrt(variance)"""

    def h(c):
        np_ = c.np
        v = make_vp(c, D, K)
        set_groups(v, groups)
        g = make_gp(c, D, N, 1, "quad")
        x, lg = theta_of(c, v, groups)
        th = to_theta(c, x, lg)
        keep = th.copy()
        b = {"no": 0, "sym": c.real("beta", sign="+", typ=(0.5, 3)), "inf": np.inf}[beta]
        c.notes["draws"] = []
        F, dF, G, H, varF = vo._neg_elcbo(th, g, v, b, Ns, False, None)
        c.check_eq(th, keep, "the caller's parameters are unchanged")
        c.check(dF is None, "no gradient unless asked for")
        c.check_eq(F, -G - H + (b * np_.sqrt(varF) if beta == "sym" else 0), "objective: minus (expected log-joint plus entropy) plus the confidence term")
        c.check(varF >= 0, "variance is non-negative")
        if beta != "sym":
            c.check_eq(varF, 0, "no variance unless asked for")
        # the posterior evaluated is the one of the given parameters
        i = 0
        if groups[0]:
            for k in range(K):
                for d in range(D):
                    c.check_eq(v.mu[d, k], x[i], "means are those given")
                    i += 1
        sc = {}
        if groups[1]:
            sg = [x[i + k] for k in range(K)]
            i += K
            if groups[2]:
                for d in range(D):
                    for k in range(K):
                        c.check_eq(v.sigma[0, k] * v.lambd[d, 0], sg[k] * x[i + d], "scales are those given")
        if groups[3]:
            e = [x[-K + k] for k in range(K)]
            for k in range(K):
                c.check_eq(v.w[0, k], e[k] / sum(e), "weights are those given")
        s0 = snap(v)
        Gr = sum(v.w[0, k] * ref_I(c, g, v, 0, k) for k in range(K))
        c.check_eq(G, Gr, "expected log-joint of that posterior")
        if Ns == 0:
            H2, _ = entlb_vbmc(v, (False,) * 4)
            c.check_eq(H, H2, "entropy of that posterior")

    return h


def h_full(D, K, N, Ns):
    """the statistics recorded for a candidate solution"""

    def h(c):
        np_ = c.np
        v = make_vp(c, D, K)
        set_groups(v, (True,) * 4)
        g = make_gp(c, D, N, Ns, "quad")
        x, lg = theta_of(c, v, (True,) * 4)
        th = to_theta(c, x, lg)
        b = c.real("beta", sign="+", typ=(0.5, 3))
        c.notes["draws"] = []
        st = vo._initialize_full_elcbo(2, th.size, K, Ns)
        st = vo._eval_full_elcbo(1, th, v, g, st, b, Opt(skip_elbo_variance=False))
        c.check_eq(st["nelbo"][1], -st["G"][1] - st["H"][1], "lower bound is expected log-joint plus entropy")
        c.check_eq(st["nelcbo"][1], st["nelbo"][1] + b * np_.sqrt(st["varF"][1]), "confidence bound adds the uncertainty")
        c.check_eq(st["varF"][1], st["varG"][1] + st["varH"][1], "uncertainty is that of the two parts")
        for i in range(th.size):
            c.check_eq(st["theta"][1, i], th[i], "recorded with the parameters it belongs to")
        Gs = [sum(v.w[0, k] * st["I_sk"][1, s, k] for k in range(K)) for s in range(Ns)]
        c.check_eq(st["G"][1], sum(Gs) / Ns, "expected log-joint from its per-component parts")
        c.check(np.all(np.isinf(st["nelcbo"][0])) if c.mode == "con" else bool(st["nelcbo"][0] == np.inf), "other candidates untouched")

    return h


class Opt(dict):
    def eval(self, key, args):
        assert key == "ns_ent_fine"
        return 2 * args["K"]


def instances(tier):
    out = []
    t = 600 if tier == "quick" else 3000
    th = tier == "thorough"
    for D, K, N, Ns, mean in [(1, 1, 1, 1, "zero"), (1, 2, 2, 1, "const"), (2, 2, 2, 1, "quad"), (2, 1, 1, 2, "quad"), (1, 3, 1, 2, "const")] + ([(3, 2, 2, 2, "quad"), (2, 3, 3, 1, "quad")] if th else []):
        out.append(Inst(f"G:{D}x{K}:N{N}:S{Ns}:{mean}", h_G(D, K, N, Ns, mean), f"D={D}, K={K}, N={N}, samples={Ns}, {mean} mean", time_s=t))
    out.append(Inst("G:noavg", h_G(1, 2, 1, 2, "quad", avg=False), "D=1, K=2, N=1, samples=2", time_s=t))
    for D, K, N, Ns, mean, chol in [(1, 1, 1, 1, "zero", True), (1, 2, 2, 1, "const", False), (1, 2, 2, 1, "zero", True), (2, 2, 1, 1, "quad", True), (2, 2, 2, 1, "zero", False), (1, 1, 1, 2, "quad", True), ] + ([(1, 2, 1, 2, "const", False)] if th else []):
        out.append(Inst(f"var:{D}x{K}:N{N}:S{Ns}:{mean}:{'chol' if chol else 'inv'}", h_var(D, K, N, Ns, mean, chol, True), f"D={D}, K={K}, N={N}, samples={Ns}", time_s=t, merge=False))
    for D, K, N, Ns, chol in [(1, 2, 1, 1, True), (1, 2, 1, 1, False)]:
        out.append(Inst(f"varpos:{D}x{K}:N{N}:{chol}", h_var(D, K, N, Ns, "zero", chol, False), f"D={D}, K={K}, N={N}, samples={Ns}", time_s=t))
    for D, K in [(1, 1), (3, 1), (1, 2), (2, 2), (2, 3)] + ([(3, 3)] if th else []):
        out.append(Inst(f"entlb:{D}x{K}", h_entlb(D, K), f"D={D}, K={K}", time_s=t))
    for D, K, Ns in [(1, 1, 2), (1, 2, 1), (2, 2, 2), (1, 2, 3)] + ([(2, 2, 4), (1, 3, 2)] if th else []):
        out.append(Inst(f"entmc:{D}x{K}:{Ns}", h_entmc(D, K, Ns), f"D={D}, K={K}, {Ns} draws per component", time_s=t))
    T, F_ = True, False
    for D, K, N, gr, b, Ns in [(1, 2, 1, (T, T, T, T), "no", 0), (2, 2, 1, (T, T, T, F_), "no", 0), (1, 2, 1, (T, T, T, T), "sym", 0), (2, 1, 1, (T, T, F_, F_), "inf", 0), (1, 2, 1, (F_, F_, F_, T), "sym", 0), (1, 2, 1, (T, T, T, T), "no", 2)]:
        nm = "".join("mslw"[i] for i in range(4) if gr[i])
        out.append(Inst(f"elbo:{D}x{K}:{nm}:{b}:{Ns}", h_elbo(D, K, N, gr, b, Ns), f"D={D}, K={K}, N={N}", time_s=t))
    out.append(Inst("full:1x1:2", h_full(1, 1, 1, 2), "D=1, K=1, samples=2", time_s=t))
    out.append(Inst("full:1x2:1", h_full(1, 2, 1, 1), "D=1, K=2", time_s=t))
    if th:
        out.append(Inst("full:1x2:2", h_full(1, 2, 1, 2), "D=1, K=2, samples=2", time_s=t))
    return out
