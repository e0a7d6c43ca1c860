"""C12: the posterior density is the mixture density, in either space."""
import math

import numpy as np

from pyvbmc.parameter_transformer import ParameterTransformer
from symex.run import Inst

from checks.vpb import make_vp, snap, unchanged

META = dict(assumptions=[
    "D <= 2 variables (thorough 3), K <= 3 components, up to 3 points; all means, positive scales, positive weights",
    "in the original-space harnesses the transform is an arbitrary function per coordinate with an arbitrary log-Jacobian (the real ones are C01-C03); one harness per type uses the real transform",
    "densities are positive reals (underflow to zero is outside)",
])


class Tr(ParameterTransformer):
    """bounded parameters with an arbitrary coordinate map and log-Jacobian"""

    def bind(self, c, lb, ub):
        self._c = c
        self.lb_orig = lb
        self.ub_orig = ub
        return self

    def __call__(self, x):
        c = self._c
        out = c.np.zeros(x.shape)
        for i in range(x.shape[0]):
            for d in range(x.shape[1]):
                out[i, d] = c.uf(f"T{d}", [x[i, d]])
        return out

    def log_abs_det_jacobian(self, u):
        c = self._c
        return c.np.array([c.uf("J", [u[i, d] for d in range(u.shape[1])]) for i in range(u.shape[0])])


def gauss(c, v, u):
    """mixture density at one point (sequence of D coordinates)"""
    tot = 0
    for k in range(v.K):
        e, s = 0, 1
        for d in range(v.D):
            sd = v.sigma[0, k] * v.lambd[d, 0]
            e = e + ((u[d] - v.mu[d, k]) / sd) ** 2
            s = s * sd
        tot = tot + v.w[0, k] * c.np.exp(-e / 2) / s
    return tot / (2 * np.pi) ** (v.D / 2)


def student(c, v, u, df):
    """multivariate t (df > 0) or product of univariate t (df < 0)"""
    D = v.D
    tot = 0
    n = abs(df)
    for k in range(v.K):
        z = [((u[d] - v.mu[d, k]) / (v.sigma[0, k] * v.lambd[d, 0])) ** 2 for d in range(D)]
        s = 1
        for d in range(D):
            s = s * v.sigma[0, k] * v.lambd[d, 0]
        if df > 0:
            f = (1 + sum(z) / n) ** (-(n + D) / 2)
            cst = c.np.exp(c.gammaln((n + D) / 2) - c.gammaln(n / 2)) / (n * math.pi) ** (D / 2)
        else:
            f = 1
            for d in range(D):
                f = f * (1 + z[d] / n) ** (-(n + 1) / 2)
            cst = (c.np.exp(c.gammaln((n + 1) / 2) - c.gammaln(n / 2)) / c.np.sqrt(n * math.pi)) ** D
        tot = tot + v.w[0, k] * f / s * cst
    return tot


def ref(c, v, u, df):
    if isinstance(df, (int, float)) and df in (np.inf, 0):
        return gauss(c, v, u)
    return student(c, v, u, df)


def h_trans(D, K, N, df, lam=True):
    """inference space; df "+" or "-": arbitrary degrees of freedom"""
    any_df = df

    def h(c):
        np_ = c.np
        df = c.real("df", sign="+", typ=(0.3, 6)) * (1 if any_df == "+" else -1) if any_df in ("+", "-") else any_df
        v = make_vp(c, D, K, lam=lam)
        x = c.array("x", (N, D), typ=(-2, 2))
        keep, s = x.copy(), snap(v)
        kw = {} if any_df == np.inf else dict(df=df)
        y = v.pdf(x, orig_flag=False, **kw)
        c.check(y.shape == (N, 1), "one density per point")
        for i in range(N):
            c.check_eq(y[i, 0], ref(c, v, x[i], df), "weighted sum of the component densities")
            c.check(y[i, 0] > 0, "density positive")
        l = v.log_pdf(x, orig_flag=False, **kw)
        c.check(l.shape == (N, 1), "one log-density per point")
        c.check_eq(np_.exp(l), y, "the log-density is the logarithm of the density")
        c.check_eq(np_.exp(v.pdf(x, orig_flag=False, log_flag=True, **kw)), y, "the log flag gives the logarithm")
        c.check_eq(x, keep, "points unchanged")
        unchanged(c, v, s)
        # one point given flat
        y1 = v.pdf(x[N - 1], orig_flag=False, **kw)
        c.check(y1.shape == (1,), "a flat point gives a flat result")
        c.check_eq(y1[0], y[N - 1, 0], "a point alone has the same density as in a batch")
        c.check_eq(v.log_pdf(x=x[N - 1], orig_flag=False, **kw)[0], l[N - 1, 0], "keyword and positional points agree")

    return h


def h_orig(D, K, N, df):
    """original space, arbitrary transform; points inside, on and outside"""

    def h(c):
        np_ = c.np
        lb, ub = np_.zeros((1, D)), np_.zeros((1, D))
        for d in range(D):
            lb[0, d] = c.real(f"lb{d}", typ=(-3, 0))
            ub[0, d] = lb[0, d] + c.real(f"rg{d}", sign="+", typ=(1, 3))
        t = Tr(D).bind(c, lb, ub)
        v = make_vp(c, D, K, t)
        x = np_.zeros((N, D))
        inside = []
        for i in range(N):
            ok = True
            for d in range(D):
                k = c.choose(f"p{i}{d}", ["in", "lo", "hi", "at_lo", "at_hi"] if i == 0 and d == D - 1 else ["in", "out"])
                e = c.real(f"e{i}{d}", sign="+", typ=(0.2, 2))
                if k == "in":
                    f = e / (1 + e)
                    x[i, d] = lb[0, d] + (ub[0, d] - lb[0, d]) * f
                    c.assume(x[i, d] > lb[0, d])
                    c.assume(x[i, d] < ub[0, d])
                else:
                    ok = False
                    x[i, d] = {"lo": lb[0, d] - e, "hi": ub[0, d] + e, "out": ub[0, d] + e, "at_lo": lb[0, d], "at_hi": ub[0, d]}[k]
            inside.append(ok)
        keep, s = x.copy(), snap(v)
        kw = {} if df == np.inf else dict(df=df)
        y = v.pdf(x, **kw)
        l = v.log_pdf(x, **kw)
        c.check(y.shape == (N, 1) and l.shape == (N, 1), "one value per point")
        for i in range(N):
            if not inside[i]:
                c.check(bool(y[i, 0] == 0), "zero outside the hard bounds")
                c.check(bool(l[i, 0] == -np.inf), "log-density minus infinity outside the hard bounds")
                continue
            u = t(x[i : i + 1])
            J = t.log_abs_det_jacobian(u)[0]
            c.check_eq(y[i, 0] * np_.exp(J), ref(c, v, u[0], df), "density of the transformed point divided by the Jacobian")
            c.check_eq(np_.exp(l[i, 0]), y[i, 0], "the log-density is the logarithm of the density")
        c.check_eq(x, keep, "points unchanged")
        unchanged(c, v, s)
        c.check_eq(v.pdf(x[0], **kw)[0], y[0, 0], "a point alone has the same density as in a batch")

    return h


def h_real(tt):
    """the real transform, one bounded variable"""

    def h(c):
        np_ = c.np
        lo = c.real("lb", typ=(-3, 0))
        w = c.real("w", sign="+", typ=(1, 3))
        lb, ub = np_.array([[lo]]), np_.array([[lo + w]])
        t = ParameterTransformer(1, lb, ub, lb.copy(), ub.copy(), transform_type=tt)
        t.mu = c.array("tmu", (1,), typ=(-1, 1))
        t.delta = c.array("tdelta", (1,), sign="+", typ=(0.5, 2))
        v = make_vp(c, 1, 2, t)
        e = c.real("e", sign="+", typ=(0.2, 2))
        z = e / (1 + e)
        x = np_.array([[lo + w * z]])
        y = v.pdf(x)
        u = t(x)
        c.check_eq(y[0, 0] * np_.exp(t.log_abs_det_jacobian(u)[0]), gauss(c, v, u[0]), "density of the transformed point divided by the Jacobian")
        c.check_eq(np_.exp(v.log_pdf(x)), y, "the log-density is the logarithm of the density")

    return h


def h_dtype(orig, D):
    """integer-typed and float-typed points have the same density"""

    def h(c):
        np_ = c.np
        t = None
        if orig:
            lb, ub = np_.zeros((1, D)) - 10, np_.zeros((1, D)) + 10
            t = Tr(D).bind(c, lb, ub)
        v = make_vp(c, D, 2, t)
        x = c.const(np.array([[1, -2, 3][:D], [20, 0, 2][:D]]), "i")
        y = v.pdf(x, orig_flag=orig)
        yf = v.pdf(x.astype(float), orig_flag=orig)
        c.check_eq(y, yf, "integer-typed points have the density of the same real points")
        if D == 1:
            c.check_eq(v.pdf(c.const(np.array([1]), "i"), orig_flag=orig), yf[0], "flat integer point")

    return h


def instances(tier):
    out = []
    th = tier == "thorough"
    t = 600 if not th else 3000
    for D, K, N in [(1, 1, 1), (1, 3, 2), (2, 2, 2), (2, 1, 3)] + ([(3, 3, 2), (2, 4, 3)] if th else []):
        out.append(Inst(f"trans:{D}x{K}:N{N}", h_trans(D, K, N, np.inf), f"D={D}, K={K}, N={N}", time_s=t))
    for df in (0, 1, 3, -1, -3, 5) + ((2, 4, -2, 7, -5) if th else ()):
        out.append(Inst(f"trans:1x2:N2:df{df}", h_trans(1, 2, 2, df), f"D=1, K=2, df={df}", time_s=t))
    for df in (2, 4, -1, -3) + ((1, 3, -5) if th else ()):
        out.append(Inst(f"trans:2x2:N1:df{df}", h_trans(2, 2, 1, df), f"D=2, K=2, df={df}", time_s=t))
    for D, K, N, df in [(1, 2, 2, np.inf), (2, 2, 2, np.inf), (1, 2, 1, 3), (1, 2, 1, -3), (2, 1, 3, np.inf)] + ([(3, 2, 2, np.inf), (2, 2, 2, -3), (1, 2, 2, 3)] if th else []):
        out.append(Inst(f"orig:{D}x{K}:N{N}:df{df}", h_orig(D, K, N, df), f"D={D}, K={K}, N={N}", time_s=t))
    for D, df in ((1, 0.5), (1, -0.5), (2, 2.5), (2, -0.25), (2, 0.75)):
        out.append(Inst(f"trans:{D}x1:N1:df{df}", h_trans(D, 1, 1, df), f"D={D}, K=1, df={df}", time_s=t))
    for D, df in ((1, "+"), (1, "-"), (2, "+"), (2, "-")):
        out.append(Inst(f"trans:{D}x1:N1:anydf{df}", h_trans(D, 1, 1, df), f"D={D}, K=1, arbitrary df", time_s=t))
    for tt in ("logit", "probit", "student4"):
        out.append(Inst(f"real:{tt}", h_real(tt), f"{tt} transform, D=1, K=2", time_s=t))
    for orig in (True, False):
        for D in (1, 2):
            out.append(Inst(f"dtype:{'orig' if orig else 'trans'}:{D}", h_dtype(orig, D), f"D={D}", time_s=t))
    return out
