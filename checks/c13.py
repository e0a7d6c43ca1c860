"""C13: density gradients are the derivatives of the density."""
import numpy as np

from pyvbmc.parameter_transformer import ParameterTransformer
from symex.run import Inst

from checks.c12 import gauss
from checks.vpb import make_vp, snap, unchanged

META = dict(assumptions=[
    "D <= 3 variables, K <= 3 components, up to 3 points; all points, means, positive scales, positive weights",
    "reference: exact symbolic derivative of the value the code returns without the gradient flag",
])


def h_grad(D, K, N, log, via, lam=True):
    def h(c):
        v = make_vp(c, D, K, lam=lam)
        x = c.array("x", (N, D), typ=(-2, 2))
        keep, s = x.copy(), snap(v)

        def val(u):
            if via == "log_pdf":
                return v.log_pdf(u, orig_flag=False)
            return v.pdf(u, orig_flag=False, log_flag=log)

        if via == "log_pdf":
            y, dy = v.log_pdf(x, orig_flag=False, grad_flag=True)
        else:
            y, dy = v.pdf(x, orig_flag=False, log_flag=log, grad_flag=True)
        c.check(y.shape == (N, 1) and dy.shape == (N, D), "one value and one gradient row per point")
        c.check_eq(y, val(x), "the value is the same as without the gradient")
        for i in range(N):
            y0, J = c.jac(lambda u: val(u)[0], x[i : i + 1])
            for d in range(D):
                c.check_eq(dy[i, d], J[0, 0, d], "gradient is the derivative of the value")
        c.check_eq(x, keep, "points unchanged")
        unchanged(c, v, s)
        if via != "log_pdf":
            a, b = v.pdf(x[0], orig_flag=False, log_flag=log, grad_flag=True)
            c.check(b.shape == (D,), "a flat point has a flat gradient")
            c.check_eq(b, dy[0], "a point alone has the same gradient as in a batch")

    return h


def h_orig(kind, D):
    """original space: the derivative, or NotImplementedError"""

    def h(c):
        np_ = c.np
        if kind == "identity":
            t = ParameterTransformer(D)
        else:
            lo, w = c.real("lb", typ=(-3, 0)), c.real("w", sign="+", typ=(1, 3))
            lb, ub = np_.zeros((1, D)) + lo, np_.zeros((1, D)) + lo + w
            t = ParameterTransformer(D, lb, ub, lb.copy(), ub.copy(), transform_type="logit")
            t.mu, t.delta = np_.zeros((D,)), np_.ones((D,))
        v = make_vp(c, D, 2, t)
        if kind == "identity":
            x = c.array("x", (1, D), typ=(-2, 2))
        else:
            x = np_.zeros((1, D))
            for d in range(D):
                e = c.real(f"e{d}", sign="+", typ=(0.2, 2))
                x[0, d] = lo + w * e / (1 + e)
                c.assume(x[0, d] > lo)
                c.assume(x[0, d] < lo + w)
        log = c.choose("log", [False, True])
        try:
            y, dy = v.pdf(x, orig_flag=True, log_flag=log, grad_flag=True)
        except NotImplementedError:
            c.check(log or kind != "identity", "documented limitation")
            return
        if kind == "identity":
            for d in range(D):
                y0, J = c.jac(lambda u: v.pdf(u, orig_flag=True, log_flag=log)[0], x)
                c.check_eq(dy[0, d], J[0, 0, d], "original-space gradient is the derivative of the value")
        else:
            # exact derivative through the real transform: dp/dx = dp/du / (dx/du)
            u = t(x)
            y0, J = c.jac(lambda u: gauss(c, v, u[0]) / np_.exp(t.log_abs_det_jacobian(u)[0]), u)
            for d in range(D):
                z = (x[0, d] - lo) / w
                c.check_eq(dy[0, d], J[0, d] / (w * z * (1 - z)), "original-space gradient is the derivative of the value")

    return h


def h_tails(df):
    """heavy tails: no gradient rather than a wrong one"""

    def h(c):
        v = make_vp(c, 2, 2)
        x = c.array("x", (1, 2), typ=(-2, 2))
        log = c.choose("log", [False, True])
        try:
            v.pdf(x, orig_flag=False, log_flag=log, grad_flag=True, df=df)
        except NotImplementedError:
            c.check(True, "gradient of heavy tails is refused")
            return
        c.fail("gradient of heavy tails is refused")

    return h


def instances(tier):
    out = []
    t = 600 if tier == "quick" else 3000
    sizes = [(1, 1, 1), (1, 2, 2), (2, 2, 1), (2, 1, 3), (3, 2, 1), (2, 3, 1)] + ([(3, 3, 2), (2, 4, 2)] if tier == "thorough" else [])
    for D, K, N in sizes:
        for log, via in ((False, "pdf"), (True, "pdf"), (True, "log_pdf")):
            if via == "log_pdf" and D == 3:
                continue
            out.append(Inst(f"grad:{D}x{K}:N{N}:{'log' if log else 'lin'}:{via}", h_grad(D, K, N, log, via), f"D={D}, K={K}, N={N}", time_s=t))
    for D in (1, 2):
        out.append(Inst(f"orig:identity:{D}", h_orig("identity", D), f"D={D}, K=2", time_s=t))
    out.append(Inst("orig:logit:1", h_orig("logit", 1), "D=1, K=2", time_s=t))
    for df in (3, -3):
        out.append(Inst(f"tails:{df}", h_tails(df), "D=2, K=2", time_s=t))
    return out
