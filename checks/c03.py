"""C03: the reported log-Jacobian is log |det d inverse / du|."""
import numpy as np

from symex.run import Inst
from checks.c02 import TYPES, latent, setup

META = dict(assumptions=[
    "same parametrisation as C02; the reference is the exact symbolic derivative of the code's own inverse transform",
    "np.nextafter is the identity in these harnesses (rounding-level nudge)",
])


def whiten(c, t, kw, y):
    u = (y - t.mu) / t.delta
    if "rotation_matrix" in kw:
        u = u @ kw["rotation_matrix"]
    if "scale" in kw:
        u = u / kw["scale"]
    return u


def h_jac(kinds, tt, rs=None, direct=False):
    D = len(kinds)

    def h(c):
        t, lb, ub, kw = setup(c, kinds, tt, rs)
        v, sg = latent(c, D, kinds, tt)
        sg = c.np.array(sg)
        x, J = c.jac(lambda z: t.inverse(whiten(c, t, kw, sg * z)), v)
        u = whiten(c, t, kw, sg * v)
        u0 = u.copy()
        lj = t.log_abs_det_jacobian(u)
        c.check_eq(u, u0, "argument left alone")
        det = J[0, 0] if D == 1 else c.np.linalg.det(J)
        # dv/du: centering and whitening (rotations have unit determinant)
        dvdu = c.np.prod(t.delta)
        if "scale" in kw:
            dvdu = dvdu * c.np.prod(kw["scale"])
        c.check(c.np.isfinite(lj), "log-Jacobian is finite")
        c.check_eq(c.np.exp(lj), c.np.abs(det) * dvdu, "exp(log_abs_det_jacobian) = |det d inverse/du|", tol=1e-4)

    return h


def h_rows(kinds, tt):
    """Rows are independent: the N-row result is the stack of single rows."""
    D = len(kinds)

    def h(c):
        t, lb, ub, kw = setup(c, kinds, tt)
        u = c.array("u", (2, D), typ=(-0.7, 0.7))
        lj = t.log_abs_det_jacobian(u)
        one = [t.log_abs_det_jacobian(u[n]) for n in range(2)]
        c.check_eq(lj[0], one[0], "row 0 alone")
        c.check_eq(lj[1], one[1], "row 1 alone")

    return h


def instances(tier):
    out = []
    for tt in TYPES:
        out.append(Inst(f"jac:{tt}:b", h_jac("b", tt), "D=1"))
        out.append(Inst(f"jac:{tt}:bub", h_jac("bub", tt), "D=3"))
        out.append(Inst(f"jac:{tt}:scale", h_jac("bu", tt, "scale"), "D=2, scale"))
        out.append(Inst(f"jac:{tt}:rot", h_jac("bu", tt, "rot"), "D=2, rotation/reflection and scale"))
        out.append(Inst(f"rows:{tt}", h_rows("bu", tt), "D=2, N=2"))
    out.append(Inst("jac:unb", h_jac("uu", "probit", "rot"), "D=2, symbolic rotation and scale, unbounded"))
    return out
