"""C02: transforming to the inference space and back is the identity."""
import numpy as np

from symex.run import Inst
from pyvbmc.parameter_transformer import ParameterTransformer

META = dict(assumptions=[
    "hard bounds finite with lb < ub (or infinite), plausible bounds strictly inside",
    "centering offset arbitrary, scale delta > 0 arbitrary; whitening rotation symbolic for unbounded variables and one of six exact "
    "rational orthogonal matrices when a variable is bounded; whitening scale > 0 arbitrary",
    "np.nextafter is the identity in these harnesses (rounding-level nudge; see C01 for the binary64 treatment)",
    "logit: the unit-interval coordinate is taken in |y| <= 700 (beyond it binary64 saturates by construction)",
])

TYPES = ["logit", "probit", "student4"]


def unit_coord(c, name, tt):
    """An arbitrary latent (pre-centering) coordinate y and the fraction z of
    the bounded interval it stands for: the cdf of the named distribution."""
    if tt == "student4":
        sg = c.choose(name + ".sgn", [1, -1, 0])
        if sg == 0:
            return c.q(0), c.q(1, 2)
        y = sg * c.real(name + ".p", sign="+", typ=(0.3, 3))
        s = y / (2 * c.np.sqrt(1 + y * y / 4))
        c.hint_cos3(c.np.sqrt(4 - s * s) / 2)
        return y, c.q(1, 2) + (3 * s - s * s * s) / 4
    y = c.real(name, typ=(-2, 2))
    if tt == "logit":
        c.assume(y <= 700)
        c.assume(y >= -700)
        return y, 1 / (1 + c.np.exp(-y))
    if tt == "probit":
        return y, c.cdf(y)
    return y, None


def rotations(c, D, free):
    """Orthogonal matrices: an arbitrary planar rotation/reflection if free,
    else one of a few exact rational ones."""
    if D != 2:
        return c.np.eye(D)
    if free:
        t = c.real("rt", typ=(-2, 2))
        d = 1 + t * t
        co, si = (1 - t * t) / d, 2 * t / d
        f = c.choose("refl", [1, -1])
        return c.np.array([[co, -f * si], [si, f * co]])
    a, b = c.q(3, 5), c.q(4, 5)
    Rs = [
        [[a, -b], [b, a]],
        [[a, b], [b, -a]],
        [[0, 1], [1, 0]],
        [[0, -1], [1, 0]],
        [[-1, 0], [0, 1]],
        [[c.q(-5, 13), c.q(12, 13)], [c.q(12, 13), c.q(5, 13)]],
    ]
    return c.np.array(c.choose("R", Rs))


def setup(c, kinds, tt, rs=None):
    """A transformer with arbitrary bounds, centering and whitening."""
    np_ = c.np
    D = len(kinds)
    L, U = [], []
    for i, k in enumerate(kinds):
        lo = c.real(f"lb{i}", typ=(-4, 4))
        w = c.real(f"w{i}", sign="+", typ=(0.5, 6))
        L.append(lo if k in "bh" else -np.inf)
        U.append(lo + w if k in "bl" else np.inf)
    lb, ub = np_.array([L]), np_.array([U])
    kw = {}
    if rs:
        kw["scale"] = c.array("sc", (D,), sign="+", typ=(0.3, 1.5))
    if rs == "rot":
        kw["rotation_matrix"] = rotations(c, D, "b" not in kinds)
    t = ParameterTransformer(D, lb, ub, lb.copy(), ub.copy(), transform_type=tt, **kw)
    t.mu = c.array("mu", (D,), typ=(-1, 1))
    t.delta = c.array("delta", (D,), sign="+", typ=(0.5, 2))
    return t, lb, ub, kw


def points(c, t, lb, ub, kinds, tt, kw, N):
    """Arbitrary latent points, the matching points x and whitened u."""
    D = len(kinds)
    y, x = c.np.zeros((N, D)), c.np.zeros((N, D))
    for n in range(N):
        for i, k in enumerate(kinds):
            y[n, i], z = unit_coord(c, f"y{n}{i}", tt if k == "b" else None)
            if k == "b":
                x[n, i] = lb[0, i] + (ub[0, i] - lb[0, i]) * z
            else:
                x[n, i] = y[n, i]
                y[n, i] = x[n, i]
    u = (y - t.mu) / t.delta
    if "rotation_matrix" in kw:
        u = u @ kw["rotation_matrix"]
    if "scale" in kw:
        u = u / kw["scale"]
    return x, u


def h_round(kinds, tt, N=1, rs=None):
    def h(c):
        t, lb, ub, kw = setup(c, kinds, tt, rs)
        x, u = points(c, t, lb, ub, kinds, tt, kw, N)
        u0, x0 = u.copy(), x.copy()
        xi = t.inverse(u)
        c.check_eq(u, u0, "inverse() leaves its argument alone")
        c.check_eq(t(xi), u0, "direct(inverse(u)) == u", tol=1e-4)
        ud = t(x)
        c.check_eq(x, x0, "direct transform leaves its argument alone")
        c.check_eq(t.inverse(ud), x0, "inverse(direct(x)) == x", tol=1e-4)
        c.check_eq(xi, x0, "inverse transform is the named cdf between the bounds", tol=1e-5)
        c.check_eq(t(x[0]), u0[0], "a single point (D,) gives a (D,) result", tol=1e-4)
        c.check_eq(t.inverse(u[0]), x0[0], "a single point (D,) gives a (D,) result", tol=1e-4)

    return h


def h_plausible(tt):
    """Plausible bounds on either side of the middle of the hard bounds (any
    position for logit and probit)."""

    def h(c):
        lo = c.real("lb0", typ=(-4, 4))
        w = c.real("w0", sign="+", typ=(1, 6))
        if tt == "student4":
            ys = []
            for n, sg in (("y1", -1), ("y2", 1)):
                y = sg * c.real(n, sign="+", typ=(0.3, 3))
                s = y / (2 * c.np.sqrt(1 + y * y / 4))
                c.hint_cos3(c.np.sqrt(4 - s * s) / 2)
                ys.append(c.q(1, 2) + (3 * s - s * s * s) / 4)
            p1, p2 = lo + w * ys[0], lo + w * ys[1]
        else:
            a, b, e = [c.real(n, sign="+", typ=(0.5, 3)) for n in "abe"]
            p1, p2, w = lo + a, lo + a + b, a + b + e
        x1 = c.real("x1", typ=(-4, 4))
        d = c.real("d1", sign="+", typ=(0.5, 3))
        lb, ub = c.np.array([[lo, -np.inf]]), c.np.array([[lo + w, np.inf]])
        plb, pub = c.np.array([[p1, x1]]), c.np.array([[p2, x1 + d]])
        t = ParameterTransformer(2, lb, ub, plb, pub, transform_type=tt)
        c.check_eq(t(plb), c.np.ones((1, 2)) * -0.5, "plausible lower bound maps to -1/2", tol=1e-5)
        c.check_eq(t(pub), c.np.ones((1, 2)) * 0.5, "plausible upper bound maps to +1/2", tol=1e-5)

    return h


def h_edges(tt):
    def h(c):
        t, lb, ub, kw = setup(c, "bub", tt)
        x = c.array("x", (1, 3), typ=(-1, 1))
        x[0, 0] = lb[0, 0]
        x[0, 2] = ub[0, 2]
        u = t(x)
        c.check_eq(u[0, 0], -np.inf, "hard lower bound maps to -inf")
        c.check_eq(u[0, 2], np.inf, "hard upper bound maps to +inf")
        c.check(c.np.isfinite(u[0, 1]), "unbounded variable stays finite")

    return h


def latent(c, D, kinds, tt):
    """Latent coordinates as plain inputs: (inputs, function to y)."""
    sg = [c.choose(f"sg{i}", [1, -1]) if tt == "student4" and k == "b" else 1 for i, k in enumerate(kinds)]
    v = c.np.zeros(D)
    for i, k in enumerate(kinds):
        if tt == "student4" and k == "b":
            v[i] = c.real(f"v{i}", sign="+", typ=(0.3, 2))
        else:
            v[i] = c.real(f"v{i}", typ=(-0.9, 0.9))
            if tt == "logit" and k == "b":
                c.assume(v[i] <= 700)
                c.assume(v[i] >= -700)
    return v, sg


def h_monotone(k, tt):
    def h(c):
        t, lb, ub, kw = setup(c, k, tt)
        v, sg = latent(c, 1, k, tt)
        x, J = c.jac(lambda z: t.inverse((sg[0] * z - t.mu) / t.delta), v)
        c.check(sg[0] * J[0, 0] > 0, "inverse transform has positive slope")

    return h


def instances(tier):
    out = []
    for tt in TYPES:
        out.append(Inst(f"round:{tt}:b", h_round("b", tt), "D=1, N=1"))
        out.append(Inst(f"plaus:{tt}", h_plausible(tt), "D=2 (bounded, unbounded)"))
        out.append(Inst(f"edges:{tt}", h_edges(tt), "D=3"))
        out.append(Inst(f"mono:{tt}", h_monotone("b", tt), "D=1"))
        out.append(Inst(f"round:{tt}:bub", h_round("bub", tt, 2), "D=3 (bounded, unbounded, bounded), N=2"))
        out.append(Inst(f"round:{tt}:rot", h_round("bu", tt, 1, "rot"), "D=2, rotation or reflection and scale"))
        out.append(Inst(f"round:{tt}:scale", h_round("bb", tt, 1, "scale"), "D=2, scale only"))
    out.append(Inst("round:unb:rot", h_round("uu", "probit", 1, "rot"), "D=2, symbolic rotation and scale"))
    out.append(Inst("round:half", h_round("hlu", "logit", 1), "D=3, half-bounded below/above and unbounded"))
    out.append(Inst("mono:unb", h_monotone("u", "logit"), "D=1"))
    return out
