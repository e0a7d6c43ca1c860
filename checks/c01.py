"""C01: points handed to the target lie strictly inside the hard bounds
(binary64 arithmetic)."""
import numpy as np

from symex.run import Inst
from pyvbmc.parameter_transformer import ParameterTransformer

META = dict(assumptions=[
    "bounds finite, |bound| <= 1e300, at least one binary64 number strictly between them; latent coordinate |u| <= 1e150",
    "exp, erfc return any float in their documented range (monotone facts at 0 and at the overflow thresholds for exp); + - * / max min nextafter are exact binary64",
    "centering delta = 1, mu = 0 unless the harness says otherwise; student4 additionally treats / and sqrt as any float with the sign and magnitude of the correctly rounded result",
])


def transformer(c, kinds, tt, center):
    D = len(kinds)
    L, U = [], []
    for i, k in enumerate(kinds):
        lo = c.real(f"lb{i}", -1e300, 1e300, typ=(-5, 5))
        hi = c.real(f"ub{i}", -1e300, 1e300, typ=(6, 10))
        c.assume(lo < hi)
        c.assume(c.np.nextafter(lo, np.inf) < hi)
        L.append(lo if k == "b" else -np.inf)
        U.append(hi if k == "b" else np.inf)
    lb, ub = c.np.array([L]), c.np.array([U])
    t = ParameterTransformer(D, lb, ub, transform_type=tt)
    if center:
        t.mu = c.array("mu", (D,), -1e100, 1e100, typ=(-1, 1))
        t.delta = c.array("delta", (D,), 1e-100, 1e100, typ=(0.5, 2))
    return t, lb, ub


def h_inside(kinds, tt, N=1, center=False):
    D = len(kinds)

    def h(c):
        t, lb, ub = transformer(c, kinds, tt, center)
        m = 1e150 if not center else 1e50
        # concrete runs use both moderate and saturating coordinates
        u = c.np.zeros((N, D))
        for n in range(N):
            for i in range(D):
                k = c.choose(f"reg{n}{i}", ["any"]) if c.mode == "sym" else c.choose(f"reg{n}{i}", [1.0, 30.0, 1e3, -1e3, 1e8, -1e8])
                u[n, i] = c.real(f"u{n}{i}", -m, m, typ=(-1, 1) if c.mode == "sym" else (min(k, 0) - 1, max(k, 0) + 1))
        x = t.inverse(u)
        for n in range(N):
            for i, k in enumerate(kinds):
                if k == "b":
                    c.check(lb[0, i] < x[n, i], "strictly above the hard lower bound")
                    c.check(x[n, i] < ub[0, i], "strictly below the hard upper bound")
                else:
                    c.check(c.np.isfinite(x[n, i]), "unbounded coordinate finite")

    return h


def h_direct_unit(tt):
    """The direct transform never sends an interior point to an infinite
    latent coordinate's side it is not on: interior points are not treated as
    being on the bound (nudged away from 0 and 1)."""

    def h(c):
        t, lb, ub = transformer(c, "b", tt, False)
        x = c.real("x", typ=(5.2, 5.9))
        c.assume(lb[0, 0] < x)
        c.assume(x < ub[0, 0])
        u = t(c.np.array([[x]]))
        c.check(u[0, 0] == u[0, 0], "not NaN")

    return h


def instances(tier):
    o = dict(fp=True, exact_next=False, timeout_ms=250000, feas_ms=60000, time_s=780)
    out = []
    for tt in ("logit", "probit", "student4"):
        for kinds in ("b", "ub") + (("ubb",) if tier == "thorough" else ()):
            for ce in (False, True):
                out.append(
                    Inst(f"fp:inside:{tt}:{kinds}" + (":centered" if ce else ""), h_inside(kinds, tt, 2 if kinds == "ubb" else 1, ce),
                         f"D={len(kinds)}", validate=6, fp_abstract=True, **o)
                )
    if tier == "thorough":
        for tt in ("logit", "probit"):
            out.append(Inst(f"fp:exact:{tt}", h_inside("bu", tt), "D=2, exact binary64 products and quotients", validate=6, **o))
    return out
