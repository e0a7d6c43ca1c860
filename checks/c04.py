"""C04: bounds and starting points are validated; accepted ones are consistent."""
import numpy as np

from symex.run import Inst
from pyvbmc.parameter_transformer import ParameterTransformer
from pyvbmc.vbmc import VBMC
import pyvbmc.vbmc.vbmc as vbmc_module

META = dict(assumptions=[
    "the whole VBMC constructor runs; its parameter transform is replaced by the identity",
    "bounds and starting points are arbitrary reals or infinite/nan per entry, as listed per harness; D <= 2, up to 3 starting points",
    "'already consistent' = starting points within the effective bounds (0.1% inside the hard bounds) and strictly inside the plausible box, "
    "plausible bounds within the effective bounds, hard bounds zero or larger than 1e-300 in magnitude",
])


def target(x):
    return 0.0


def no_transform(D, *a, **k):
    """The constructor runs with the identity transform (C02 and C03 decide
    the real one): the check is about the bounds."""
    return ParameterTransformer(D)


def build(c, x0, lb, ub, plb, pub):
    old = vbmc_module.ParameterTransformer
    c.cleanup.append(lambda: setattr(vbmc_module, "ParameterTransformer", old))
    vbmc_module.ParameterTransformer = no_transform
    try:
        return VBMC(target, x0, lb, ub, plb, pub, options={"display": "off"}), None
    except ValueError as e:
        return None, e


def check_result(c, v, given, D):
    np_ = c.np
    x0, lb, ub, plb, pub = given
    full = lambda a, d: np_.reshape(a, (1, D)) if a is not None else np_.full((1, D), d)
    LB, UB = full(lb, -np.inf), full(ub, np.inf)
    c.check_eq(v.lower_bounds, LB, "hard lower bounds are kept as given")
    c.check_eq(v.upper_bounds, UB, "hard upper bounds are kept as given")
    P, Q = v.plausible_lower_bounds, v.plausible_upper_bounds
    X = v.optim_state["cache"]["x_orig"]
    c.check(P.shape == (1, D) and Q.shape == (1, D) and X.shape[1] == D, "shapes of the accepted bounds")
    c.check(np_.all(np_.isfinite(P)) and np_.all(np_.isfinite(Q)), "plausible bounds are finite")
    for j in range(D):
        c.check(LB[0, j] < P[0, j], "hard lower < plausible lower")
        c.check(P[0, j] < Q[0, j], "plausible lower < plausible upper")
        c.check(Q[0, j] < UB[0, j], "plausible upper < hard upper")
        lo_inf, hi_inf = bool(np_.isinf(LB[0, j])), bool(np_.isinf(UB[0, j]))
        c.check(lo_inf == hi_inf, "no half-bounded variable is accepted")
        for n in range(X.shape[0]):
            c.check(np_.isfinite(X[n, j]), "starting points are finite")
            c.check(X[n, j] > LB[0, j], "starting point strictly above the lower hard bound")
            c.check(X[n, j] < UB[0, j], "starting point strictly below the upper hard bound")
            c.check(X[n, j] >= P[0, j], "starting point above the plausible lower bound")
            c.check(X[n, j] <= Q[0, j], "starting point below the plausible upper bound")
    return P, Q, X


def margins(c, LB, UB, D):
    """effective bounds as documented: 0.1% of the range inside"""
    np_ = c.np
    r = UB - LB
    lo, hi = LB.copy(), UB.copy()
    for j in range(D):
        if bool(np_.isfinite(LB[0, j])) and bool(np_.isfinite(UB[0, j])):
            lo[0, j] = LB[0, j] + c.q(1, 1000) * r[0, j]
            hi[0, j] = UB[0, j] - c.q(1, 1000) * r[0, j]
    return lo, hi


def h_any(D, N0, hard, have_plb, have_pub, x0kind="fin", flat=False, keep=False, hardflat=None):
    """hard: per variable 'b' bounded, 'u' unbounded, 'l' lower only, 'h' upper
    only; None: not given at all."""

    def h(c):
        np_ = c.np

        def vec(name, typ, kinds=None, special=None):
            if kinds is None:
                a = c.array(name, (1, D), typ=typ)
            else:
                a = np_.array([[c.real(f"{name}{j}", typ=typ) if k else special for j, k in enumerate(kinds)]])
            return a

        lb = ub = None
        if hard is not None:
            if hard[0] != "-":
                lb = vec("lb", (-4, -3), [k in "bl" for k in hard], -np.inf)
                ub = vec("ub", (3, 4), [k in "bh" for k in hard], np.inf)
        plb = vec("plb", (-2, -1)) if have_plb else None
        pub = vec("pub", (1, 2)) if have_pub else None
        if have_plb == "ext":
            plb[0, 0] = c.ext("plb_e", kinds=("nan", "inf", "-inf"))
        if x0kind == "none":
            x0 = None
        elif x0kind == "nan":
            x0 = np_.full((N0, D), np.nan)
        elif x0kind == "inf":
            x0 = c.array("x0", (N0, D), typ=(-0.9, 0.9))
            x0[0, 0] = c.ext("x0_e", kinds=("inf", "-inf", "nan"))
        elif x0kind == "same":  # a coordinate that does not vary
            x0 = c.array("x0", (N0, D), typ=(-0.9, 0.9))
            for n in range(1, N0):
                x0[n, 0] = x0[0, 0]
        else:
            x0 = c.array("x0", (N0, D), typ=(-0.9, 0.9))
        if flat:
            f = lambda a: None if a is None else np_.reshape(a, (D,)).copy()
            if hardflat is None or hardflat:
                lb, ub = f(lb), f(ub)
            plb, pub = f(plb), f(pub)
        given = [x0, lb, ub, plb, pub]
        saved = [None if a is None else a.copy() for a in given]
        if keep:
            LB = np_.reshape(lb, (1, D)) if lb is not None else np_.full((1, D), -np.inf)
            UB = np_.reshape(ub, (1, D)) if ub is not None else np_.full((1, D), np.inf)
            for j in range(D):
                if bool(np_.isfinite(LB[0, j])):
                    c.assume(LB[0, j] < UB[0, j])
                    for b in (LB[0, j], UB[0, j]):
                        c.assume((b == 0) | (abs(b) > c.q(1, 10**300)))
            lo, hi = margins(c, LB, UB, D)
            P, Q = np_.reshape(plb, (1, D)), np_.reshape(pub, (1, D))
            for j in range(D):
                c.assume(P[0, j] < Q[0, j])
                if bool(np_.isfinite(lo[0, j])):
                    c.assume(lo[0, j] <= P[0, j])
                    c.assume(Q[0, j] <= hi[0, j])
                if x0 is not None and x0kind == "fin":
                    for n in range(N0):
                        c.assume(P[0, j] < x0[n, j])
                        c.assume(x0[n, j] < Q[0, j])
        v, err = build(c, *given)
        for a, b, n in zip(given, saved, ("x0", "lower_bounds", "upper_bounds", "plausible_lower_bounds", "plausible_upper_bounds")):
            if a is not None:
                c.check(a.shape == b.shape, f"the caller's {n} keeps its shape")
                c.check_eq(a, b, f"the caller's {n} is not modified")
        if keep:
            c.check(err is None, f"consistent input is accepted ({err})")
        if v is None:
            return
        P, Q, X = check_result(c, v, saved, D)
        if keep:
            c.check_eq(P, np_.reshape(saved[3], (1, D)), "consistent plausible lower bounds are kept")
            c.check_eq(Q, np_.reshape(saved[4], (1, D)), "consistent plausible upper bounds are kept")
            if x0kind == "fin":
                c.check_eq(X, saved[0], "consistent starting points are kept")
            else:
                c.check_eq(X, np_.reshape((saved[3] + saved[4]) / 2, (1, D)), "missing starting point: centre of the plausible box")

    return h


def instances(tier):
    out = []

    def add(D, N0, hard, a, b, x0="fin", **kw):
        nm = f"bounds:D{D}:N{N0}:{hard or 'nohard'}:plb{a}:pub{b}:x0-{x0}" + "".join(f":{k}" if v is True else f":{k}={v}" for k, v in kw.items())
        out.append(Inst(nm, h_any(D, N0, hard, a, b, x0, **kw), f"D={D}, N0={N0}, hard bounds {hard}", time_s=700))

    for hard in ("b", "u", "l", "h", None):
        add(1, 1, hard, True, True)
        add(1, 1, hard, True, False)
        add(1, 1, hard, False, True)
        add(1, 1, hard, False, False)
        add(1, 2, hard, False, False)
        add(1, 2, hard, True, False)
        add(1, 2, hard, False, True)
        add(1, 1, hard, True, True, "none")
        add(1, 1, hard, True, True, "inf")
        add(1, 2, hard, False, False, "same")
    add(1, 2, "b", True, True)
    add(1, 2, "b", True, False, "same")
    add(1, 2, "b", False, True, "same")
    add(1, 1, "b", "ext", True)
    add(1, 2, "b", False, False, "inf")
    for hard in ("bb", "uu", "ub"):
        add(2, 1, hard, True, True, keep=True)
        add(2, 2, hard, True, True, keep=True)
        add(2, 1, hard, True, True, keep=True, flat=True)
        add(2, 1, hard, True, True, "none", keep=True)
        add(2, 1, hard, True, True, "nan", keep=True)
    add(2, 2, "uu", True, False, flat=True)
    add(2, 2, None, True, False, "same", flat=True)
    add(2, 2, None, False, True, "same", flat=True)
    add(2, 1, "ub", True, True)
    if tier == "thorough":
        add(2, 1, "bb", True, True)
        add(2, 2, "ub", True, True)
        add(2, 2, "ub", False, False)
        add(2, 2, "ub", True, False, "same", flat=True)
        add(1, 3, "b", False, False)
    return out
