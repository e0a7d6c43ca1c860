"""C28: the evaluated log-joint is log-likelihood plus log-prior."""
import numpy as np
from scipy import stats

from pyvbmc.priors import Product, SmoothBox, SplineTrapezoidal, Trapezoidal, UniformBox, UserFunction
from pyvbmc.vbmc import VBMC

from checks.c12 import Tr
from symex.run import Inst

META = dict(assumptions=[
    "D <= 2 variables, 2 evaluations; likelihood, user-given prior and noise are arbitrary functions of the point",
    "PyVBMC's own priors have arbitrary parameters and are evaluated inside their support; SciPy priors are outside (see C20 for their wrapper)",
])


class Model:
    """a target with arbitrary values; remembers the points it is asked at"""

    def __init__(self, c, noise, D, form="scalar"):
        self.c, self.noise, self.D, self.form = c, noise, D, form
        self.at, self.prior_at = [], []

    def _v(self, name, x):
        a = self.c.np.reshape(x, (-1,))
        return self.c.uf(name, [a[i] for i in range(a.shape[0])])

    def wrap(self, y):
        return self.c.np.array([y]) if self.form == "array" else y

    def ll(self, x):
        self.at.append(x.copy())
        y = self.wrap(self._v("ll", x))
        return (y, self.sd(x)) if self.noise else y

    def sd(self, x):
        s = self._v("sd", x)
        return self.c.np.sqrt(s * s + 1)

    def lp(self, x):
        self.prior_at.append(x.copy())
        return self.wrap(self._v("lp", x))

    def sample(self, n):
        return np.zeros((n, self.D))


def build(m, D, bounded, **prior):
    one = np.ones((1, D))
    lb, ub = (-5 * one, 5 * one) if bounded else (-np.inf * one, np.inf * one)
    o = {"display": "off", "specify_target_noise": m.noise}
    return VBMC(m.ll, 0 * one, lb, ub, -one, one, options=o, **prior)


def evaluate(c, m, v, D, want):
    """Evaluate twice, through the target the object holds and through its
    record of evaluations."""
    th = c.array("theta", (D,), typ=(-1, 1))
    t0 = th.copy()
    out = v.log_joint(th)
    y, s = out if m.noise else (out, None)
    c.check(np.size(y) == 1, "one value")
    c.check_eq(c.np.reshape(c.np.array([y]), (-1,))[0], want(t0), "log-likelihood plus log-prior", tol=1e-6)
    c.check_eq(th, t0, "the point is left alone")
    c.check(len(m.at) == 1, "one likelihood evaluation")
    c.check_eq(c.np.reshape(m.at[0], (-1,)), t0, "the likelihood is asked at the point")
    if m.prior_at:
        c.check(len(m.prior_at) == 1, "one prior evaluation")
        c.check_eq(c.np.reshape(m.prior_at[0], (-1,)), t0, "the prior is asked at the same point")
    if m.noise:
        c.check_eq(s, m.sd(t0), "the noise is the likelihood's")
    # recorded evaluations: same point in original space, same value and noise
    x = c.array("x", (1, D), typ=(-1, 1))
    val, sd, idx = v.function_logger(x)
    L = v.function_logger
    c.check(len(m.at) == 2, "one likelihood evaluation per recorded evaluation")
    xo = m.at[1]
    c.check_eq(c.np.reshape(L.X_orig[idx], (-1,)), c.np.reshape(xo, (-1,)), "recorded at the evaluated point")
    c.check_eq(L.y_orig[idx, 0], want(xo), "the recorded value is log-likelihood plus log-prior", tol=1e-6)
    jac = v.parameter_transformer.log_abs_det_jacobian(x)
    c.check_eq(val, want(xo) + c.np.reshape(jac, (-1,))[0], "with the change of variables of the transform", tol=1e-6)
    if m.noise:
        c.check_eq(sd, m.sd(xo), "the recorded noise is the likelihood's")
        c.check_eq(L.S[idx, 0], m.sd(xo), "the recorded noise is the likelihood's")
    c.check(L.noise_flag == m.noise, "noise only where the target reports it")


def h_user(D, how, noise, bounded, form):
    def h(c):
        m = Model(c, noise, D, form)
        kw = {
            "log_prior": dict(log_prior=m.lp),
            "both": dict(log_prior=m.lp, sample_prior=m.sample),
            "object": dict(prior=UserFunction(m.lp, D=D)),
            "object+functions": {},
            "sample": dict(sample_prior=m.sample),
            "none": {},
        }[how]
        if how == "object+functions":
            p = UserFunction(m.lp, m.sample, D)
            kw = dict(prior=p, log_prior=p.log_pdf, sample_prior=p.sample)
        v = build(m, D, bounded, **kw)
        has = how not in ("sample", "none")
        v1 = lambda a: c.np.reshape(c.np.array([a]), (-1,))[0]

        def want(x):
            w = m._v("ll", x)
            return w + m._v("lp", x) if has else w

        evaluate(c, m, v, D, want)
        c.check(v.log_likelihood is None if not has else v.log_likelihood == m.ll, "the likelihood kept is the given one")
        c.check((v.prior is None) == (how == "none"), "the prior kept is the given one")
        c.check(bool(m.prior_at) == has, "the prior is asked only when it has a density")

    return h


def inside(c, kind, d):
    """parameters of a prior with the points of interest inside its support"""
    w = lambda n: c.array(f"{n}{d}", (1,), sign="+", typ=(0.3, 1))
    lo = c.np.array([-c.q(11, 2)]) - w("l")
    if kind == "uniform":
        return UniformBox, [lo, lo + 11 + 2 * w("r") + w("l")]
    if kind == "smooth":
        return SmoothBox, [c.np.array([c.q(-1, 2)]) - w("l"), c.np.array([c.q(1, 2)]) + w("r"), w("s")]
    a = [lo, c.np.array([c.q(-1, 2)]) - 0 * w("l"), c.np.array([c.q(1, 2)]) + w("m"), c.np.array([c.q(11, 2)]) + w("m") + w("r")]
    return (Trapezoidal if kind == "trapezoidal" else SplineTrapezoidal), a


def h_own(kinds, how, noise):
    """PyVBMC's own priors, given as one object or as a list of marginals."""

    def h(c):
        D = len(kinds)
        m = Model(c, noise, D)
        made = [inside(c, k, d) for d, k in enumerate(kinds)]
        if how == "object":
            cls = made[0][0]
            prior = cls(*[c.np.concatenate([q[1][i] for q in made]) for i in range(len(made[0][1]))])
        else:
            prior = [cls(*[p.copy() for p in a]) for cls, a in made]
            if how == "product":
                prior = Product(prior)
        v = build(m, D, True, prior=prior)
        one = [cls(*a) for cls, a in made]

        def want(x):
            w = m._v("ll", x)
            for d in range(D):
                w = w + one[d].log_pdf(c.np.reshape(x[d], (1, 1)))[0, 0]
            return w

        th = c.array("theta", (D,), lo=-5, hi=5, typ=(-1, 1))
        out = v.log_joint(th)
        y, s = out if noise else (out, None)
        c.check(np.size(y) == 1, "one value")
        c.check_eq(c.np.reshape(c.np.array([y]), (-1,))[0], want(th), "log-likelihood plus log-prior", tol=1e-6)
        if noise:
            c.check_eq(s, m.sd(th), "the noise is the likelihood's")
        x = c.np.zeros((1, D))
        val, sd, idx = v.function_logger(x)
        xo = m.at[1]
        c.check_eq(v.function_logger.y_orig[idx, 0], want(xo), "the recorded value is log-likelihood plus log-prior", tol=1e-6)
        c.check(v.prior.D == D, "dimension of the prior")

    return h


def h_reject(c):
    """Contradictory or unusable priors are refused."""
    m = Model(c, False, 2)
    a = c.array("a", (1,), typ=(-2, -1))
    box = UniformBox(a, a + c.array("w", (1,), sign="+", typ=(0.5, 1)))
    bad = [
        ("a prior of another dimension", ValueError, dict(prior=box)),
        ("a user prior of another dimension", ValueError, dict(prior=UserFunction(m.lp, D=3))),
        ("too few marginals", ValueError, dict(prior=[box])),
        ("too many marginals", ValueError, dict(prior=[box, box, box])),
        ("a function as prior object", TypeError, dict(prior=m.lp)),
        ("a second, different log-prior", ValueError, dict(prior=UserFunction(m.lp, D=2), log_prior=m.ll)),
        ("a second, different sampler", ValueError, dict(prior=UserFunction(m.lp, m.sample, D=2), sample_prior=m.ll)),
        ("a number as prior", TypeError, dict(prior=3.0)),
        ("a number as log-prior", TypeError, dict(log_prior=3.0)),
    ]
    name, err, kw = c.choose("case", bad)
    try:
        build(m, 2, False, **kw)
    except err:
        return
    c.fail(f"{name} is accepted")


def instances(tier):
    T = tier == "thorough"
    out = []
    for how in ("log_prior", "both", "object", "object+functions", "sample", "none"):
        for noise in (False, True):
            for D, bounded, form in ((1, False, "scalar"), (2, True, "scalar"), (2, False, "array"), (1, True, "array")):
                if not T and (how in ("both", "object+functions") and D == 1):
                    continue
                out.append(Inst(f"user:{how}:{int(noise)}:{D}:{int(bounded)}:{form}", h_user(D, how, noise, bounded, form), f"D={D}, prior given as {how}"))
    for k in ("uniform", "smooth", "trapezoidal", "spline"):
        for noise in (False, True):
            out.append(Inst(f"own:{k}:{int(noise)}", h_own([k], "object", noise), f"{k} prior, D=1"))
    out.append(Inst("own:list", h_own(["uniform", "smooth"], "list", True), "list of two marginals"))
    out.append(Inst("own:product", h_own(["trapezoidal", "uniform"], "product", False), "product of two marginals"))
    out.append(Inst("own:box2", h_own(["uniform", "uniform"], "object", False), "D=2 box"))
    if T:
        out.append(Inst("own:smooth2", h_own(["smooth", "smooth"], "object", True), "D=2 smooth box"))
        out.append(Inst("own:list2", h_own(["spline", "trapezoidal"], "list", False), "list of two marginals"))
    out.append(Inst("reject", h_reject, "refused priors"))
    return out
