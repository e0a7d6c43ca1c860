"""C20: prior densities match their definition, normalise, vanish outside."""
import sys

import numpy as np
from scipy.stats._distn_infrastructure import rv_continuous_frozen
from scipy.stats._multivariate import multivariate_normal_frozen, multivariate_t_frozen

from pyvbmc.priors import (
    Prior, Product, SciPy, SmoothBox, SplineTrapezoidal, Trapezoidal, UniformBox, UserFunction, convert_to_prior,
)
from symex.engine import Infeasible
from symex.run import Inst

META = dict(assumptions=[
    "D <= 2 variables, N <= 2 points, all parameter values and points (real or whole-number typed)",
    "rejection sampling: up to 3 proposals per sample (longer rejection runs are outside the bound)",
    "SciPy's own densities, supports and draws are arbitrary functions behind SciPy's interface (their shapes follow SciPy)",
])

KINDS = {"uniform": UniformBox, "trapezoidal": Trapezoidal, "spline": SplineTrapezoidal, "smooth": SmoothBox}


def params(c, kind, D, tag=""):
    """valid parameters: increasing by arbitrary positive amounts"""
    np_ = c.np
    a = c.array("a" + tag, (D,), typ=(-2, 0))
    step = lambda n: c.array(n + tag, (D,), sign="+", typ=(0.3, 1.5))
    if kind == "uniform":
        return [a, a + step("w")]
    if kind == "smooth":
        return [a, a + step("w"), step("sd")]
    u = a + step("w1")
    v = u + step("w2")
    return [a, u, v, v + step("w3")]


def density(c, kind, P, x):
    """the documented univariate density, up to the normalising constant"""
    np_ = c.np
    if kind == "uniform":
        a, b = P
        return 1 if a <= x and x <= b else 0
    if kind == "smooth":
        a, b, s = P
        if x < a:
            return np_.exp(-((x - a) ** 2) / (2 * s**2))
        if x > b:
            return np_.exp(-((x - b) ** 2) / (2 * s**2))
        return 1
    a, u, v, b = P
    if x < a or x >= b:
        return 0
    if x < u:
        z = (x - a) / (u - a)
    elif x < v:
        return 1
    else:
        z = (b - x) / (b - v)
    return z if kind == "trapezoidal" else 3 * z**2 - 2 * z**3


def mass(c, kind, P):
    if kind == "uniform":
        return P[1] - P[0]
    if kind == "smooth":
        return P[1] - P[0] + c.np.sqrt(2 * np.pi) * P[2]
    a, u, v, b = P
    return (v - u) + ((u - a) + (b - v)) / 2


def h_density(kind, D, N, how="rows", ints=False):
    def h(c):
        np_ = c.np
        P = params(c, kind, D)
        pr = KINDS[kind](*[p.copy() for p in P])
        c.check(pr.D == D, "dimension")
        shape = {"rows": (N, D), "point": (D,), "list": (N,)}[how]
        x = c.array("x", shape, ld="i") if ints else c.array("x", shape, typ=(-3, 4))
        x0 = x.copy()
        lp = pr.log_pdf(x)
        flat = pr.log_pdf(x, keepdims=False)
        p = pr.pdf(x)
        c.check_eq(x, x0, "the points are left alone")
        X = x.reshape(-1, D)
        c.check(lp.shape == (len(X), 1) and p.shape == (len(X), 1), "shape (n, 1)")
        c.check(flat.shape == (len(X),), "shape (n,)")
        for n in range(len(X)):
            want, norm = 1, 1
            for d in range(D):
                pars = [q[d] for q in P]
                want = want * density(c, kind, pars, X[n, d])
                norm = norm * mass(c, kind, pars)
            if c.mode == "con" and want == 0 or c.mode == "sym" and isinstance(want, int) and want == 0:
                c.check(lp[n, 0] == -np.inf, "minus infinity outside the support")
                c.check(p[n, 0] == 0, "density zero outside the support")
                c.check(flat[n] == -np.inf, "minus infinity outside the support")
                continue
            c.check_eq(np_.exp(lp[n, 0]) * norm, want, "density as documented", tol=1e-6)
            c.check_eq(p[n, 0] * norm, want, "pdf is the exponential", tol=1e-6)
            c.check_eq(np_.exp(flat[n]) * norm, want, "keepdims does not change values", tol=1e-6)
            inside = want > 0
            if inside:
                c.check(np_.isfinite(lp[n, 0]), "finite inside the support")
        lo, hi = pr.support()
        for d in range(D):
            a, b = (P[0][d], P[-1][d]) if kind != "smooth" else (-np.inf, np.inf)
            if kind == "smooth":
                c.check(lo[d] == a and hi[d] == b, "support")
            else:
                c.check_eq(lo[d], a, "lower end of the support")
                c.check_eq(hi[d], b, "upper end of the support")

    return h


def h_norm(kind):
    """The integral of the density: three-node rules are exact for the
    (at most cubic) pieces."""

    def h(c):
        np_ = c.np
        P = params(c, kind, 1)
        pr = KINDS[kind](*P)
        f = lambda x: pr.pdf(np_.reshape(np_.array([x]), (1, 1)))[0, 0]
        knots = [p[0] for p in (P if kind not in ("smooth",) else P[:2])]
        total = 0
        for l, r in zip(knots[:-1], knots[1:]):
            w = r - l
            n = [f(l + w * c.q(k, 4)) for k in (1, 2, 3)]
            total = total + w * (2 * n[0] - n[1] + 2 * n[2]) / 3
        if kind == "smooth":
            # two half Gaussians: value at the pivot times sqrt(2 pi) sd / 2
            sd = P[2][0]
            for pivot, sign in ((knots[0], -1), (knots[1], 1)):
                t = c.real(f"t{sign}", sign="+", typ=(0.1, 2))
                c.check_eq(f(pivot + sign * t * sd) * np_.exp(t * t / 2), f((knots[0] + knots[1]) / 2), "Gaussian tail", tol=1e-6)
                total = total + np_.sqrt(2 * np.pi) * sd / 2 * f(pivot + sign * sd) * np_.exp(c.q(1, 2))
        c.check_eq(total, 1, "the density integrates to one", tol=1e-6)

    return h


def h_ints(kind):
    """Parameters given as whole numbers, as scalars."""

    def h(c):
        np_ = c.np
        D = 2
        a = [[0, 2], [0, 2, 1], [0, 1, 3, 4]][{"uniform": 0, "smooth": 1}.get(kind, 2)]
        i = KINDS[kind](*a, D=D)
        f = KINDS[kind](*[float(v) for v in a], D=D)
        c.check(i.D == D and f.D == D, "scalars are tiled to the dimension")
        x = c.array("x", (1, D), typ=(-1, 5))
        p, q = i.pdf(x), f.pdf(x)
        want = 1
        for d in range(D):
            want = want * density(c, kind, [np_.float64(v) for v in a], x[0, d]) / mass(c, kind, [np_.float64(v) for v in a])
        c.check_eq(p[0, 0], want, "whole-number parameters give the documented density", tol=1e-6)
        c.check_eq(q[0, 0], want, "scalar parameters give the documented density", tol=1e-6)
        for pr in (i, f):
            lo, hi = pr.support()
            for d in range(D):
                e = (-np.inf, np.inf) if kind == "smooth" else (a[0], a[-1])
                c.check(bool(lo[d] == e[0]) and bool(hi[d] == e[1]), "support does not depend on the numeric type")

    return h


def h_reject(kind):
    def h(c):
        n = 3 if kind == "smooth" else 2 if kind == "uniform" else 4
        P = [c.array(f"p{i}", (2,), typ=(-2, 2)) for i in range(n)]
        ok = True
        try:
            KINDS[kind](*P)
        except ValueError:
            ok = False
        want = True
        for d in range(2):
            if kind == "smooth":
                want = want and bool(P[2][d] > 0) and bool(P[0][d] < P[1][d])
            else:
                for i in range(n - 1):
                    want = want and bool(P[i][d] < P[i + 1][d])
        c.check(ok == want, "parameters are accepted exactly when they are in order")
        pr = None
        bad = c.array("bad", (1, 3))
        pr = KINDS[kind](*[np.array([v, v]) for v in ([0.0, 1.0, 1.0] if kind == "smooth" else [0.0, 1.0, 2.0, 3.0][:n])])
        try:
            pr.log_pdf(bad)
        except ValueError:
            return
        c.fail("points of the wrong dimension are rejected")

    return h


def h_sample(kind, n, D, limit=3, given=None):
    def h(c):
        np_ = c.np
        P = params(c, kind, D) if given is None else [c.const(np.full(D, float(v))) for v in given]
        pr = KINDS[kind](*P)
        draws = []
        rng = np_.random
        uniform = rng.uniform

        def limited(low=0.0, high=1.0, size=None):
            if len(draws) >= 2 * limit * D:
                raise Infeasible()
            r = uniform(low, high, size)
            draws.append((low, high, r))
            return r

        rng.uniform = limited
        if c.mode == "con":
            c.cleanup.append(lambda: setattr(rng, "uniform", uniform))
        s = pr.sample(n)
        c.check(s.shape == (n, D), "shape of the samples")
        for i in range(n):
            for d in range(D):
                lo, hi = P[0][d], P[-1][d]
                if kind != "smooth":
                    c.check(lo <= s[i, d], "samples lie in the support")
                    c.check(s[i, d] <= hi, "samples lie in the support")
        if kind in ("trapezoidal", "spline") and n == 1 and D == 1:
            # rejection sampling: the accepted proposal is under the density,
            # the rejected ones are above it; heights cover the density
            pars = [q[0] for q in P]
            norm = mass(c, kind, pars)
            props, hts = draws[0::2], draws[1::2]
            c.check(len(props) == len(hts), "one height per proposal")
            for j, ((l, h_, x), (zl, zh, z)) in enumerate(zip(props, hts)):
                x, z = np_.ravel(x)[0], np_.ravel(z)[0]
                c.check_eq(l, pars[0], "proposals over the whole support")
                c.check_eq(h_, pars[-1], "proposals over the whole support")
                c.check_eq(zl, 0, "heights from zero")
                c.check_eq(np_.ravel(zh)[0] * norm, 1, "to the maximum of the density", tol=1e-6)
                under = z * norm <= density(c, kind, pars, x)
                if j == len(props) - 1:
                    c.check(under, "the accepted proposal is under the density")
                    c.check_eq(s[0, 0], x, "the accepted proposal is returned")
                else:
                    c.check(z * norm >= density(c, kind, pars, x), "rejected proposals are above the density")

    return h


def h_smooth_sample(c):
    """Each part of the smooth box is drawn with its probability."""
    np_ = c.np
    P = params(c, "smooth", 1)
    a, b, sd = [p[0] for p in P]
    pr = SmoothBox(*P)
    s = pr.sample(1)[0, 0]
    dr = [d for d in c.notes["draws"]]
    u = dr[0][1].ravel()[0]
    # share of the two tails: sqrt(2 pi) sd against b - a
    tails = np_.sqrt(2 * np.pi) * sd
    share = tails / (tails + (b - a))
    z = dr[1][1].ravel()[0]
    if u < share:
        # either tail, with equal shares
        c.check(dr[1][0] == "randn", "tails are Gaussian")
        t = np_.abs(z) * sd
        if u < share / 2:
            c.check_eq(s, a - t, "left tail", tol=1e-6)
        else:
            c.check_eq(s, b + t, "right tail", tol=1e-6)
    else:
        c.check(dr[1][0] == "rand", "plateau is uniform")
        c.check_eq(s, a + (b - a) * z, "plateau", tol=1e-6)


# ------------------------------------------------------------ wrappers
class Uni(rv_continuous_frozen):
    """a frozen univariate SciPy distribution: .a and .b are the ends of the
    standardised support, support() the real ends"""

    def __init__(self, c, tag, lo, hi):
        self.c, self.tag, self.lo, self.hi = c, tag, lo, hi
        self.a, self.b = 0.0, 1.0

    def support(self):
        return self.lo, self.hi

    def logpdf(self, x):
        return values(self.c, self.tag, x.reshape(-1, 1)).reshape(x.shape)

    def rvs(self, size=None, random_state=None):
        return self.c.array(f"rvs{self.tag}", (size,), typ=(-1, 1))


def values(c, tag, X):
    r = c.np.zeros(len(X))
    for i in range(len(X)):
        r[i] = c.uf(f"f{tag}", [X[i, d] for d in range(X.shape[1])])
    return r


def multi(base):
    class Multi(base):
        def __init__(self, c, D):
            self.__dict__.update(c=c, nd=D)

        def logpdf(self, x):
            X = x.reshape(-1, self.nd)
            r = values(self.c, "m", X)
            return r if len(X) > 1 else r[0]

        def rvs(self, size=1, random_state=None):
            n = self.c.notes["rvs"] = self.c.notes.get("rvs", 0) + 1
            r = self.c.array(f"rvs{n}", (size, self.nd), typ=(-1, 1))
            self.c.notes["last"] = r.copy()
            # SciPy drops axes of length one
            if size == 1:
                r = r[0]
                return r[0] if self.nd == 1 else r
            return r[:, 0] if self.nd == 1 else r

    return Multi


def h_scipy(what, D, N):
    def h(c):
        np_ = c.np
        if what == "uni":
            lo = c.real("lo", typ=(-2, 0))
            hi = lo + c.real("w", sign="+", typ=(1, 2))
            d = Uni(c, "m", lo, hi)
        else:
            d = multi(multivariate_normal_frozen if what == "mvn" else multivariate_t_frozen)(c, D)
        pr = SciPy(d)
        c.check(pr.D == D, "dimension")
        x = c.array("x", (N, D), typ=(-1, 1))
        lp = pr.log_pdf(x)
        c.check(lp.shape == (N, 1), "shape (n, 1)")
        want = values(c, "m", x)
        for i in range(N):
            c.check_eq(lp[i, 0], want[i], "the log-density of the wrapped distribution")
        a, b = pr.support()
        c.check(np.shape(a) == (D,) and np.shape(b) == (D,), "shape of the support")
        if what == "uni":
            c.check_eq(a[0], lo, "the support is that of the wrapped distribution")
            c.check_eq(b[0], hi, "the support is that of the wrapped distribution")
        else:
            c.check(all(bool(v == -np.inf) for v in a) and all(bool(v == np.inf) for v in b), "unbounded support")
        s = pr.sample(N)
        c.check(s.shape == (N, D), "samples (n, D)")
        if what != "uni":
            c.check_eq(s, c.notes["last"], "the draws of the wrapped distribution")

    return h


class Marg(Prior):
    def __init__(self, c, m):
        self.D, self.c, self.m = 1, c, m

    def _log_pdf(self, x):
        return values(self.c, f"g{self.m}", x).reshape(-1, 1)

    def sample(self, n):
        r = self.c.array(f"s{self.m}", (n, 1), typ=(-1, 1))
        return r

    def _support(self):
        r = self.c.np.zeros(2)
        r[0] = self.c.real(f"lo{self.m}", typ=(-2, -1))
        r[1] = self.c.real(f"hi{self.m}", typ=(1, 2))
        return r[:1], r[1:]

    @classmethod
    def _generic(cls, D=1):
        raise NotImplementedError


def h_product(N, how):
    def h(c):
        np_ = c.np
        marg = [Marg(c, 0), Uni(c, "u", c.real("ulo", typ=(3, 4)), c.real("uhi", typ=(5, 6))), Marg(c, 2)]
        D = len(marg)
        pr = Product(marg) if how == "class" else convert_to_prior(marg)
        c.check(isinstance(pr, Product) and pr.D == D, "dimension")
        x = c.array("x", (N, D), typ=(-1, 1))
        lp = pr.log_pdf(x)
        c.check(lp.shape == (N, 1), "shape (n, 1)")
        for i in range(N):
            want = c.uf("fg0", [x[i, 0]]) + c.uf("fu", [x[i, 1]]) + c.uf("fg2", [x[i, 2]])
            c.check_eq(lp[i, 0], want, "sum of the marginals' log-densities")
        s = pr.sample(N)
        c.check(s.shape == (N, D), "samples (n, D)")
        for i in range(N):
            for m, nm in enumerate(("s0", "rvsu", "s2")):
                w = c.array(nm, (N,) if m == 1 else (N, 1), typ=(-1, 1)).reshape(-1)[i]
                c.check_eq(s[i, m], w, "each column drawn from its own marginal")
        a, b = pr.support()
        c.check_eq(a[0], c.real("lo0", typ=(-2, -1)), "support of the first marginal")
        c.check_eq(b[2], c.real("hi2", typ=(1, 2)), "support of the last marginal")
        c.check_eq(a[1], c.real("ulo", typ=(3, 4)), "support of the SciPy marginal")
        c.check_eq(b[1], c.real("uhi", typ=(5, 6)), "support of the SciPy marginal")

    return h


def h_mixed(c):
    """Real marginals of every kind."""
    kinds = list(KINDS)
    P = [params(c, k, 1, str(i)) for i, k in enumerate(kinds)]
    pr = Product([KINDS[k](*p) for k, p in zip(kinds, P)])
    x = c.array("x", (1, len(kinds)), typ=(-3, 4))
    lp = pr.log_pdf(x)
    want, norm = 1, 1
    for i, k in enumerate(kinds):
        pars = [p[0] for p in P[i]]
        want = want * density(c, k, pars, x[0, i])
        norm = norm * mass(c, k, pars)
    if isinstance(want, int) and want == 0 or c.mode == "con" and want == 0:
        c.check(lp[0, 0] == -np.inf, "minus infinity outside the support")
    else:
        c.check_eq(c.np.exp(lp[0, 0]) * norm, want, "product of the marginal densities", tol=1e-6)


def h_convert(c):
    f = lambda x: c.uf("f", [x[0], x[1]])
    s = lambda n: c.array("s", (n, 2))
    case = c.choose("case", ["prior", "scipy", "function", "sampler", "none", "callable", "both", "other log", "list of junk", "two-dim marginal"])
    own = UniformBox(0.0, 1.0, D=2)
    x = c.array("x", (2,))
    if case == "prior":
        p = convert_to_prior(own)
        c.check(p is own, "a prior is used unchanged")
    elif case == "scipy":
        p = convert_to_prior(multi(multivariate_normal_frozen)(c, 2))
        c.check(isinstance(p, SciPy) and p.D == 2, "SciPy distributions are wrapped")
        c.check_eq(p.log_pdf(x)[0, 0], c.uf("fm", [x[0], x[1]]), "with their log-density")
    elif case in ("function", "sampler"):
        p = convert_to_prior(log_prior=f, sample_prior=s if case == "sampler" else None, D=2)
        c.check(isinstance(p, UserFunction) and p.D == 2, "functions are wrapped")
        c.check_eq(p.log_pdf(x), c.uf("f", [x[0], x[1]]), "with their log-density")
        c.check_eq(p.pdf(x), c.np.exp(c.uf("f", [x[0], x[1]])), "pdf is the exponential")
        if case == "sampler":
            c.check_eq(p.sample(2), c.array("s", (2, 2)), "the user's sampler")
        else:
            c.check(p.sample is None, "no sampler")
    else:
        args = {
            "none": lambda: convert_to_prior(None), "callable": lambda: convert_to_prior(f),
            "both": lambda: convert_to_prior(own, sample_prior=s), "other log": lambda: convert_to_prior(own, log_prior=f),
            "list of junk": lambda: convert_to_prior([1.0, own]),
            "two-dim marginal": lambda: convert_to_prior([own, UniformBox(0.0, 1.0)]),
        }[case]
        try:
            args()
        except (TypeError, ValueError):
            return
        c.fail(f"{case}: accepted")


def instances(tier):
    T = tier == "thorough"
    out = []
    for k in KINDS:
        out.append(Inst(f"density:{k}", h_density(k, 1, 1), "D=1, N=1"))
        out.append(Inst(f"density:{k}:2", h_density(k, 2, 1), "D=2, N=1"))
        out.append(Inst(f"density:{k}:rows", h_density(k, 1, 2, "rows"), "D=1, N=2"))
        out.append(Inst(f"density:{k}:list", h_density(k, 1, 2, "list"), "D=1, one axis"))
        out.append(Inst(f"density:{k}:point", h_density(k, 2, 1, "point"), "D=2, one axis"))
        out.append(Inst(f"density:{k}:whole", h_density(k, 1, 1, "rows", True), "D=1, whole-number points"))
        if T:
            out.append(Inst(f"density:{k}:22", h_density(k, 2, 2), "D=2, N=2"))
            out.append(Inst(f"density:{k}:whole:2", h_density(k, 2, 1, "point", True), "D=2, whole-number points"))
        out.append(Inst(f"norm:{k}", h_norm(k), "D=1"))
        out.append(Inst(f"types:{k}", h_ints(k), "D=2, scalar and whole-number parameters"))
        out.append(Inst(f"reject:{k}", h_reject(k), "D=2"))
        given, msg = ((-1, 0, 2, 4), ", pivots -1, 0, 2, 4") if k == "spline" else (None, "")
        lim = 2 if k == "spline" and not T else 3
        out.append(Inst(f"sample:{k}", h_sample(k, 1, 1, lim, given), f"one sample, <= {lim} proposals{msg}"))
        out.append(Inst(f"sample:{k}:2", h_sample(k, 2 if T else 1, 2, 3 if T else 2, given), "D=2" + msg))
    out.append(Inst("sample:parts", h_smooth_sample, "one sample of the smooth box"))
    for what, D in (("uni", 1), ("mvn", 1), ("mvn", 2), ("mvt", 2)):
        for N in (1, 2):
            out.append(Inst(f"scipy:{what}{D}:{N}", h_scipy(what, D, N), f"D={D}, N={N}"))
    for N in (1, 2):
        out.append(Inst(f"product:{N}", h_product(N, "class"), f"three marginals, N={N}"))
    out.append(Inst("product:convert", h_product(1, "convert"), "three marginals"))
    out.append(Inst("product:mixed", h_mixed, "one marginal of each kind"))
    out.append(Inst("convert", h_convert, "ten ways of giving a prior"))
    return out
