"""C25: divergences and high-density subsets are computed as defined."""
import numpy as np

from pyvbmc.stats import get_hpd, kl_div_mvn

from checks.vpb import make_vp
from symex.run import Inst

META = dict(assumptions=[
    "Gaussians in D <= 2 dimensions (D = 3 with diagonal covariances in thorough) with every mean and every positive definite covariance, and singular covariances of rank one",
    "N <= 4 points (thorough 5) with arbitrary, possibly tied values",
    "least squares with a square non-singular matrix is the exact solution",
    "sampled divergences: 1-2 sampled points, mixtures of up to 2 components in D = 1",
])


def factor(c, D, name, diag=False):
    np_ = c.np
    L = np_.zeros((D, D))
    for i in range(D):
        for j in range(i + 1):
            if i == j:
                L[i, j] = c.real(f"{name}{i}{j}", sign="+", typ=(0.5, 1.5))
            elif not diag:
                L[i, j] = c.real(f"{name}{i}{j}", typ=(-1, 1))
    return L


def gaussians(c, D, diag=False):
    """two arbitrary Gaussians: S2 = L L', S1 = L M M' L', m2 - m1 = L z"""
    L, M = factor(c, D, "L", diag), factor(c, D, "M", diag)
    z = c.array("z", (D,), typ=(-1, 1))
    m1 = c.array("m", (D,), typ=(-1, 1))
    A = L @ M
    return m1, A @ A.T, m1 + L @ z, L @ L.T, L, M, z


def closed_form(c, D, M, z):
    """KL(1||2) and KL(2||1) in the coordinates where S2 is the identity"""
    np_ = c.np
    tr = sum(M[i, j] ** 2 for i in range(D) for j in range(i + 1))
    ld = sum(np_.log(M[i, i]) for i in range(D))
    k1 = (tr + sum(z[i] ** 2 for i in range(D)) - D - 2 * ld) / 2
    # inverse of the triangular M, row by row
    R = [[c.q(0)] * D for _ in range(D)]
    for j in range(D):
        for i in range(j, D):
            s = c.q(1) if i == j else c.q(0)
            for k in range(j, i):
                s = s - M[i, k] * R[k][j]
            R[i][j] = s / M[i, i]
    tr2 = sum(R[i][j] ** 2 for i in range(D) for j in range(i + 1))
    q2 = sum(sum(R[i][j] * z[j] for j in range(i + 1)) ** 2 for i in range(D))
    return k1, (tr2 + q2 - D + 2 * ld) / 2


def h_mvn(D, form, diag=False):
    def h(c):
        np_ = c.np
        m1, S1, m2, S2, L, M, z = gaussians(c, D, diag)
        sh = {"flat": (D,), "row": (1, D), "column": (D, 1)}[form]
        a = [m1.reshape(sh), S1, m2.reshape(sh), S2]
        s = [x.copy() for x in a]
        k = kl_div_mvn(*a)
        c.check(k.shape == (2,), "two divergences")
        r1, r2 = closed_form(c, D, M, z)
        c.check_eq(k[0], r1, "divergence of the first from the second", tol=1e-6)
        c.check_eq(k[1], r2, "divergence of the second from the first", tol=1e-6)
        for x, y in zip(a, s):
            c.check_eq(x, y, "arguments unchanged")
        c.check(k[0] >= -1e-9, "non-negative")
        c.check(k[1] >= -1e-9, "non-negative")
        b = kl_div_mvn(a[2], S2, a[0], S1)
        c.check_eq(b[0], k[1], "exchanging the arguments exchanges the directions", tol=1e-6)
        c.check_eq(b[1], k[0], "exchanging the arguments exchanges the directions", tol=1e-6)
        e = kl_div_mvn(a[0], S1, a[0].copy(), S1.copy())
        c.check_eq(e[0], 0, "zero for equal arguments", tol=1e-7)
        c.check_eq(e[1], 0, "zero for equal arguments", tol=1e-7)

    return h


def h_scalar(c):
    """D = 1 with variances given as 0-, 1- or 2-dimensional arrays."""
    np_ = c.np
    m1, S1, m2, S2, L, M, z = gaussians(c, 1)
    sh = c.choose("shape", [(), (1,), (1, 1)])
    k = kl_div_mvn(m1, S1.reshape(sh), m2, S2.reshape(sh))
    r1, r2 = closed_form(c, 1, M, z)
    c.check_eq(k[0], r1, "divergence of the first from the second", tol=1e-6)
    c.check_eq(k[1], r2, "divergence of the second from the first", tol=1e-6)


def h_singular(which):
    def h(c):
        np_ = c.np
        m1, S1, m2, S2, L, M, z = gaussians(c, 2)
        v = c.const(np.array([1.0, 2.0])) * c.real("t", sign="+", typ=(0.5, 2))
        R = np_.array([[v[0] * v[0], v[0] * v[1]], [v[0] * v[1], v[1] * v[1]]])
        if c.mode == "con":
            R = np.array([[1.0, 2.0], [2.0, 4.0]]) * 2.0 ** np.round(np.log2(v[0]))
        k = kl_div_mvn(m1, R if which != 2 else S1, m2, R if which != 1 else S2)
        c.check(k.shape == (2,), "two divergences")
        c.check(bool(k[0] == np.inf) and bool(k[1] == np.inf), "infinite for a degenerate Gaussian")

    return h


def h_vp_gauss(kind):
    """The Gaussianised divergence of mixtures is that of their moments."""

    def h(c):
        np_ = c.np
        D = 2
        m1, S1, m2, S2, L, M, z = gaussians(c, D)
        v = make_vp(c, D, 1)
        asked = []

        def moments(m, S):
            def f(N=int(1e6), orig_flag=True, cov_flag=False):
                asked.append((N, orig_flag, cov_flag))
                return (m, S) if cov_flag else m
            return f

        v.moments = moments(m1.reshape(1, D), S1)
        if kind == "vp":
            v2 = make_vp(c, D, 1)
            v2.moments = moments(m2.reshape(1, D), S2)
            k = v.kl_div(v2, N=100, gauss_flag=True)
            c.check([a[1:] for a in asked] == [(True, True)] * 2, "moments of both, with covariance, in original space")
            r1, r2 = closed_form(c, D, M, z)
            c.check_eq(k[0], np_.maximum(0, r1), "divergence of this from the other", tol=1e-6)
            c.check_eq(k[1], np_.maximum(0, r2), "divergence of the other from this", tol=1e-6)
        else:
            # samples of the other posterior: four points with mean m2, covariance S2
            u = [L @ c.const(np.array(p)) for p in ([1.0, 1.0], [1.0, -1.0], [-1.0, 1.0], [-1.0, -1.0])]
            X = np_.stack([m2 + x * np_.sqrt(c.q(3, 4)) for x in u])
            X0 = X.copy()
            k = v.kl_div(samples=X, N=100, gauss_flag=True)
            r1, r2 = closed_form(c, D, M, z)
            c.check_eq(k[0], np_.maximum(0, r1), "divergence from the samples' Gaussian", tol=1e-6)
            c.check_eq(k[1], np_.maximum(0, r2), "divergence of the samples' Gaussian", tol=1e-6)
            c.check_eq(X, X0, "samples unchanged")
        c.check(k[0] >= 0, "non-negative")
        c.check(k[1] >= 0, "non-negative")

    return h


def h_vp_sampled(K1, K2, N):
    """The sampled divergence: mean log-ratio of the two densities over draws
    of the first (the second), cut off at zero."""

    def h(c):
        np_ = c.np
        v1, v2 = make_vp(c, 1, K1, lam=None), make_vp(c, 1, K2, lam=None, name="o")
        X = {}
        for nm, v in (("a", v1), ("b", v2)):
            X[nm] = c.array("x" + nm, (N, 1), typ=(-2, 2))
            asked = v.__dict__.setdefault("asked", [])

            def sample(n, orig_flag=True, balance_flag=False, df=np.inf, nm=nm, asked=asked):
                asked.append((n, orig_flag, df))
                return X[nm].copy(), np.zeros(N, dtype=int)

            v.sample = sample
        k = v1.kl_div(v2, N=N)
        c.check(v1.asked == [(N, True, np.inf)] and v2.asked == v1.asked, "one set of draws from each, in original space")
        D = {}
        for nm in "ab":
            D[nm] = [(v1.pdf(X[nm][i:i + 1], True)[0, 0], v2.pdf(X[nm][i:i + 1], True)[0, 0]) for i in range(N)]
            if c.mode == "con" and not all(1e-250 < p for r in D[nm] for p in r):
                return
        f = sum((np_.log(p) - np_.log(q) for p, q in D["a"][1:]), np_.log(D["a"][0][0]) - np_.log(D["a"][0][1])) / N
        r = sum((np_.log(q) - np_.log(p) for p, q in D["b"][1:]), np_.log(D["b"][0][1]) - np_.log(D["b"][0][0])) / N
        c.check_eq(k[0], np_.maximum(0, f), "forward: mean log-ratio over own draws", tol=1e-6)
        c.check_eq(k[1], np_.maximum(0, r), "reverse: mean log-ratio over the other's draws", tol=1e-6)

    return h


def h_vp_args(c):
    v = make_vp(c, 1, 1)
    for kw in (dict(), dict(gauss_flag=True), dict(samples=np.zeros((3, 1))), dict(vp2=v, N=0, gauss_flag=True)):
        try:
            v.kl_div(**kw)
        except ValueError:
            continue
        c.fail("accepts a call without the other posterior")


def h_hpd(N, D, fracs, column, ints=False):
    def h(c):
        np_ = c.np
        X = c.array("X", (N, D), typ=(-2, 2))
        sh = (N, 1) if column else (N,)
        y = c.array("y", sh, lo=-2, hi=2, ld="i") if ints else c.array("y", sh, typ=(-2, 2))
        X0, y0 = X.copy(), y.copy()
        f = c.choose("frac", fracs)
        hX, hy, hr, idx = get_hpd(X, y, f) if f is not None else get_hpd(X, y)
        f = 0.8 if f is None else f
        n = round(f * N)
        c.check_eq(X, X0, "points unchanged")
        c.check_eq(y, y0, "values unchanged")
        ix = [int(i) for i in np.asarray(idx)]
        c.check(len(ix) == n and len(set(ix)) == n and all(0 <= i < N for i in ix), "the requested fraction of distinct points")
        c.check(hX.shape == (n, D) and hy.shape == (n,) + sh[1:], "shapes")
        yf = y0.reshape(-1)
        for i in range(N):
            if i not in ix:
                for j in ix:
                    c.check(yf[j] >= yf[i], "no left-out point has a higher value")
        for r, i in enumerate(ix):
            c.check_eq(hX[r], X0[i], "points belong to the indices")
            c.check_eq(hy.reshape(-1)[r], yf[i], "values belong to the points")
            if r:
                c.check(yf[ix[r - 1]] >= yf[i], "in order of decreasing value")
        if n == 0:
            c.check(bool(np_.all(np_.isnan(hr))) and hr.shape == (D,), "no range without points")
        else:
            c.check(hr.shape == (D,), "one range per variable")
            for d in range(D):
                for i in ix:
                    for j in ix:
                        c.check(hr[d] >= X0[i, d] - X0[j, d], "the range covers the points")
                hit = [hr[d] == X0[i, d] - X0[j, d] for i in ix for j in ix]
                c.check(np_.any(np_.array(hit)), "the range is attained")

    return h


def instances(tier):
    T = tier == "thorough"
    out = []
    for D, form in ((1, "flat"), (1, "column"), (2, "flat"), (2, "row"), (2, "column")):
        out.append(Inst(f"mvn:{D}:{form}", h_mvn(D, form), f"D={D}, all Gaussians"))
    if T:
        out.append(Inst("mvn:3:diag", h_mvn(3, "row", True), "D=3, simultaneously diagonal"))
    out.append(Inst("scalar", h_scalar, "D=1, shapes of the variance"))
    for w in (1, 2, 3):
        out.append(Inst(f"singular:{w}", h_singular(w), "rank-one covariance"))
    for k in ("vp", "samples"):
        out.append(Inst(f"gauss:{k}", h_vp_gauss(k), "D=2 moments"))
    out.append(Inst("sampled:1:1:1", h_vp_sampled(1, 1, 1), "one draw"))
    out.append(Inst("sampled:1:2:1", h_vp_sampled(1, 2, 1), "one draw, two components"))
    out.append(Inst("sampled:1:1:2", h_vp_sampled(1, 1, 2), "two draws"))
    out.append(Inst("args", h_vp_args, "missing arguments"))
    out.append(Inst("hpd:3:1", h_hpd(3, 1, [None, 0.0, 0.1, 0.5, 0.67, 1.0], True), "N=3"))
    out.append(Inst("hpd:3:flat", h_hpd(3, 2, [0.34, 0.6], False), "N=3, D=2, flat values"))
    out.append(Inst("hpd:ties", h_hpd(3, 1, [0.34, 0.67], True, True), "N=3, whole-number values"))
    out.append(Inst("hpd:4", h_hpd(4, 1, [0.25, 0.5, 0.8], True), "N=4"))
    if T:
        out.append(Inst("hpd:5", h_hpd(5, 1, [0.4, 0.5], True), "N=5"))
    return out
