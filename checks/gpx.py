"""Shared piece: a fitted surrogate with arbitrary hyperparameters and
posterior quantities (exactly the attributes the code reads)."""
import numpy as np
import gpyreg as gpr


class Post:
    pass


class GP:
    pass


MEANS = {
    "zero": gpr.mean_functions.ZeroMean,
    "const": gpr.mean_functions.ConstantMean,
    "quad": gpr.mean_functions.NegativeQuadratic,
}


def make_gp(c, D, N, Ns=1, mean="quad", chol=True, var=False, name=""):
    np_ = c.np
    g = GP()
    g.D = D
    g.X = c.array(name + "X", (N, D), typ=(-2, 2))
    g.y = c.array(name + "y", (N, 1), typ=(-2, 2))
    g.s2 = None
    g.mean = MEANS[mean]()
    g.covariance = gpr.covariance_functions.SquaredExponential()
    g.noise = gpr.noise_functions.GaussianNoise(constant_add=True)
    g.posteriors = np.empty((Ns,), dtype=object)
    g.truth = []
    for s in range(Ns):
        n = f"{name}h{s}_"
        t = dict(
            ell=[c.real(f"{n}ell{d}", sign="+", typ=(0.5, 2)) for d in range(D)],
            sf=c.real(n + "sf", sign="+", typ=(0.5, 2)),
            sn=c.real(n + "sn", sign="+", typ=(0.1, 0.5)),
            m0=c.q(0),
            xm=[c.q(0)] * D,
            om=None,
        )
        hyp = [np_.log(e) for e in t["ell"]] + [np_.log(t["sf"]), np_.log(t["sn"])]
        if mean != "zero":
            t["m0"] = c.real(n + "m0", typ=(-2, 2))
            hyp.append(t["m0"])
        if mean == "quad":
            t["xm"] = [c.real(f"{n}xm{d}", typ=(-1, 1)) for d in range(D)]
            t["om"] = [c.real(f"{n}om{d}", sign="+", typ=(0.5, 3)) for d in range(D)]
            hyp += t["xm"] + [np_.log(o) for o in t["om"]]
        p = Post()
        p.hyp = np_.array(hyp)
        p.alpha = c.array(n + "al", (N, 1), typ=(-1, 1))
        p.L_chol = chol
        if chol:
            # upper-triangular factor: L' L sn2_eff = K + sn2 I
            t["L"] = [[c.real(f"{n}L{i}{j}", sign="+" if i == j else None, typ=(1, 2) if i == j else (-1, 1)) if j >= i else c.q(0) for j in range(N)] for i in range(N)]
        else:
            # minus the inverse of K + sn2 I (symmetric)
            m = [[c.real(f"{n}L{min(i, j)}{max(i, j)}", typ=(-1, 1)) if i == j else None for j in range(N)] for i in range(N)]
            for i in range(N):
                for j in range(i + 1, N):
                    m[i][j] = m[j][i] = c.real(f"{n}L{i}{j}", typ=(-0.3, 0.3))
            t["L"] = m
        p.L = np_.array(t["L"])
        t["sw"] = c.real(n + "sW", sign="+", typ=(1, 2))
        p.sW = np_.ones((N, 1)) * t["sw"]
        t["alpha"] = [p.alpha[i, 0] for i in range(N)]
        g.posteriors[s] = p
        g.truth.append(t)
    return g


def kern(c, t, a, b, v):
    """integral of the kernel between two independent Gaussians whose summed
    variances are v (v=0: the kernel itself)"""
    np_ = c.np
    D = len(a)
    den, q = c.q(1), c.q(0)
    for d in range(D):
        tau2 = v[d] + t["ell"][d] ** 2
        den = den * t["ell"][d] / np_.sqrt(tau2)
        q = q + (a[d] - b[d]) ** 2 / tau2
    return t["sf"] ** 2 * den * np_.exp(-q / 2)


def emean(c, t, m, v):
    """expected mean function under N(m, diag v)"""
    r = t["m0"]
    if t["om"] is not None:
        for d in range(len(m)):
            r = r - ((m[d] - t["xm"][d]) ** 2 + v[d]) / t["om"][d] ** 2 / 2
    return r


def solveK(c, t, b, chol):
    """(K + noise)^-1 b from the stored factor"""
    n = len(b)
    L = t["L"]
    if not chol:
        return [-sum(L[i][j] * b[j] for j in range(n)) for i in range(n)]
    A = [[sum(L[k][i] * L[k][j] for k in range(n)) / t["sw"] ** 2 for j in range(n)] for i in range(n)]
    if n == 1:
        return [b[0] / A[0][0]]
    assert n == 2
    det = A[0][0] * A[1][1] - A[0][1] * A[1][0]
    return [(A[1][1] * b[0] - A[0][1] * b[1]) / det, (A[0][0] * b[1] - A[1][0] * b[0]) / det]


def comp(v, k):
    """mean and variances of component k"""
    D = v.mu.shape[0]
    return [v.mu[d, k] for d in range(D)], [v.sigma[0, k] ** 2 * v.lambd[d, 0] ** 2 for d in range(D)]


def ref_I(c, g, v, s, k):
    t = g.truth[s]
    m, s2 = comp(v, k)
    r = emean(c, t, m, s2)
    for n in range(g.X.shape[0]):
        r = r + t["alpha"][n] * kern(c, t, m, [g.X[n, d] for d in range(v.D)], s2)
    return r


def ref_J(c, g, v, s, j, k, chol):
    t = g.truth[s]
    N = g.X.shape[0]
    mj, vj = comp(v, j)
    mk, vk = comp(v, k)
    zj = [kern(c, t, mj, [g.X[n, d] for d in range(v.D)], vj) for n in range(N)]
    zk = [kern(c, t, mk, [g.X[n, d] for d in range(v.D)], vk) for n in range(N)]
    r = kern(c, t, mj, mk, [a + b for a, b in zip(vj, vk)])
    q = solveK(c, t, zj, chol)
    for n in range(N):
        r = r - zk[n] * q[n]
    return r
