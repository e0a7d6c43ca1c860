"""C14: reported moments are the moments of the mixture."""
import numpy as np

from symex.run import Inst

from checks.vpb import make_vp, snap, unchanged

META = dict(assumptions=[
    "D <= 3 variables, K <= 3 components (thorough 4); all means, positive scales and weights; original space: 3 to 5 arbitrary draws",
])


def h_trans(D, K, cov):
    def h(c):
        v = make_vp(c, D, K)
        s = snap(v)
        out = v.moments(orig_flag=False, cov_flag=cov)
        m = out[0] if cov else out
        c.check(m.shape == (1, D), "one mean per variable")
        mean = [sum(v.w[0, k] * v.mu[d, k] for k in range(K)) for d in range(D)]
        for d in range(D):
            c.check_eq(m[0, d], mean[d], "mean of the mixture")
        if cov:
            C = out[1]
            c.check(C.shape == (D, D), "square covariance")
            for i in range(D):
                for j in range(D):
                    # E[x x'] - m m'
                    e = sum(
                        v.w[0, k] * (v.mu[i, k] * v.mu[j, k] + ((v.sigma[0, k] * v.lambd[i, 0]) ** 2 if i == j else 0))
                        for k in range(K)
                    )
                    c.check_eq(C[i, j], e - mean[i] * mean[j], "covariance of the mixture, between-component spread included")
        unchanged(c, v, s)

    return h


def h_orig(D, N, how):
    """what is done with the draws, whatever they are"""

    def h(c):
        np_ = c.np
        v = make_vp(c, D, 2)
        s = snap(v)
        draws = []

        def sample(n, orig_flag=True, balance_flag=False, df=np.inf):
            x = c.array(f"x{len(draws)}", (int(n), D), typ=(-3, 3))
            draws.append((x, orig_flag, df))
            return x, np_.zeros(int(n))

        v.sample = sample
        if how == "pos":
            m, C = v.moments(N, True, True)
        elif how == "default":
            m, C = v.moments(N=float(N), cov_flag=True)
        else:
            m, C = v.moments(N=N), None
        c.check(len(draws) == 1, "one set of draws")
        x, o, df = draws[0]
        c.check(o is True or o == 1, "draws are mapped to the original space")
        c.check(x.shape == (N, D) and not np.isfinite(df), "the requested number of draws from the mixture itself")
        c.check(m.shape == (1, D), "one mean per variable")
        mean = [sum(x[i, d] for i in range(N)) / N for d in range(D)]
        for d in range(D):
            c.check_eq(m[0, d], mean[d], "mean of the draws")
        if C is not None:
            C = C.reshape(D, D)
            for i in range(D):
                for j in range(D):
                    e = sum((x[n, i] - mean[i]) * (x[n, j] - mean[j]) for n in range(N)) / (N - 1)
                    c.check_eq(C[i, j], e, "covariance of the draws")
        del v.sample
        unchanged(c, v, s)

    return h


def h_same(D, N, K):
    """through the real sampler: identity transform, arbitrary draws"""

    def h(c):
        v = make_vp(c, D, K)
        got = []
        cls = type(v)
        real = cls.sample

        def sample(self, *a, **k):
            r = real(self, *a, **k)
            got.append(r)
            return r

        v.sample = lambda *a, **k: sample(v, *a, **k)
        m, C = v.moments(N=N, cov_flag=True)
        x, i = got[0]
        for d in range(D):
            c.check_eq(m[0, d], sum(x[n, d] for n in range(N)) / N, "mean of the draws")

    return h


def instances(tier):
    out = []
    t = 600 if tier == "quick" else 3000
    for D, K in [(1, 1), (1, 3), (2, 1), (2, 2), (3, 2), (2, 3)] + ([(3, 3), (2, 4), (4, 2)] if tier == "thorough" else []):
        for cov in (True, False):
            out.append(Inst(f"trans:{D}x{K}:{'cov' if cov else 'mean'}", h_trans(D, K, cov), f"D={D}, K={K}", time_s=t))
    for D, N, how in [(1, 3, "pos"), (2, 3, "pos"), (2, 4, "default"), (3, 2, "default"), (2, 3, "mean")] + ([(3, 5, "pos")] if tier == "thorough" else []):
        out.append(Inst(f"orig:{D}:N{N}:{how}", h_orig(D, N, how), f"D={D}, {N} draws", time_s=t))
    out.append(Inst("sampler:2:N3", h_same(2, 3, 1), "D=2, 3 draws", time_s=t))
    return out
