"""C15: samples come from the mixture components they are attributed to."""
import numpy as np

from symex.run import Inst

from checks.c12 import Tr
from checks.vpb import make_vp, snap, unchanged

META = dict(assumptions=[
    "D <= 2 variables, K <= 3 components, N <= 5 samples; all means, scales, weights, draws and outcomes of the random generator",
    "the generator is replaced: normal and gamma draws are arbitrary (positive) reals, selections arbitrary; what is asserted about distributions is the probability vector and parameters passed to it",
    "weights in the balanced harnesses: arbitrary for K=2, N<=3; a list of exact rational vectors otherwise",
])


class InvTr(Tr):
    def inverse(self, u):
        c = self._c
        out = c.np.zeros(u.shape)
        for i in range(u.shape[0]):
            for d in range(u.shape[1]):
                out[i, d] = c.uf(f"Inv{d}", [u[i, d]])
        return out


def rows(c, v, x, idx, N, orig, df):
    """every row: mean of its component + its scales times the draw"""
    D, K = v.D, v.K
    z = [a for t, a in c.notes.get("draws", []) if t == "randn"]
    c.check(len(z) == 1 and z[0].shape == (N, D), "one standard draw per coordinate")
    z = z[0]
    t = None
    if np.isfinite(df) and df != 0:
        g = c.notes["gamma"]
        c.check(len(g) == 1 and g[0][2].size == N, "one chi-square draw per sample")
        c.check(g[0][0] == df / 2, "half the degrees of freedom")
        t = g[0]
    for n in range(N):
        k = int(idx[n])
        c.check(0 <= k < K, "attributed to an existing component")
        for d in range(D):
            u = v.mu[d, k] + v.lambd[d, 0] * v.sigma[0, k] * z[n, d] * (1 if t is None else c.np.sqrt(df * (t[1] / 2) / t[2].ravel()[n]))
            if orig:
                u = c.uf(f"Inv{d}", [u])
            c.check_eq(x[n, d], u, "component mean plus component scales times a standard draw")


def setup(c, D, K, orig, w=None):
    t = None
    if orig:
        t = InvTr(D).bind(c, np.full((1, D), -np.inf), np.full((1, D), np.inf))
    return make_vp(c, D, K, t, w=w)


def h_plain(D, K, N, orig, df=np.inf):
    def h(c):
        v = setup(c, D, K, orig)
        s = snap(v)
        c.notes["draws"], c.notes["choice"] = [], []
        kw = {} if df == np.inf else dict(df=df)
        x, i = v.sample(N, orig_flag=orig, **kw)
        c.check(x.shape == (N, D) and i.shape[0] == N and i.size == N, "exactly the requested number of samples")
        i = i.ravel()
        ch = c.notes["choice"]
        if K > 1:
            c.check(len(ch) == 1 and ch[0]["size"] == N and ch[0]["replace"], "one independent selection per sample")
            c.check(ch[0]["n"] == K, "components are selected among all")
            c.check(ch[0]["p"] is not None, "components are selected by their weights")
            c.check_eq(ch[0]["p"], v.w.ravel(), "components are selected by their weights")
        rows(c, v, x, i, N, orig, df)
        unchanged(c, v, s)

    return h


WS = {
    2: [("1/2", "1/2"), ("3/10", "7/10"), ("9/10", "1/10"), ("1/5", "4/5"), ("1/3", "2/3")],
    3: [("1/2", "1/4", "1/4"), ("1/10", "3/5", "3/10"), ("1/3", "1/3", "1/3"), ("5/8", "1/8", "1/4")],
}


def h_bal(D, K, N, wsym, orig=False, df=np.inf):
    from fractions import Fraction

    def h(c):
        np_ = c.np
        if wsym:
            w = None
        else:
            w = [c.q(Fraction(a).numerator, Fraction(a).denominator) for a in c.choose("weights", WS[K])]
        v = setup(c, D, K, orig, w)
        s = snap(v)
        c.notes["draws"], c.notes["choice"] = [], []
        kw = {} if df == np.inf else dict(df=df)
        x, i = v.sample(N, orig_flag=orig, balance_flag=True, **kw)
        c.check(x.shape == (N, D) and i.size == N, "exactly the requested number of samples")
        i = [int(a) for a in i.ravel()]
        fl = []
        for k in range(K):
            e = v.w[0, k] * N
            n = int(np_.floor(e))
            fl.append(n)
            c.check(sum(1 for a in i if a == k) >= n, "each component receives at least the integer part of its expected count")
        R = N - sum(fl)
        ch = c.notes["choice"]
        if R == 0:
            c.check(len(ch) == 0, "nothing left to chance when the expected counts are whole")
        else:
            c.check(len(ch) == 1 and ch[0]["p"] is not None and ch[0]["n"] == K and ch[0]["size"] == R and ch[0]["replace"], "the remainder is drawn among the components")
            p = ch[0]["p"]
            for k in range(K):
                c.check_eq(p[k] * R, v.w[0, k] * N - fl[k], "the remainder is drawn with the fractional parts of the expected counts")
        rows(c, v, x, i, N, orig, df)
        unchanged(c, v, s)

    return h


def h_none(c):
    v = make_vp(c, 2, 2)
    for b in (False, True):
        x, i = v.sample(0, balance_flag=b)
        c.check(x.shape == (0, 2) and i.shape[0] == 0, "no samples when none are requested")


def instances(tier):
    out = []
    t = 600 if tier == "quick" else 3000
    for D, K, N, orig in [(1, 1, 2, False), (2, 2, 2, False), (2, 2, 2, True), (1, 3, 2, True), (2, 1, 3, True), (2, 3, 3, False)] + ([(3, 3, 3, True), (2, 4, 4, False)] if tier == "thorough" else []):
        out.append(Inst(f"plain:{D}x{K}:N{N}:{'orig' if orig else 'trans'}", h_plain(D, K, N, orig), f"D={D}, K={K}, N={N}", time_s=t))
    for D, K, N, orig, df in [(2, 2, 2, False, 3), (1, 1, 2, True, 5), (2, 2, 1, False, 0), (2, 1, 2, False, 4)]:
        out.append(Inst(f"heavy:{D}x{K}:N{N}:{'orig' if orig else 'trans'}:df{df}", h_plain(D, K, N, orig, df), f"D={D}, K={K}, N={N}", time_s=t))
    for D, K, N, ws, orig, df in [(1, 2, 1, True, False, np.inf), (1, 2, 2, True, False, np.inf), (1, 2, 3, False, True, np.inf), (2, 3, 2, False, False, np.inf), (1, 3, 4, False, False, np.inf), (1, 2, 2, False, False, 3), (2, 1, 2, True, True, np.inf)] + (
        [(1, 2, 3, True, False, np.inf), (1, 2, 4, False, False, np.inf), (1, 2, 5, False, False, np.inf), (1, 3, 3, False, False, np.inf)] if tier == "thorough" else []
    ):
        out.append(Inst(f"bal:{D}x{K}:N{N}:{'wsym' if ws else 'wlist'}:{'orig' if orig else 'trans'}:df{df}", h_bal(D, K, N, ws, orig, df), f"D={D}, K={K}, N={N}", time_s=t))
    out.append(Inst("none", h_none, "N=0"))
    return out
