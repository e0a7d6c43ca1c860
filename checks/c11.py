"""C11: the flat encoding of variational parameters."""
import itertools

import numpy as np

from symex.run import Inst

from checks.vb import make_vbmc
from checks.vpb import make_vp, snap

META = dict(assumptions=[
    "D <= 3 variables, K <= 3 components (thorough: 4), all subsets of optimised groups, raw and transformed encodings",
    "all means, positive scales, positive weights; raw vectors unrestricted",
])


def flags(v, g):
    v.optimize_mu, v.optimize_sigma, v.optimize_lambd, v.optimize_weights = "m" in g, "s" in g, "l" in g, "w" in g


def size(D, K, g):
    return D * K * ("m" in g) + K * ("s" in g) + D * ("l" in g) + K * ("w" in g)


def mixture(c, v):
    """what the parameters mean: means, component scales, weights"""
    D, K = v.D, v.K
    return v.mu, v.sigma.reshape(1, K) * v.lambd.reshape(D, 1), v.w.reshape(1, K)


def check_norm(c, v, g):
    D, K = v.D, v.K
    c.check(v.mu.shape == (D, K) and v.sigma.shape == (1, K) and v.lambd.shape == (D, 1) and v.w.shape == (1, K), "parameter shapes")
    c.check_eq(c.np.sum(v.lambd**2), D, "length scales have unit mean square")
    for k in range(K):
        c.check(v.sigma[0, k] > 0, "component scale positive")
    for d in range(D):
        c.check(v.lambd[d, 0] > 0, "length scale positive")
    c.check_eq(c.np.sum(v.w), 1, "weights sum to one")
    for k in range(K):
        c.check(v.w[0, k] >= 0, "weights not negative")


def h_round(D, K, g, raw):
    """get, then set: same mixture; and again: same vector"""

    def h(c):
        v = make_vp(c, D, K)
        flags(v, g)
        if "w" in g:
            v.w = v.w * c.real("unnorm", sign="+", typ=(0.5, 2))
        mu, sc, w = mixture(c, v)
        mu, sc, w = mu.copy(), sc.copy(), w / c.np.sum(w)
        th = v.get_parameters(raw_flag=raw)
        c.check(th.shape == (size(D, K, g),), "vector length")

        def same(what):
            m, s, ww = mixture(c, v)
            c.check_eq(m, mu, f"means unchanged {what}")
            c.check_eq(s, sc, f"component scales unchanged {what}")
            c.check_eq(ww, w, f"weights unchanged {what}")
            check_norm(c, v, g)

        same("by reading")
        # layout: means by component, scales, length scales, weights
        i = 0
        f = c.np.exp if raw else (lambda x: x)
        if "m" in g:
            for k in range(K):
                c.check_eq(th[i : i + D], mu[:, k], "means listed component by component")
                i += D
        for on, a in (("s", v.sigma), ("l", v.lambd), ("w", v.w)):
            if on in g:
                c.check_eq(f(th[i : i + a.size]), a.ravel(), "scales, length scales and weights follow in order")
                i += a.size
        keep = th.copy()
        v._mode = "stale"
        v.set_parameters(th, raw_flag=raw)
        c.check(v._mode is None, "a cached mode is dropped")
        same("by setting what was read")
        c.check_eq(th, keep, "the caller's vector is not modified")
        c.check_eq(v.get_parameters(raw_flag=raw), keep, "reading again gives the same vector")

    return h


def h_set(D, K, g, raw):
    """any vector: the mixture it encodes, normalised"""

    def h(c):
        np_ = c.np
        v = make_vp(c, D, K)
        flags(v, g)
        mu0, sg0, lm0, w0 = v.mu.copy(), v.sigma.copy(), v.lambd.copy(), v.w.copy()
        mu = c.array("tm", (D, K), typ=(-2, 2)) if "m" in g else mu0
        kw = dict(typ=(-2, 1)) if raw else dict(sign="+", typ=(0.3, 2))
        ts = c.array("ts", (K,), **kw) if "s" in g else None
        tl = c.array("tl", (D,), **kw) if "l" in g else None
        tw = c.array("tw", (K,), **kw) if "w" in g else None
        parts = [np_.concatenate([mu[:, k] for k in range(K)])] if "m" in g else []
        parts += [x for x in (ts, tl, tw) if x is not None]
        th = np_.concatenate(parts) if parts else np_.zeros((0,))
        keep = th.copy()
        v.set_parameters(th, raw_flag=raw)
        c.check_eq(th, keep, "the caller's vector is not modified")
        check_norm(c, v, g)
        f = c.np.exp if raw else (lambda x: x)
        sg = f(ts).reshape(1, K) if ts is not None else sg0
        lm = f(tl).reshape(D, 1) if tl is not None else lm0
        m, s, w = mixture(c, v)
        c.check_eq(m, mu, "means as given")
        c.check_eq(s, sg * lm, "component scales as given, unaffected by the normalisation")
        if tw is None:
            c.check_eq(w, w0, "weights as before")
        else:
            e = f(tw)
            for k in range(K):
                # w_k / w_0 = e_k / e_0 (with the sum above this fixes all)
                if raw:
                    c.check_eq(w[0, k], w[0, 0] * c.np.exp(tw[k] - tw[0]), "weights proportional to the given ones")
                else:
                    c.check_eq(w[0, k] * e[0], w[0, 0] * e[k], "weights proportional to the given ones")
        # the object does not share memory with the vector
        th[...] = 7
        m2, s2, w2 = mixture(c, v)
        c.check_eq(m2, mu, "later changes of the vector do not reach the posterior")
        c.check_eq(s2, sg * lm, "later changes of the vector do not reach the posterior")

    return h


def h_neg(D, K, g):
    """transformed encoding: negative scales or weights are rejected, negative
    means are not"""

    def h(c):
        v = make_vp(c, D, K)
        flags(v, g)
        n = size(D, K, g)
        nm = D * K * ("m" in g)
        th = c.np.zeros((n,)) + c.q(1)
        for i in range(nm):
            th[i] = c.real(f"m{i}", typ=(-2, 2))
        bad = c.choose("bad", [None] + list(range(nm, n)))
        if bad is not None:
            th[bad] = -c.real("b", sign="+", typ=(0.1, 2))
        s = snap(v)
        try:
            v.set_parameters(th, raw_flag=False)
        except ValueError:
            c.check(bad is not None, "a vector with positive scales and weights is accepted, whatever the means")
            for k, a in s.items():
                c.check_eq(getattr(v, k), a, "posterior unchanged after rejection")
            return
        c.check(bad is None, "a negative scale or weight is rejected")

    return h


def h_bounds(D, K, g, N):
    """soft bounds: contain all training inputs seen so far, one per parameter"""

    def h(c):
        np_ = c.np
        vb = make_vbmc(1)
        tl, tw = c.real("tol_len", sign="+", typ=(1e-3, 0.5)), c.choose("tol_weight", [0.0, 0.01])
        vb.options.__setitem__("tol_length", tl, force=True)
        vb.options.__setitem__("tol_weight", tw, force=True)
        v = make_vp(c, D, K)
        flags(v, g)
        X, G = [], []
        for r in range(2):
            # smallest coordinate, then positive gaps, in some order
            x, gs = np_.zeros((N, D)), []
            for d in range(D):
                a0 = c.real(f"a{r}{d}", typ=(-2, 2))
                xs, g0 = [a0], 0
                for i in range(N - 1):
                    g0 = g0 + c.real(f"g{r}{d}{i}", sign="+", typ=(0.3, 2))
                    xs.append(a0 + g0)
                gs.append(g0)
                k = c.choose(f"ord{r}{d}", list(range(N)))
                xs = xs[k:] + xs[:k]
                for i in range(N):
                    x[i, d] = xs[i]
            keep = x.copy()
            b = v.get_bounds(x, vb.options) if r == 0 else v.get_bounds(x, vb.options, K + 1)
            c.check_eq(x, keep, "training inputs unchanged")
            X.append(x)
            G.append(gs)
        lb, ub = b["lb"], b["ub"]
        K_ = K + 1  # the number of components asked for
        i = 0

        def mx(a):
            m = a[0]
            for y in a[1:]:
                m = np_.maximum(m, y)
            return m

        allx = np_.concatenate(X)
        lo = [-mx([-allx[i, d] for i in range(2 * N)]) for d in range(D)]
        hi = [mx([allx[i, d] for i in range(2 * N)]) for d in range(D)]
        if "m" in g:
            for k in range(K_):
                for d in range(D):
                    c.check_eq(lb[i], lo[d], "lower bound of a mean: smallest training input so far")
                    c.check_eq(ub[i], hi[d], "upper bound of a mean: largest training input so far")
                    i += 1
        if "s" in g or "l" in g:
            for k in range(K_):
                for d in range(D):
                    l0, l1 = np_.log(G[0][d]), np_.log(G[1][d])
                    c.check_eq(ub[i], np_.maximum(l0, l1), "upper bound of a scale: widest range of the training inputs")
                    c.check_eq(lb[i], np_.minimum(l0, l1) + np_.log(tl), "lower bound of a scale: relative to the narrowest range")
                    i += 1
        if "w" in g:
            for k in range(K_):
                c.check_eq(ub[i], 0, "upper bound of a log weight")
                if tw == 0:
                    c.check(lb[i] == -np.inf, "no lower bound of a log weight")
                else:
                    c.check_eq(lb[i], np.log(0.5 * tw), "lower bound of a log weight")
                i += 1
        c.check(lb.shape == (i,) and ub.shape == (i,), "one pair of bounds per parameter")

    return h


def instances(tier):
    out = []
    groups = ["".join(x) for r in range(5) for x in itertools.combinations("mslw", r)]
    sizes = [(2, 2), (1, 3)] if tier == "quick" else [(2, 2), (1, 3), (3, 2), (2, 4), (1, 1), (3, 1)]
    for D, K in sizes:
        for g in groups:
            if not g:
                continue
            for raw in (True, False):
                t = 500 if tier == "quick" else 2000
                out.append(Inst(f"round:{D}x{K}:{g}:{'raw' if raw else 'pos'}", h_round(D, K, g, raw), f"D={D}, K={K}", time_s=t))
                out.append(Inst(f"set:{D}x{K}:{g}:{'raw' if raw else 'pos'}", h_set(D, K, g, raw), f"D={D}, K={K}", time_s=t))
            out.append(Inst(f"neg:{D}x{K}:{g}", h_neg(D, K, g), f"D={D}, K={K}", time_s=300))
    out.append(Inst("round:3x2:mslw:raw", h_round(3, 2, "mslw", True), "D=3, K=2", time_s=500)) if tier == "quick" else None
    out.append(Inst("neg:3x5:mslw", h_neg(3, 5, "mslw"), "D=3, K=5", time_s=300))
    for g in ("mslw", "ms", "mlw", "w", "s"):
        out.append(Inst(f"bounds:1x2:{g}", h_bounds(1, 2, g, 2), "two updates of two points", time_s=500))
    if tier == "thorough":
        out.append(Inst("bounds:2x2:mslw", h_bounds(2, 2, "mslw", 2), "two updates of two points", time_s=3000))
        out.append(Inst("bounds:1x2:N3", h_bounds(1, 2, "mslw", 3), "two updates of three points", time_s=3000))
    return out
