"""Shared piece: a posterior mixture with arbitrary parameters."""
import numpy as np

from pyvbmc.parameter_transformer import ParameterTransformer
from pyvbmc.variational_posterior import VariationalPosterior


def weights(c, K, name="w"):
    """positive weights summing to one: a_k / sum a"""
    if K == 1:
        return [c.q(1)]
    a = [c.real(f"{name}{k}", sign="+", typ=(0.2, 2)) for k in range(K - 1)] + [c.q(1)]
    s = sum(a)
    return [x / s for x in a]


def make_vp(c, D, K, trans=None, norm=False, w=None, lam=True, name=""):
    """VariationalPosterior with symbolic mu, sigma, lambd (norm: constrained
    to unit mean square) and w."""
    np_ = c.np
    np.random.seed(0)
    v = VariationalPosterior(D, K, None, trans)
    v.mu = c.array(name + "mu", (D, K), typ=(-1.5, 1.5))
    v.sigma = c.array(name + "sg", (1, K), sign="+", typ=(0.4, 1.5))
    if lam is None:
        v.lambd = np_.ones((D, 1)) * c.q(1)
    else:
        v.lambd = c.array(name + "lm", (D, 1), sign="+", typ=(0.5, 1.5))
        if norm:
            # unit mean square: scaled by an explicit root
            v.lambd = v.lambd / np_.sqrt(np_.sum(v.lambd**2) / D)
    w = weights(c, K, name + "w") if w is None else w
    v.w = np_.array([w])
    v.eta = np_.array([[c.real(f"{name}eta{k}", typ=(-1, 1)) for k in range(K)]])
    return v


def snap(v):
    return {k: getattr(v, k).copy() for k in ("w", "mu", "sigma", "lambd", "eta")}


def unchanged(c, v, s, what="posterior"):
    for k, a in s.items():
        c.check_eq(getattr(v, k), a, f"{what} unchanged ({k})")
