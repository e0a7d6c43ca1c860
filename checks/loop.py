"""The real optimize() loop with its numerical engines replaced by stand-ins
that return arbitrary values: active sampling, surrogate training, variational
optimisation, divergence between successive posteriors."""
import copy

import numpy as np

import pyvbmc.vbmc.vbmc as vm
from pyvbmc.variational_posterior import VariationalPosterior

from checks.vb import make_vbmc


class GP:
    def __init__(self, c, i):
        self.tag = i
        self.X = np.zeros((1, 1))
        self.y = np.zeros((1, 1))
        self.s2 = None
        self._m = c.real(f"lcb{i}", typ=(-3, 3))

    def predict(self, X, y=None, s2=None, add_noise=False):
        m = np.zeros((1, 1), dtype=object)
        m[0, 0] = self._m
        return m, np.zeros((1, 1))

    def get_hyperparameters(self, as_array=False):
        return np.zeros((1, 3))


def run_loop(c, opts, n_eval=2, state=None, max_calls=6, monotone=False):
    """Run optimize(); returns the object, the posterior and results, and the
    list of what the stand-ins produced per iteration."""
    np_ = c.np
    log = []
    v = make_vbmc(1, dict(do_final_boost=False, fun_evals_per_iter=n_eval, fun_eval_start=n_eval, **opts))
    if state:
        v.optim_state.update(state)

    def active_sample(gp, n, optim_state, fl, ih, vp, options):
        for _ in range(n):
            k = fl.func_count
            fl.fun = lambda x: c.real(f"t{k}", typ=(-4, 4))
            fl(np.array([0.01 * (k + 1)]))
        return fl, optim_state, vp, gp

    def train_gp(hyp_dict, optim_state, fl, ih, options, plb, pub):
        i = len(log)
        if i >= max_calls:
            raise RuntimeError("the loop does not stop")
        log.append(dict(gp=GP(c, i)))
        return log[-1]["gp"], 1, c.real(f"sn{i}", sign="+", typ=(0.01, 0.2)), hyp_dict

    def optimize_vp(options, optim_state, vp, gp, nf, ns, K=None):
        i = len(log) - 1
        vp = copy.deepcopy(vp)
        d = log[-1]
        d["elbo"] = c.real(f"e{i}", typ=(-1, 1))
        if monotone:
            d["elbo"] = c.real(f"de{i}", sign="+", typ=(0.01, 1)) + (log[-2]["elbo"] if i else 0)
        d["elbo_sd"] = c.real(f"s{i}", sign="+", typ=(0.001, 0.1))
        vp.stats = dict(elbo=d["elbo"], elbo_sd=d["elbo_sd"], entropy=0.0, e_log_joint=0.0, stable=False)
        vp.tag = i
        d["iter_of_gp"] = gp.tag
        return vp, 0.0, 0

    def kl_div(self, vp2=None, samples=None, N=None, gauss_flag=False):
        i = len(log) - 1
        log[-1]["kl_of"] = getattr(self, "tag", None), getattr(vp2, "tag", None)
        k = c.real(f"k{i}", sign="+" if monotone else "0+", typ=(0, 0.05))
        return np_.array([k, k])

    def moments(self, *a, **k):
        return np.zeros((1, 1)), np.eye(1)

    for o, n, f in (
        (vm, "active_sample", active_sample), (vm, "train_gp", train_gp), (vm, "optimize_vp", optimize_vp),
        (vm, "reupdate_gp", lambda fl, gp: gp),
        (VariationalPosterior, "kl_div", kl_div), (VariationalPosterior, "moments", moments),
    ):
        c.cleanup.append(lambda o=o, n=n, old=getattr(o, n): setattr(o, n, old))
        setattr(o, n, f)
    vp, res = v.optimize()
    return v, vp, res, log
