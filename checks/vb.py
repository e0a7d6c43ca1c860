"""Shared pieces: VBMC objects whose state is filled in by the harness."""
import numpy as np

from pyvbmc.function_logger import FunctionLogger
from pyvbmc.parameter_transformer import ParameterTransformer
from pyvbmc.vbmc import VBMC


def target(x):
    return 0.0


def make_vbmc(D, options=None, noise=False):
    """A VBMC object built by its own constructor (concrete bounds)."""
    opts = {"display": "off"}
    opts.update(options or {})
    f = (lambda x: (0.0, 1.0)) if noise else target
    if noise:
        opts["specify_target_noise"] = True
    one = np.ones((1, D))
    return VBMC(f, 0 * one, -np.inf * one, np.inf * one, -one, one, options=opts)


def record(v, key, values, start=0):
    for i, x in enumerate(values):
        v.iteration_history.record(key, x, start + i)
