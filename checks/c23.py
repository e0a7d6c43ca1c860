"""C23: stochastic optimisation respects bounds and leaves its inputs alone."""
import sys

import numpy as np

from pyvbmc.vbmc.minimize_adam import minimize_adam

from symex.run import Inst

META = dict(assumptions=[
    "D <= 2 variables; up to 3 iterations (thorough 4) with arbitrary objective values and gradients at every evaluation; runs of 43-61 iterations (thorough 82) with two arbitrary objective values in every stretch of 20, the others given, and a zero gradient for the stopping rule",
    "reals instead of floats; the exponential step-size schedule is exact",
])


class Objective:
    """arbitrary values and gradients; remembers where it was evaluated"""

    def __init__(self, c, D, grad=None, free=None):
        self.c, self.D, self.grad, self.free = c, D, grad, free
        self.x, self.y, self.g = [], [], []

    def __call__(self, x):
        c, i = self.c, len(self.x)
        self.x.append(x.copy())
        if self.free is None or i in self.free:
            y = c.real(f"y{i}", typ=(-2, 2)) if self.free is None else c.real(f"y{i}", lo=-4, hi=4)
        else:
            y = c.q((7 * i) % 5 - 2, 8)
        if self.grad == "zero":
            g = c.np.zeros(self.D)
        elif self.grad == "given":
            g = c.const(np.array([[1.0, -2.0], [0.5, 1.0], [-3.0, 0.25], [1.0, 1.0]])[i % 4, : self.D])
        else:
            g = c.array(f"g{i}", (self.D,), typ=(-2, 2))
        self.y.append(y)
        self.g.append(g.copy())
        return y, g


def h_run(D, n, lb, ub, x0_ints=False, grad=None):
    def h(c):
        np_ = c.np
        x0 = c.array("x0", (D,), typ=(-1, 1))
        L = c.array("lb", (D,), typ=(-1.2, -0.9)) if lb else None
        U = c.array("ub", (D,), typ=(0.9, 1.2)) if ub else None
        for d in range(D):
            if lb:
                c.assume(L[d] <= x0[d])
            if ub:
                c.assume(x0[d] <= U[d])
            if lb and ub:
                c.assume(L[d] < U[d])
        f = Objective(c, D, grad)
        s = [v if v is None else v.copy() for v in (x0, L, U)]
        args = dict(max_iter=n, master_min=c.real("smin", sign="+", typ=(0.01, 0.05)))
        args["master_max"] = args["master_min"] + c.real("sw", sign="0+", typ=(0, 0.05))
        x, y, xt, yt, it = minimize_adam(f, x0, L, U, **args)
        for v, w, nm in ((x0, s[0], "starting point"), (L, s[1], "lower bounds"), (U, s[2], "upper bounds")):
            if v is not None:
                c.check_eq(v, w, f"the caller's {nm} unchanged")
        c.check(len(f.x) <= n, "no more evaluations than allowed")
        c.check(it == len(f.x), "number of iterations")
        c.check(it == n, "short runs use all iterations")
        c.check(xt.shape == (D, it) and yt.shape == (it,), "one record per iteration")
        c.check_eq(f.x[0], s[0], "starts at the starting point")
        for i in range(it):
            c.check_eq(yt[i], f.y[i], "recorded values are the objective's")
            if i + 1 < it:
                c.check_eq(xt[:, i], f.x[i + 1], "recorded points are the ones evaluated next")
        for d in range(D):
            for p in f.x + [xt[:, it - 1], x]:
                if lb:
                    c.check(L[d] <= p[d], "not below the lower bound")
                if ub:
                    c.check(p[d] <= U[d], "not above the upper bound")
        c.check_eq(x, np_.mean(xt, axis=1), "the returned point is the mean of the last iterates")
        c.check_eq(y, np_.mean(yt), "the returned value is the mean of the last values")

    return h


def h_step(c):
    """The first steps are ADAM's."""
    np_ = c.np
    D = 1
    x0 = c.array("x0", (D,), typ=(-1, 1))
    s0 = x0.copy()
    f = Objective(c, D)
    step = c.real("step", sign="+", typ=(0.01, 0.05))
    x, y, xt, yt, it = minimize_adam(f, x0, max_iter=2, master_min=step, master_max=step)
    m, v = 0, 0
    eps = np.sqrt(np.spacing(1))
    prev = s0[0]
    for i in range(2):
        g = f.g[i][0]
        m = 0.9 * m + (1 - 0.9) * g
        v = 0.999 * v + (1 - 0.999) * g**2
        mh, vh = m / (1 - 0.9 ** (i + 1)), v / (1 - 0.999 ** (i + 1))
        c.check_eq((xt[0, i] - prev) * (np_.sqrt(vh) + eps), -step * mh, "ADAM step", tol=1e-6)
        prev = xt[0, i]


def h_integer(c):
    """A starting point given as whole numbers."""
    x0 = c.array("x0", (2,), lo=-3, hi=3, ld="i")
    s = x0.copy()
    f = Objective(c, 2, "given")
    x, y, xt, yt, it = minimize_adam(f, x0, max_iter=2)
    c.check_eq(x0, s, "the caller's starting point unchanged")
    c.check(it == 2, "runs")


def h_stop(n, free, early=True):
    """The stopping rule: with a point that does not move, a run stops at the
    first end of a minibatch where the trend of the last 20 values is flat
    within its error."""

    def h(c):
        x0 = c.array("x0", (1,), typ=(-1, 1))
        f = Objective(c, 1, "zero", free)
        tol = c.real("tol", 0.0001, 0.01)
        x, y, xt, yt, it = minimize_adam(f, x0.copy(), tol_fun=tol, max_iter=n, use_early_stopping=early)
        c.check(len(f.x) == it, "number of iterations")
        c.check(it <= n, "evaluations within the maximum")
        c.check(it == n or (it >= 40 and it % 20 == 0), "stops only at the end of a minibatch")
        for e in range(40, it + 1, 20):
            if not early:
                break
            w = f.y[e - 20: e]
            t = [i - c.q(19, 2) for i in range(20)]
            tt = sum((a * a for a in t[1:]), t[0] * t[0])
            mean = sum(w[1:], w[0]) / 20
            slope = sum((a * b for a, b in zip(t[1:], w[1:])), t[0] * w[0]) / tt
            res = [b - mean - slope * a for a, b in zip(t, w)]
            var = sum((r * r for r in res[1:]), res[0] * res[0]) / 18 / tt
            gap = slope**2 - var - (100 * tol) ** 2
            if e < it:
                c.check(gap >= -1e-9, "goes on only while the values still trend")
            elif it < n:
                c.check(gap <= 1e-9, "stops only when the values have flattened")
        ys = f.y[it - 20: it]
        c.check_eq(y, sum(ys[1:], ys[0]) / 20, "the returned value is the mean of the last 20 values")
        c.check_eq(x, x0, "a zero gradient leaves the point where it is")

    return h


def instances(tier):
    T = tier == "thorough"
    out = []
    for D, n, lb, ub in ((1, 2, True, True), (1, 3, True, False), (1, 3, False, True), (1, 3, False, False), (2, 1, True, True), (2, 2, False, False)):
        out.append(Inst(f"run:{D}:{n}:{int(lb)}{int(ub)}", h_run(D, n, lb, ub), f"D={D}, {n} iterations, arbitrary gradients"))
    out.append(Inst("run:given", h_run(2, 3, True, True, grad="given"), "D=2, 3 iterations, given gradients"))
    if T:
        out.append(Inst("run:1:3:11", h_run(1, 3, True, True), "D=1, 3 iterations"))
        out.append(Inst("run:2:2:11", h_run(2, 2, True, True), "D=2, 2 iterations"))
        out.append(Inst("run:1:4:10", h_run(1, 4, True, False), "D=1, 4 iterations"))
    out.append(Inst("step", h_step, "two steps"))
    out.append(Inst("integer", h_integer, "D=2, whole-number starting point"))
    out.append(Inst("stop:61", h_stop(61, {23, 36, 45, 59}), "61 iterations, zero gradient"))
    out.append(Inst("stop:off", h_stop(43, {2, 30, 41}, False), "43 iterations, no early stopping"))
    if T:
        out.append(Inst("stop:82", h_stop(82, {21, 39, 58, 66}), "82 iterations, zero gradient"))
    return out
