"""C30: timers report accumulated elapsed time, name by name."""
import sys
import types

import pyvbmc.timer.timer as TM

from symex.run import Inst

META = dict(assumptions=[
    "the clock is an arbitrary non-decreasing function (every reading is a fresh real number not below the previous one)",
    "histories of at most 6 (thorough 7) calls over two timers; every order of calls is explored",
])

OPS = ["start a", "start b", "stop a", "stop b", "get a", "reset"]


class Clock:
    """whatever clock function the module reads"""

    def __init__(self, c):
        self.c, self.t, self.n, self.seen = c, None, 0, []

    def read(self):
        r = self.c.real(f"clock{self.n}", lo=0, typ=(0.9 * self.n, 0.9 * self.n + 0.8))
        if self.t is not None:
            self.c.assume(self.t <= r)
        self.n += 1
        self.t = r
        self.seen.append(r)
        return r


def clocked(c):
    k = Clock(c)
    fake = types.SimpleNamespace(
        time=k.read, perf_counter=k.read, monotonic=k.read, process_time=k.read, thread_time=k.read,
        sleep=lambda s: None,
    )
    for name, val in list(vars(TM).items()):
        new = None
        if isinstance(val, types.ModuleType) and val.__name__ == "time":
            new = fake
        elif callable(val) and getattr(val, "__module__", None) == "time":
            new = k.read
        if new is not None:
            setattr(TM, name, new)
            c.cleanup.append(lambda name=name, val=val: setattr(TM, name, val))
    return k


def h_history(n, first):
    def h(c):
        k = clocked(c)
        t, other = TM.Timer(), TM.Timer()
        total, running = {}, {}
        for i in range(n):
            op = first[i] if i < len(first) else c.choose(f"op{i}", OPS)
            w = op.split()
            k.seen = []
            if w[0] == "start":
                t.start_timer(w[1])
                if w[1] not in running:
                    c.check(len(k.seen) > 0, "starting a timer reads the clock")
                    running[w[1]] = k.seen[0], k.seen[-1]
            elif w[0] == "stop":
                t.stop_timer(w[1])
                if w[1] in running:
                    c.check(len(k.seen) > 0, "stopping a timer reads the clock")
                    a, b = running.pop(w[1])
                    lo, hi = total.get(w[1], (0, 0))
                    total[w[1]] = lo + (k.seen[0] - b), hi + (k.seen[-1] - a)
            elif w[0] == "reset":
                t.reset()
                total, running = {}, {}
            else:
                compare(c, t, total, w[1])
        for name in ("b", "a", "never started"):
            compare(c, t, total, name)
        c.check(other.get_duration("a") is None, "another timer object is unaffected")

    return h


def compare(c, t, total, name):
    d = t.get_duration(name)
    if name not in total:
        c.check(d is None, f"{name}: no duration reported")
        return
    c.check(d is not None, f"{name}: duration reported")
    # one reading per call: the two bounds coincide
    msg = f"{name}: sum of the elapsed times between its starts and stops"
    lo, hi = total[name]
    if c.mode == "sym":
        c.check(lo <= d, msg)
        c.check(d <= hi, msg)
    else:
        c.check(lo - 1e-9 <= d <= hi + 1e-9, msg)
    c.check(d >= 0, f"{name}: non-negative")


def instances(tier):
    n = 7 if tier == "thorough" else 6
    return [
        Inst(f"history:{a}:{b}", h_history(n, [a, b]), f"{n} calls, the first two given", validate=2)
        for a in OPS for b in OPS if not (a == "get a")
    ]
