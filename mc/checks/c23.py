"""C23 Hamiltonian RAV: random steps until the asked time is used up, then a compiled inverse."""
import math

import numpy as np

from mc import comp, ham, hamstoq, rav, ref, rng
from mc.choice import DEFAULT_CELLS, HarnessError, Path
from mc.comp import Bad, HALVES
from mc.hamstoq import BUILT_IN, config, limited

A = ((0.3, 0.5), (0.7, 0.5))
Q = ((0.25, 0.5), (0.75, 0.5))       # exact sums: the time is met with equality
HALF = ((0.5, 1.0),)
LOWHIGH = ((0.1, 0.5), (0.9, 0.5))
# name: (terms, max step, time, simultaneous, cells) - the prefix alone (threshold 0)
PREFIX = {
    "x": ("x", 1.0, 1.4, False, DEFAULT_CELLS[1:3]), "xz": ("xz", 1.0, 0.8, False, A), "xz2": ("xz", 0.5, 0.5, False, Q), "eq": ("g", 1.0, 1.0, False, Q),
    "eq2": ("yg", 1.0, 1.5, False, HALF), "eq3": ("xz", 0.25, 0.5, True, HALF), "xzs": ("xz", 1.0, 0.8, True, A), "rep": ("rep", 1.0, 0.8, False, A),
    "reps": ("rep2", 1.0, 0.5, True, A), "xyz": ("xyz", 0.7, 0.5, False, A), "xyzs": ("xyz", 0.7, 0.4, True, A), "neg": ("neg", 2.0, 1.9, False, A),
    "ising": ("ising", 0.5, 0.3, True, A), "two": ("two", 0.5, 0.5, True, A), "three": ("three", 1.0, 0.9, True, A), "long": ("g", 1.0, 2.0, False, A),
    "low": ("x", 1.0, 0.5, False, LOWHIGH), "zero": ("xz", 1.0, 0.0, False, A), "before": ("xz", 1.0, -2.0, True, A), "still": ("xz", 0.0, 0.0, False, A),
    "tiny": ("xz", 1.0, 1e-9, False, A), "fours": ("four", 1.0, 0.6, True, HALF), "five": ("five", 0.9, 0.6, False, A), "big": ("big", 0.1, 0.1, True, A),
    "strong": ("strong", 0.2, 0.2, True, A), "bigstep": ("xz", 50.0, 3.0, False, A),
}
# name: (terms, max step, time, simultaneous, cells, threshold, steps)
WHOLE = {
    "x": ("x", 1.0, 0.7, False, A, 0.9, 2), "x1": ("x", 1.0, 1.4, False, HALF, None, 2), "xz": ("xz", 1.0, 0.6, False, A, 0.95, 1),
    "xz2": ("xz", 0.6, 0.2, False, A, 0.9, 2), "g": ("g", 1.0, 0.5, False, A, 0.97, 2), "xzs": ("xz", 1.0, 0.25, True, A, 0.97, 1),
    "rep": ("rep", 1.0, 0.5, True, A, 0.98, 1), "ising": ("ising", 0.6, 0.15, True, A, 0.95, 1), "two": ("two", 0.5, 0.3, False, A, None, 1),
    "three": ("three", 0.5, 0.2, False, A, 0.9, 1), "zero": ("xz", 0.5, 0.0, False, A, 0.999, 2), "before": ("g", 0.5, -1.0, False, A, None, 2),
    "met": ("xz", 0.3, 0.3, False, A, 0.5, 2), "yg": ("yg", 0.9, 0.15, False, LOWHIGH, 0.9, 1), "thr1": ("g", 1.0, 0.5, False, A, 1.0, 2),
}
LONG = {"xz": ("xz", 0.5, 10.0, 0.99), "four": ("four", 0.3, 5.0, 0.98), "ising": ("ising", 0.4, 6.0, 0.95), "three": ("three", 0.2, 2.0, 0.9),
        "g": ("g", 0.1, 8.0, 0.999), "rep": ("rep2", 0.05, 3.0, None), "two": ("two", 1.5, 12.0, 0.97)}
BOUND = {"quick": "every prefix with its exact probability for 26 argument combinations (up to 7 steps, two step lengths), every whole outcome for 15 "
                  "(inverse compilation limited to 1-2 steps from outside); fixed executions with prefixes up to about 160 steps and one of the real "
                  "limit; 9 malformed calls",
         "thorough": "as quick, times 1.5 times as long, one more step where below 400000 executions; 8 fixed executions each"}


def tasks(tier):
    big = tier == "thorough"
    t = [("exhausted", {})]
    t += [("whole", dict(name=n, more=1 if big and WHOLE[n][0] in ("x", "g") else 0)) for n in WHOLE]
    for n in PREFIX:
        t.append(("prefix", dict(name=n, scale=1)))
        if big and n not in ("eq3", "xyzs", "ising", "fours", "big", "two", "five"):
            t.append(("prefix", dict(name=n, scale=1.5)))
    for n in LONG:
        for sim in (False, True):
            for k in range(1, 9 if big else 4):
                t.append(("long", dict(name=n, sim=sim, k=k)))
    t.append(("refused", {}))
    t.sort(key=lambda x: 0 if x[0] == "exhausted" or x[1].get("name") in ("long", "three", "two", "big", "rep") else 1)
    return t


def prefixes(cfg, tmax, time, cells):
    """{labels: probability} of the random steps"""
    live, done = {(): (1.0, 0.0)}, {}
    while live:
        nxt = {}
        for labs, (w, used) in live.items():
            if not used < time:
                done[labs] = done.get(labs, 0.0) + w
                continue
            for u, wu in cells:
                for sign, ws in ((1, 0.8), (-1, 0.2)):
                    for i, p in enumerate(cfg.probs):
                        t = tmax * u * sign
                        k = labs + ((i, (round(t, 9) + 0.0,), tuple(range(cfg.n))),)
                        nxt[k] = (nxt.get(k, (0.0, 0))[0] + w * wu * ws * p, used + abs(t))
        live = nxt
    return done


def prefix(task, name, scale):
    """a zero threshold is met at once: the result is the prefix alone"""
    s, tmax, time, sim, cells = PREFIX[name]
    time = time * scale if scale > 1 and name not in ("eq", "eq2") else time
    cfg, terms = config(s, tmax, sim, None, 0.0)
    want = {(k, ()): w for k, w in prefixes(cfg, tmax, time, cells).items()}
    got = comp.code_dist(cfg, lambda: ham.lib(terms).compile_rav_sequence(time, tmax, 0.0, sim), task, cells=cells)
    task.states += len(want)
    for k in got:
        task.outcome((name, scale, k))
    comp.compare_dist(task, got, want, f"random steps of Hamiltonian RAV {name}")
    task.extra["max_prefix"] = max(len(k[0]) for k in want)
    task.sample(dict(name=name, outcome=next(iter(want))), 1)


def judge(cfg, labs, costs, time, steps):
    """a whole result"""
    used, n = 0.0, 0
    while used < time - 1e-9:
        if n >= len(labs):
            return f"all steps together last {used:.6g}, {time} was asked for"
        used += abs(labs[n][1][0])
        n += 1
    thr = 1.0 if cfg.threshold is None else cfg.threshold
    whole = ref.distance(np.eye(cfg.dim), cfg.prod(labs))
    if len(costs) < steps and not whole <= 1 - thr + 1e-7:
        return f"ended after {len(costs)} steps at distance {whole:.6g} from the identity, threshold {thr}"
    if costs and not abs(costs[-1] - whole) < 1e-6:
        return f"the last cost is {costs[-1]:.9g}, the whole is at distance {whole:.9g} from the identity"
    if not costs and len(labs) > n:
        return "more random steps than needed"
    return None


def whole(task, name, more):
    s, tmax, time, sim, cells, thr, steps = WHOLE[name]
    steps += more
    cfg, terms = config(s, tmax, sim, None, thr)
    want = rav.whole_dist(cfg, prefixes(cfg, tmax, time, cells), steps, cells)
    asked = set()

    def run():
        h = ham.lib(terms)
        with limited(steps) as lim:
            r = h.compile_rav_sequence(time, tmax, thr, sim)
        asked.update(lim.asked)
        return r
    with limited(0) as lim:
        path = Path((), comp.mixed(3, 1), 60)
        try:
            with rng.controlled(path):
                ham.lib(terms).compile_rav_sequence(time, tmax, 0.999, sim)
        except BaseException as e:
            if type(e).__name__ != "Horizon":
                raise
    if not lim.asked:
        task.count("limit_not_replaceable")
        return
    got = {}
    for path, labs, costs, _ in comp.tree(cfg, run, task, cells=cells):
        e = judge(cfg, labs, costs, time, steps)
        if e:
            task.violation(e, case=dict(name=name, choices=path.trace(), sequence=labs, costs=costs))
        k = (labs, tuple(comp.rc(c) for c in costs))
        got[k] = got.get(k, 0.0) + path.weight
        task.outcome((name, k))
    task.states += len(want)
    comp.compare_dist(task, got, want, f"Hamiltonian RAV {name}")
    low = [a for a in asked if a < BUILT_IN]
    if low:
        task.violation(f"the built-in step limit is only {low}, not {BUILT_IN}", case=dict(name=name))


def long(task, name, sim, k):
    s, tmax, time, thr = LONG[name]
    cfg, terms = config(s, tmax, sim, None, thr)

    def run():
        with limited(60):
            return ham.lib(terms).compile_rav_sequence(time, tmax, thr, sim)
    _, res = comp.long_run(None, run, comp.mixed(k, 3 + k % 4))
    labs, costs = comp.observe(cfg, res)
    task.traces += 1
    task.states += 1
    task.transitions += len(costs) + len(labs)
    task.extra["max_long_prefix"] = len(labs)
    task.outcome((name, sim, labs))
    e = judge(cfg, labs, costs, time, min(60, len(costs)))
    if e:
        task.violation(e, case=dict(name=name, sim=sim, policy=["mixed", k]))


def exhausted(task):
    cfg, terms = config("xz", 0.6, False, None, None)
    _, res = comp.long_run(None, lambda: ham.lib(terms).compile_rav_sequence(1.0, 0.6, None), comp.mixed(2, 1))
    labs, costs = comp.observe(cfg, res)
    task.traces += 1
    task.states += 1
    task.transitions += len(costs)
    task.case = dict(steps=len(costs))
    e = judge(cfg, labs, costs, 1.0, BUILT_IN)
    if e:
        task.violation(e, case=task.case)
    task.outcome((len(costs), labs))


def refused(task):
    """a positive time without a positive step time never ends unless it is refused"""
    h = ham.lib([("X", 1.0), ("Z", 0.5)])
    for args in ((1.0, 0.0, 0.9), (1e-9, 0.0, 0.9), (1.0, -0.5, 0.9), (0.0, -0.5, 0.9), (1.0, 0, 0.0, True), (1.0, float("nan"), 0.9),
                 ("t", 0.5, 0.9), (1.0, None, 0.9), (None, 0.5, 0.9)):
        st = np.random.get_state()
        try:
            with comp_alarm():
                with limited(3):
                    h.compile_rav_sequence(*args)
            ok = "were accepted"
        except Slow:
            ok = "make the call run without end"
        except Exception:
            ok = None
        np.random.set_state(st)
        task.traces += 1
        task.transitions += 1
        task.outcome(repr(args))
        if ok:
            task.violation("malformed arguments " + ok, case=repr(args))
    task.states += 1


class Slow(BaseException):
    pass


def comp_alarm():
    from mc.choice import alarm
    return alarm(20, Slow)
