"""C22 Hamiltonian compilation: single-term (or subset) evolutions within the maximum step time, to the threshold."""
import numpy as np

from mc import comp, ham, hamstoq, ref, rng
from mc.choice import DEFAULT_CELLS, HarnessError, Path
from mc.comp import Bad, HALVES
from mc.hamstoq import BUILT_IN, config, limited

MID = ((0.35, 0.5), (0.65, 0.5))
ONE = ((0.9, 0.5), (0.1, 0.5))
# name, max step, time, threshold, simultaneous, steps, cells
CASES = {
    "x": ("x", 0.5, 1.0, 0.99, False, 3, DEFAULT_CELLS), "x3": ("x", 0.5, 0.9, 0.9, False, 3, HALVES),
    "g": ("g", 1.0, -1.4, None, False, 2, DEFAULT_CELLS), "xz": ("xz", 0.8, 1.0, 0.97, False, 2, HALVES),
    "xz3": ("xz", 1.1, 1.3, 0.95, False, 3, HALVES), "xzs": ("xz", 0.8, 1.0, 0.97, True, 2, HALVES),
    "yg": ("yg", 0.4, 0.7, None, True, 2, MID), "rep": ("rep", 0.5, 0.6, 0.98, False, 2, HALVES),
    "reps": ("rep", 0.5, 0.6, 0.98, True, 2, HALVES), "rep2": ("rep2", 0.3, 0.9, None, True, 2, ONE),
    "xyzs": ("xyz", 0.6, 0.8, 0.999, True, 2, HALVES), "neg": ("neg", 2.0, 1.0, 0.9, False, 2, HALVES),
    "fours": ("four", 0.5, 0.8, 0.99, True, 1, HALVES), "four": ("four", 0.5, 0.8, None, False, 2, HALVES),
    "ising": ("ising", 0.5, 0.6, 0.97, False, 2, HALVES), "isings": ("ising", 0.5, 0.6, 0.97, True, 2, HALVES),
    "two": ("two", 0.7, -0.9, 0.9, True, 2, HALVES), "three": ("three", 0.5, 0.4, 0.95, True, 2, HALVES),
    "cancel": ("cancel", 0.5, 1.0, 0.9, True, 2, MID), "big": ("big", 0.1, 0.3, 0.9, True, 2, HALVES),
    "zero": ("xz", 0.8, 0.0, None, True, 2, HALVES), "still": ("x", 0.0, 0.8, 0.9, False, 2, DEFAULT_CELLS),
    "met": ("xz", 0.8, 0.3, 0.5, False, 2, HALVES), "thr0": ("four", 0.8, 2.3, 0.0, True, 2, HALVES),
    "tmax": ("x", 7.0, 0.9, 0.9, False, 2, DEFAULT_CELLS), "five": ("five", 0.3, 0.5, 0.99, True, 1, HALVES),
    "mix2": ("mix2", 0.4, 0.9, 0.9, False, 2, MID),
    "long1": ("x", 13.0, 0.9, 0.9, False, 2, DEFAULT_CELLS), "long2": ("xz", 40.0, 0.9, 0.95, False, 2, MID), "long3": ("g", 100.0, 2.9, None, True, 2, MID),
    "long4": ("two", 26.0, 0.9, 0.95, True, 2, MID), "short": ("xz", 1e-4, 0.9, 0.9, False, 2, HALVES), "samec": ("samec", 0.7, 0.9, 0.97, False, 2, HALVES),
    "samecs": ("samec", 0.7, 0.9, 0.97, True, 2, MID), "nearc": ("nearc", 0.7, 0.9, 0.97, True, 2, HALVES), "close": ("close", 0.7, 0.9, 0.9999, True, 2, HALVES),
    "close2": ("close2", 0.7, 0.9, 0.9, False, 2, HALVES), "sixs": ("six", 0.4, 0.5, 0.99, True, 1, MID), "six": ("six", 0.4, 0.5, 0.99, False, 2, HALVES),
    "twelve": ("twelve", 0.4, 0.5, 0.99, False, 2, MID), "fourq": ("fourq", 0.4, 0.5, 0.99, False, 2, HALVES), "fourqs": ("fourq", 0.4, 0.5, 0.99, True, 1, HALVES),
    "fiveq": ("fiveq", 0.4, 0.5, 0.99, True, 1, HALVES), "chain5": ("chain5", 0.4, 0.5, 0.9, False, 1, HALVES),
    "strong": ("strong", 0.2, 0.3, 0.97, True, 2, HALVES), "strong2": ("strong2", 0.02, 0.3, 0.97, True, 2, MID),
    "eights": ("eight", 0.4, 0.5, 0.99, True, 1, MID),
}
LONG = {"xz": ("xz", 0.6, 1.4, 0.999), "four": ("four", 0.3, 0.8, 0.99), "ising": ("ising", 0.4, 0.7, 0.97), "rep": ("rep2", 0.5, 0.9, 0.995),
        "two": ("two", 0.5, 1.1, 0.95), "g": ("g", 0.2, 2.0, 0.99), "three": ("three", 0.3, 0.5, 0.98),
        "twelve": ("twelve", 0.2, 0.3, 0.9), "fourq": ("fourq", 0.3, 0.2, 0.9), "six": ("six", 20.0, 0.9, 0.9)}
BOUND = {"quick": "every outcome with its exact probability of 47 Hamiltonian compilations (1-12 terms, 1-5 qubits, step times 0-100, single and simultaneous terms, both "
                  "time signs), the built-in step limit replaced by 1-3; every execution of at most 5 choices without replacement; fixed executions "
                  "of the real limit of 10000 steps or until the threshold; 8 malformed calls",
         "thorough": "as quick with one more step where below 400000 executions; every execution of at most 9 choices (1-2 terms) without replacement"}


def tasks(tier):
    big = tier == "thorough"
    t = [("exhausted", dict(name="xz", tmax=0.6, time=1.4)), ("exhausted", dict(name="g", tmax=0.5, time=0.7))]
    for name in CASES:
        n = CASES[name]
        t.append(("law", dict(name=name, more=1 if big and len(ham.SETS[n[0]]) <= (2 if n[5] == 3 else 3) else 0)))
        if name not in ("eights", "sixs", "samecs", "twelve", "fourqs", "fiveq", "chain5"):     # too many choices per step
            t.append(("free", dict(name=name, horizon=9 if big and len(ham.SETS[n[0]]) < 3 else 5)))
    for name in LONG:
        for sim in (False, True):
            for k in range(1, 9 if big else 4):
                t.append(("long", dict(name=name, sim=sim, k=k)))
    t.append(("refused", {}))
    t.sort(key=lambda x: ["exhausted", "law", "free", "long", "refused"].index(x[0]))
    return t


def setup(name):
    s, tmax, time, thr, sim, steps, cells = CASES[name]
    cfg, terms = config(s, tmax, sim, time, thr)
    return cfg, terms, (time, tmax, thr, sim), steps, cells


def law(task, name, more):
    cfg, terms, args, steps, cells = setup(name)
    steps += more
    asked = set()

    def run():
        h = ham.lib(terms)
        with limited(steps) as lim:
            r = h.compile_stoq_sequence(*args)
        asked.update(lim.asked or [None])
        return r
    want = cfg.ref_dist(steps, cells)
    # without the replaced limit there is no bound: such a package is explored by `free` only
    if name != "thr0" and not uses_compile(terms, args):
        task.count("limit_not_replaceable")
        return
    got = comp.code_dist(cfg, run, task, cells=cells)
    task.states += len(want)
    for (labs, costs), w in got.items():
        task.outcome((name, labs, costs))
        e = judge(cfg, labs, costs, steps)
        if e:
            task.violation(e, case=dict(name=name, sequence=labs, costs=costs))
    comp.compare_dist(task, got, want, f"Hamiltonian compilation {name}")
    low = [a for a in asked if a is not None and a < BUILT_IN]
    if low:
        task.violation(f"the built-in step limit is only {low}, not {BUILT_IN}", case=dict(name=name))
    task.sample(dict(name=name, terms=terms, steps=steps, outcome=next(iter(want))), 1)


def uses_compile(terms, args):
    with limited(0) as lim:
        path = Path((), comp.mixed(3, 1), 40)
        try:
            with rng.controlled(path):
                ham.lib(terms).compile_stoq_sequence(*args)
        except BaseException as e:      # Horizon
            if type(e).__name__ != "Horizon":
                raise
    return bool(lim.asked)


def judge(cfg, labs, costs, limit):
    d = cfg.cost(labs)
    if len(costs) > limit:
        return f"{len(costs)} steps with a limit of {limit}"
    if len(costs) < limit and not cfg.met(labs):
        return f"ended after {len(costs)} steps at distance {d:.6g} from the evolution"
    if costs and not abs(costs[-1] - d) < 1e-6:
        return f"the last cost is {costs[-1]:.9g}, the sequence is at distance {d:.9g}"
    if not costs and labs:
        return "entries in no steps"
    return None


def free(task, name, horizon):
    """the real limit; executions of more than `horizon` choices are cut, the others may not be more likely than they should"""
    cfg, terms, args, steps, cells = setup(name)
    got = {}
    for path, labs, costs, _ in comp.tree(cfg, lambda: ham.lib(terms).compile_stoq_sequence(*args), task, cells=cells,
                                          horizon=horizon, max_leaves=60000):
        e = judge(cfg, labs, costs, 1 << 30)
        if e:
            task.violation(e, case=dict(name=name, choices=path.trace()))
        k = (labs, tuple(comp.rc(c) for c in costs))
        got[k] = got.get(k, 0.0) + path.weight
        task.outcome((name, "free", k))
    task.states += len(got)
    # the longest executions of few choices are removals only: their outcomes are compared as far as the reference goes
    depth = 2 if len(cfg.prims) * len(cells) > 12 else 3
    want = cfg.ref_dist(depth, cells)
    for (labs, costs), w in got.items():
        if len(costs) < depth and w > want.get((labs, costs), 0.0) + 1e-9:
            task.violation(f"probability of an outcome is at least {w:.9g}, should be {want.get((labs, costs), 0.0):.9g}",
                           case=dict(name=name, sequence=labs, costs=costs))


def long(task, name, sim, k):
    s, tmax, time, thr = LONG[name]
    cfg, terms = config(s, tmax, sim, time, thr)
    _, res = comp.long_run(None, lambda: limited_run(terms, (time, tmax, thr, sim), 300), comp.mixed(k, 3 + k % 4))
    labs, costs = comp.observe(cfg, res)
    task.traces += 1
    task.states += 1
    task.transitions += len(costs)
    task.outcome((name, sim, labs))
    e = judge(cfg, labs, costs, max(300, len(costs)))
    if e:
        task.violation(e, case=dict(name=name, sim=sim, policy=["mixed", k]))


def limited_run(terms, args, m):
    with limited(m):
        return ham.lib(terms).compile_stoq_sequence(*args)


def exhausted(task, name, tmax, time):
    """a compilation that never gets there ends at the built-in limit: nothing uncertain is accepted"""
    cfg, terms = config(name, tmax, False, time, None)
    _, res = comp.long_run(None, lambda: ham.lib(terms).compile_stoq_sequence(time, tmax, 1.0), comp.mixed(2, 1))
    labs, costs = comp.observe(cfg, res)
    task.traces += 1
    task.states += 1
    task.transitions += len(costs)
    task.case = dict(name=name, steps=len(costs))
    if len(costs) < BUILT_IN and not cfg.met(labs):
        task.violation(f"ended after {len(costs)} steps above the threshold", case=task.case)
    e = judge(cfg, labs, costs, len(costs))
    if e:
        task.violation(e, case=task.case)
    task.outcome((name, len(costs), labs))


def refused(task):
    h = ham.lib([("X", 1.0), ("Z", 0.5)])
    for args in ((1.0, -0.5, 0.9), (1.0, -1e-9, 0.9), (0.0, -0.5, 0.9, True), (1.0, float("nan"), 0.9), ("t", 0.5, 0.9), (1.0, None, 0.9),
                 (None, 0.5, 0.9), (1.0, "s", 0.9)):
        st = np.random.get_state()
        try:
            with limited(3):
                h.compile_stoq_sequence(*args)
            ok = True
        except Exception:
            ok = False
        np.random.set_state(st)
        task.traces += 1
        task.transitions += 1
        task.outcome(repr(args))
        if ok:
            task.violation("malformed arguments were accepted", case=repr(args))
    task.states += 1
