"""C17 randomized analog verification sequences."""
import numpy as np

from mc import comp, rav, rng
from mc.choice import DEFAULT_CELLS, HarnessError
from mc.comp import Config, HALVES
from stoqcompiler.unitary import Unitary, UnitaryPrimitive
from stoqcompiler.verification import Verification

RX, G, H, CX = ("rx", 0.9), ("gen", 2, 1), ("h",), ("cnot",)
TE = ("p", "te", 1, 2, -1.0, 2.5)
# cfg, length, threshold, step limit
CASES = {
    "base": (dict(n=1, prims=[(RX, None), (G, None)]), 1, None, 2),
    "base2": (dict(n=1, prims=[(RX, None), (G, None)]), 2, 0.97, 1),
    "base3": (dict(n=1, prims=[(RX, None), (G, None)]), 3, 0.9, 1),
    "empty": (dict(n=1, prims=[(RX, None)]), 0, 0.99, 3),
    "len0": (dict(n=2, prims=[(CX, None)]), 0, None, 5),
    "skip_t": (dict(n=1, prims=[(RX, None), (G, None)]), 3, 0.0, 5),
    "skip_t2": (dict(n=1, prims=[(RX, None), (G, None)]), 2, 0, 5),
    "skip_s": (dict(n=1, prims=[(RX, None), (G, None)]), 3, 0.9, 0),
    "skip_n": (dict(n=1, prims=[(RX, None), (G, None)]), 2, None, 0),
    "self": (dict(n=1, prims=[(H, None), (RX, None)]), 1, 1.0, 3),
    "self2": (dict(n=2, prims=[(CX, [(0, 1)]), (H, [(1,)])]), 2, None, 3),
    "app9": (dict(n=1, prims=[(RX, None), (G, None)], append=0.9), 1, None, 2),
    "app0": (dict(n=1, prims=[(RX, None), (G, None)], append=0.0), 2, None, 4),
    "probs": (dict(n=1, prims=[(RX, None), (G, None), (H, None)], probs=[0.7, 0.0, 0.3]), 2, None, 1),
    "probs2": (dict(n=1, prims=[(RX, None), (G, None)], probs=[0.1, 0.9], append=0.3), 1, 0.8, 2),
    "twoq": (dict(n=2, prims=[(CX, None), (G, [(1,)])]), 2, None, 1),
    "ordered": (dict(n=3, prims=[(("gen", 4, 1), [(2, 0)]), (G, None)]), 1, 0.9, 1),
    "arr": (dict(n=2, prims=[(CX, None), (G, [(1,)])], array=True, probs=[0.5, 0.5]), 2, 0.95, 1),
    "param": (dict(n=1, prims=[(TE, None), (RX, None)]), 1, 0.9, 1),
    "fourq": (dict(n=4, prims=[(("gen", 4, 1), [(3, 0), (1, 2)]), (("gen", 8, 1), [(3, 0, 2)])]), 2, 0.9, 1),
    "fiveq": (dict(n=5, prims=[(("gen", 16, 1), [(3, 0, 4, 1)]), (G, [(2,)])], probs=[0.25, 0.75]), 2, None, 1),
    "prims12": (dict(n=1, prims=[(("rx", 0.1 * k + 0.1), None) for k in range(12)], probs=[0.0, 0.1, 0.05] * 3 + [0.3, 0.2, 0.05]), 1, 0.9, 1),
    "half": (dict(n=1, prims=[(RX, None), (G, None)]), 2, 0.5, 2),
    "default": (dict(n=1, prims=[(H, None)]), 2, 0.999, None),
}
LONG = {
    "l1": (dict(n=1, prims=[(RX, None), (G, None)]), 40, 0.999, 60),
    "l2": (dict(n=2, prims=[(CX, None), (G, None), (TE, None)]), 25, None, 50),
    "l3": (dict(n=1, prims=[(TE, None), (RX, None)], append=0.7), 12, 0.9, 80),
    "l4": (dict(n=3, prims=[(CX, None), (G, None)], probs=[0.3, 0.7]), 15, 0.95, 30),
    "l5": (dict(n=1, prims=[(RX, None), (G, None)]), 101, 0.5, 40),
    "l6": (dict(n=2, prims=[(CX, None), (G, None)]), 64, 0.0, 40),
    "l7": (dict(n=4, prims=[(CX, None), (("gen", 8, 1), [(3, 1, 0)]), (TE, [(2,)])]), 20, 0.95, 20),
    "l8": (dict(n=5, prims=[(("gen", 4, 1), [(4, 0), (1, 3)]), (G, [(2,)])], append=0.8), 30, 0.9, 20),
    "dflt": (dict(n=1, prims=[(RX, None), (G, None)]), 5, None, None),
}
BOUND = {"quick": "every outcome with its exact probability for 24 argument combinations (prefix 0-3, limit 0-5 steps); fixed executions with "
                  "prefixes up to 101 and 80 steps, and one with the default limit of 10000; 24 malformed argument lists",
         "thorough": "as quick with one more step where below 400000 executions; 8 fixed executions each with prefixes up to 101, 400 steps"}


def tasks(tier):
    big = tier == "thorough"
    t = []
    for name, (d, ln, thr, lim) in CASES.items():
        t.append(("law", dict(name=name, more=1 if lim and (big or name in ("base", "app9", "half", "probs2", "app0", "empty"))
                               and name not in ("base3", "twoq", "arr", "param") else 0)))
    for name in LONG:
        for pol in (["mixed", 2, 4], ["mixed", 4, 5]) + ((["mixed", 1, 4], ["mixed", 5, 6], ["mixed", 6, 3], ["pattern", 1, 0]) if big else ()):
            if name != "dflt":
                t.append(("long", dict(name=name, policy=pol, scale=5 if big else 1)))
    t.insert(0, ("long", dict(name="dflt", policy=["mixed", 2, 1], scale=1)))
    for name, ln in (("two", 6), ("two", 9), ("three", 6), ("cx", 9), ("probs", 8)) + ((("two", 12), ("three", 8), ("probs", 11)) if big else ()):
        t.append(("prefix", dict(name=name, length=ln, exact=True)))
    for name in PREFIX:
        for ln in ((20, 45) if name not in ("fourq", "par") else (15,)) + ((100, 150) if big and name not in ("fourq", "par") else ()):
            t.append(("prefix", dict(name=name, length=ln, exact=False)))
    t.append(("refused", {}))
    return t


def call(cfg, length, threshold, limit):
    kw = {}
    if cfg.append != 0.5:
        kw["stoq_append_probability"] = cfg.append
    if cfg.probs is not None:
        kw["unitary_primitive_probabilities"] = list(cfg.probs)
    if limit is not None:
        kw["max_step_count"] = limit
    return Verification.generate_rav_sequence(cfg.dim, cfg.lib_prims(), length, threshold, **kw)


def law(task, name, more):
    d, length, thr, lim = CASES[name]
    cells = HALVES if name == "param" else DEFAULT_CELLS
    cfg = Config(threshold=thr, **d)
    if lim is None:       # two H gates: the identity already, whatever the limit
        cfg_lim, want_lim = None, 5
    else:
        cfg_lim = want_lim = lim + (more if lim else 0)
    skip = thr == 0.0 and thr is not None or want_lim == 0
    want = rav.whole_dist(cfg, rav.prefix_dist(cfg, length, cells), want_lim, cells, skip)
    got = {}
    for path, labs, costs, _ in comp.tree(cfg, lambda: call(cfg, length, thr, cfg_lim), task, cells=cells):
        e = rav.judge(cfg, labs, costs, length, want_lim, skip)
        if e:
            task.violation(e, case=dict(name=name, choices=path.trace(), sequence=labs, costs=costs))
        k = (labs, tuple(comp.rc(c) for c in costs))
        got[k] = got.get(k, 0.0) + path.weight
        task.outcome((name, k))
    task.states += len(want)
    comp.compare_dist(task, got, want, f"RAV {name}")
    task.sample(dict(name=name, prefix=length, outcome=next(iter(want))), 1)


def long(task, name, policy, scale):
    d, length, thr, lim = LONG[name]
    cfg = Config(threshold=thr, **d)
    lim = None if lim is None else lim * scale
    _, res = comp.long_run(cfg, lambda: call(cfg, length, thr, lim), getattr(comp, policy[0])(*policy[1:]))
    labs, costs = comp.observe(cfg, res)
    n = 10000 if lim is None else lim
    e = rav.judge(cfg, labs, costs, length, n, thr == 0.0 and thr is not None)
    task.traces += 1
    task.states += 1
    task.transitions += len(costs) + length
    task.outcome((name, tuple(policy), labs))
    if e:
        task.violation(e, case=dict(name=name, policy=policy))


PREFIX = {
    "two": (dict(n=1, prims=[(RX, None), (G, None)])),
    "three": (dict(n=1, prims=[(RX, None), (G, None), (H, None)])),
    "probs": (dict(n=1, prims=[(RX, None), (G, None), (H, None)], probs=[0.7, 0.0, 0.3])),
    "cx": (dict(n=2, prims=[(CX, None)])),
    "many": (dict(n=3, prims=[(CX, [(0, 2), (1, 2)]), (G, None), (H, [(1,)]), (RX, [(2,), (0,)])])),
    "par": (dict(n=2, prims=[(TE, [(1,)]), (("p", "xx"), [(1, 0)])])),
    "fourq": (dict(n=4, prims=[(CX, None), (("gen", 8, 1), [(3, 1, 0)]), (("p", "gms", 3), [(3, 2, 0)])])),
}


def prefix(task, name, length, exact):
    """the random part of long sequences: its exact law, or (longer) that no outcome reached is more likely than it should be"""
    cfg = Config(**PREFIX[name])
    one = {}
    for p, lab in cfg.entry_dist():
        one[lab] = one.get(lab, 0.0) + p
    if exact:
        want = {(k, ()): w for k, w in rav.prefix_dist(cfg, length, DEFAULT_CELLS).items()}
        got = {}
        for path, labs, costs, _ in comp.tree(cfg, lambda: call(cfg, length, 0.0, 7), task):
            k = (labs, tuple(costs))
            got[k] = got.get(k, 0.0) + path.weight
        task.states += len(want)
        comp.compare_dist(task, got, want, f"random part of length {length}, {name}")
    else:
        for k in range(2):
            comp.compare_bound(task, lambda path: comp.observe(cfg, call(cfg, length, 0.0, 7))[0],
                               lambda labs: [one.get(x, 0.0) for x in labs] if len(labs) == length else [0.0],
                               comp.mixed(k + 1, 4), f"random part of length {length}, {name}")
    task.outcome((name, length, exact))


def refused(task):
    """malformed arguments are refused before anything is returned"""
    g1, g2 = Unitary(2, comp.ref.generic_unitary(2, 1)), Unitary(4, comp.ref.generic_unitary(4, 1))
    p1, p2 = UnitaryPrimitive(g1), UnitaryPrimitive(g2)
    bad = [((2, [p1], 2, t), {}) for t in (-0.1, 1.0001, -1e-9, 2.0, float("nan"), float("inf"), -float("inf"))]
    bad += [((2, [p1], n, 0.9), {}) for n in (-1, -5)]
    bad += [((2, [p2], 2, 0.9), {}), ((2, [p1, p2], 1, 0.9), {}), ((2, [p1, p2], 0, 0.9), {}), ((2, [p2], 2, 0.0), {}),
            ((2, [g1], 2, 0.9), {}), ((2, ["p"], 2, 0.9), {}), ((2, p1, 2, 0.9), {}), ((2, (p1,), 2, 0.9), {}),
            ((2, None, 2, 0.9), {}), ((2, [], 1, 0.9), {}), ((4, [UnitaryPrimitive(g1, [[2]])], 1, 0.9), {}),
            ((4, [UnitaryPrimitive(g1, [[0], [5]]), ], 30, 0.0), {}),
            ((2, [p1], 1, 0.9), dict(unitary_primitive_probabilities=[0.5])),
            ((2, [p1, p1], 1, 0.9), dict(unitary_primitive_probabilities=[0.5, 0.6])),
            ((2, [p1, p1], 1, 0.9), dict(unitary_primitive_probabilities=[1.0]))]
    for args, kw in bad:
        case = repr((args[2:], kw, len(args[1]) if isinstance(args[1], list) else args[1]))
        st = np.random.get_state()
        np.random.seed(3)
        try:
            Verification.generate_rav_sequence(*args, **dict(max_step_count=3, **kw))
            ok = True
        except Exception:
            ok = False
        np.random.set_state(st)
        task.traces += 1
        task.transitions += 1
        task.outcome(case)
        if ok:
            task.violation("malformed arguments were accepted", case=case)
    task.states += len(bad)
