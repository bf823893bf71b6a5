"""C18 layered RAV and XEB sequences."""
import numpy as np

from mc import comp, rav
from mc.choice import DEFAULT_CELLS
from mc.comp import Config, HALVES
from mc.tracecheck import layers_ok
from stoqcompiler.unitary import Unitary, UnitaryPrimitive
from stoqcompiler.verification import Verification

RX, G, H, CX, T = ("rx", 0.9), ("gen", 2, 1), ("h",), ("cnot",), ("t",)
TE = ("p", "te", 1, 2, -1.0, 2.5)
# cfg, layers, threshold, step limit
CASES = {
    "base": (dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 1]), 1, None, 2),
    "base2": (dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 1]), 2, 0.97, 1),
    "two": (dict(n=1, prims=[(RX, None), (G, None)], counts=[2, 1]), 1, 0.95, 2),
    "unused": (dict(n=1, prims=[(RX, None), (G, None), (H, None)], counts=[1, 0, 1]), 1, 0.9, 2),
    "len0": (dict(n=1, prims=[(RX, None)], counts=[3]), 0, None, 5),
    "nolayer": (dict(n=1, prims=[(RX, None)], counts=[0]), 3, None, 4),
    "skip_t": (dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 2]), 2, 0.0, 5),
    "skip_s": (dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 1]), 3, 0.9, 0),
    "skip_n": (dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 1]), 2, None, 0),
    "self": (dict(n=1, prims=[(H, None)], counts=[1]), 3, 1.0, 3),
    "self2": (dict(n=2, prims=[(CX, [(0, 1)]), (H, [(1,)])], counts=[1, 1]), 1, None, 2),
    "app9": (dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 1], append=0.9), 1, None, 2),
    "app0": (dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 1], append=0.0), 1, None, 4),
    "twoq": (dict(n=2, prims=[(CX, None), (G, [(1,)])], counts=[1, 1]), 1, None, 1),
    "ordered": (dict(n=3, prims=[(("gen", 4, 1), [(2, 0)]), (G, [(1,), (0,)])], counts=[1, 1]), 1, 0.9, 1),
    "param": (dict(n=1, prims=[(TE, None), (RX, None)], counts=[1, 1]), 1, 0.9, 1),
    "half": (dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 1]), 2, 0.5, 1),
    "par2q": (dict(n=2, prims=[(TE, [(1,)]), (RX, [(0,)])], counts=[2, 0]), 1, 0.9, 0),
    "par2q_t": (dict(n=2, prims=[(TE, [(1,)]), (RX, [(0,)])], counts=[2, 1]), 1, 0.0, 3),
    "par2q_c": (dict(n=2, prims=[(TE, [(1,)])], counts=[1]), 1, 0.9, 1),
    "fourq": (dict(n=4, prims=[(("gen", 4, 1), [(3, 0)]), (G, [(2,)])], counts=[1, 1]), 1, 0.9, 1),
    "fiveq": (dict(n=5, prims=[(("gen", 16, 1), [(3, 0, 4, 1)]), (G, [(2,)])], counts=[1, 1]), 1, None, 1),
    "three": (dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 0]), 3, 0.9, 3),
}
XEB = {
    "x1": (dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 1]), 3),
    "x2": (dict(n=2, prims=[(CX, None), (G, [(1,)])], counts=[1, 1]), 2),
    "x3": (dict(n=1, prims=[(RX, None), (G, None)], counts=[2, 1]), 2),
    "x0": (dict(n=1, prims=[(RX, None), (G, None)], counts=[2, 1]), 0),
    "x4": (dict(n=1, prims=[(RX, None), (G, None), (H, None)], counts=[1, 0, 2]), 1),
    "xp": (dict(n=1, prims=[(TE, None)], counts=[2]), 1),
    "x3q": (dict(n=3, prims=[(("ccnot",), None), (G, [(2,)])], counts=[1, 1]), 1),
    "xp2": (dict(n=2, prims=[(TE, [(1,)])], counts=[2]), 2),
    "x4q": (dict(n=4, prims=[(("gen", 8, 1), [(3, 0, 2)]), (G, [(2,), (1,)])], counts=[1, 1]), 2),
    "xi": (dict(n=1, prims=[(H, None)], counts=[2]), 2),
}
LONG = {
    "l1": (dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 2]), 20, 0.999, 40),
    "l2": (dict(n=2, prims=[(CX, None), (G, None), (TE, None)], counts=[1, 0, 2]), 10, None, 30),
    "l3": (dict(n=1, prims=[(TE, None), (RX, None)], counts=[1, 1], append=0.7), 6, 0.9, 40),
    "l4": (dict(n=3, prims=[(CX, None), (G, None)], counts=[2, 3]), 7, 0.95, 15),
    "l5": (dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 1]), 67, 0.5, 20),
    "l6": (dict(n=2, prims=[(CX, None), (G, None)], counts=[3, 4]), 12, 0.0, 40),
    "l7": (dict(n=2, prims=[(CX, None), (G, None)], counts=[3, 4]), 15, "xeb", 0),
    "l8": (dict(n=4, prims=[(CX, None), (("gen", 8, 1), [(3, 1, 0)]), (TE, [(2,)])], counts=[4, 3, 5]), 3, 0.95, 8),
    "l9": (dict(n=5, prims=[(("gen", 4, 1), [(4, 0), (1, 3)]), (G, [(2,)])], counts=[2, 1]), 5, 0.9, 15),
    "dflt": (dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 1]), 3, None, None),
}
BOUND = {"quick": "every outcome with its exact probability for 23 layered and 10 XEB argument combinations (0-3 layers, limit 0-5 steps); fixed "
                  "executions with up to 67 layers and 40 steps, and one with the default limit of 10000; 26 malformed argument lists",
         "thorough": "as quick with one more step where below 400000 executions; 6 fixed executions each, 120 steps"}


def tasks(tier):
    big = tier == "thorough"
    t = [("long", dict(name="dflt", policy=["mixed", 2, 1], scale=1))]
    for name, (d, ln, thr, lim) in CASES.items():
        t.append(("law", dict(name=name, more=1 if lim and big and name in (
            "base", "app9", "app0", "self", "three", "half", "unused", "len0", "nolayer") else 0)))
    for name in XEB:
        t.append(("xeb", dict(name=name)))
    for name in LONG:
        for pol in (["mixed", 2, 4], ["mixed", 4, 5]) + ((["mixed", 1, 4], ["mixed", 5, 6], ["mixed", 6, 3], ["pattern", 1, 0]) if big else ()):
            if name != "dflt":
                t.append(("long", dict(name=name, policy=pol, scale=3 if big else 1)))
    for name, n in (("two", 4), ("one", 8), ("cx", 6)) + ((("two", 6), ("one", 11)) if big else ()):
        for kind in ("rav", "xeb"):
            t.append(("prefix", dict(name=name, layers=n, kind=kind, exact=True)))
    for name in PREFIX:
        for n in ((9, 20) if name not in ("par", "par2", "wide", "fourq") else (3,)) + ((60 if name in ("one", "two", "cx", "many") else 12,) if big else ()):
            for kind in ("rav", "xeb"):
                t.append(("prefix", dict(name=name, layers=n, kind=kind, exact=False)))
    t.append(("refused", {}))
    return t


def call(cfg, layers, threshold, limit):
    counts = dict(zip(cfg.lib_prims(), cfg.counts))
    if threshold == "xeb":
        return Verification.generate_xeb_sequence(cfg.dim, counts, layers)
    kw = {}
    if cfg.append != 0.5:
        kw["stoq_append_probability"] = cfg.append
    if limit is not None:
        kw["max_step_count"] = limit
    return Verification.generate_layered_rav_sequence(cfg.dim, counts, layers, threshold, **kw)


def judge(cfg, labs, costs, layers, limit, skip):
    return rav.judge(cfg, labs, costs, layers * sum(cfg.counts), limit, skip) or layers_ok(cfg, labs)


def law(task, name, more):
    d, layers, thr, lim = CASES[name]
    cells = HALVES if name == "param" else DEFAULT_CELLS
    cfg = Config(threshold=thr, **d)
    lim += more
    skip = thr == 0.0 and thr is not None or lim == 0
    want = rav.whole_dist(cfg, rav.prefix_dist(cfg, layers, cells), lim, cells, skip)
    got = {}
    for path, labs, costs, _ in comp.tree(cfg, lambda: call(cfg, layers, thr, lim), task, cells=cells):
        e = judge(cfg, labs, costs, layers, lim, skip)
        if e:
            task.violation(e, case=dict(name=name, choices=path.trace(), sequence=labs, costs=costs))
        k = (labs, tuple(comp.rc(c) for c in costs))
        got[k] = got.get(k, 0.0) + path.weight
        task.outcome((name, k))
    task.states += len(want)
    comp.compare_dist(task, got, want, f"layered RAV {name}")
    task.sample(dict(name=name, layers=layers, outcome=next(iter(want))), 1)


def xeb(task, name):
    d, layers = XEB[name]
    cfg = Config(**d)
    want = rav.whole_dist(cfg, rav.prefix_dist(cfg, layers, DEFAULT_CELLS), 0, skip=True)
    got = {}
    for path, labs, costs, _ in comp.tree(cfg, lambda: call(cfg, layers, "xeb", 0), task):
        e = judge(cfg, labs, costs, layers, 0, True)
        if e:
            task.violation(e, case=dict(name=name, choices=path.trace(), sequence=labs, costs=costs))
        k = (labs, tuple(costs))
        got[k] = got.get(k, 0.0) + path.weight
        task.outcome((name, k))
    task.states += len(want)
    comp.compare_dist(task, got, want, f"XEB {name}")


def long(task, name, policy, scale):
    d, layers, thr, lim = LONG[name]
    cfg = Config(threshold=None if thr == "xeb" else thr, **d)
    lim = None if lim is None else lim * scale
    _, res = comp.long_run(cfg, lambda: call(cfg, layers, thr, lim), getattr(comp, policy[0])(*policy[1:]))
    labs, costs = comp.observe(cfg, res)
    n = 10000 if lim is None else lim
    e = judge(cfg, labs, costs, layers, n, thr in (0.0, "xeb") and thr is not None)
    task.traces += 1
    task.states += 1
    task.transitions += len(costs) + layers
    task.outcome((name, tuple(policy), labs))
    if e:
        task.violation(e, case=dict(name=name, policy=policy))


PREFIX = {
    "one": (dict(n=2, prims=[(RX, None)], counts=[1])),
    "two": (dict(n=1, prims=[(RX, None), (G, None)], counts=[2, 1])),
    "cx": (dict(n=2, prims=[(CX, None), (G, [(1,)])], counts=[1, 0])),
    "many": (dict(n=3, prims=[(CX, [(0, 2), (1, 2)]), (G, None), (H, [(1,)])], counts=[1, 1, 1])),
    "par": (dict(n=2, prims=[(TE, [(1,)]), (("p", "xx"), [(1, 0)])], counts=[3, 2])),
    "par2": (dict(n=3, prims=[(("p", "xy"), [(2,)]), (("p", "xx"), [(2, 0)]), (TE, None)], counts=[2, 0, 2])),
    "wide": (dict(n=1, prims=[(RX, None), (G, None), (H, None)], counts=[6, 5, 3])),
    "fourq": (dict(n=4, prims=[(CX, None), (("gen", 8, 1), [(3, 1, 0)]), (("p", "gms", 3), [(3, 2, 0)])], counts=[2, 1, 2])),
}


def prefix(task, name, layers, kind, exact):
    """the random part with many layers: its exact law, or (more layers) that no outcome reached is more likely than it should be"""
    cfg = Config(**PREFIX[name])
    thr = "xeb" if kind == "xeb" else 0.0
    k = sum(cfg.counts)
    if exact:
        want = {(k2, ()): w for k2, w in rav.prefix_dist(cfg, layers, DEFAULT_CELLS).items()}
        got = {}
        for path, labs, costs, _ in comp.tree(cfg, lambda: call(cfg, layers, thr, 7), task):
            key = (labs, tuple(costs))
            got[key] = got.get(key, 0.0) + path.weight
        task.states += len(want)
        comp.compare_dist(task, got, want, f"{layers} random layers, {kind} {name}")
    else:
        for pol in range(2):
            comp.compare_bound(task, lambda path: comp.observe(cfg, call(cfg, layers, thr, 7))[0],
                               lambda labs: [f for i in range(0, len(labs), k) for f in cfg.layer_factors(labs[i:i + k])] if len(labs) == layers * k else [0.0],
                               comp.mixed(pol + 1, 4), f"{layers} random layers, {kind} {name}")
    task.outcome((name, layers, kind, exact))


def refused(task):
    g1, g2 = Unitary(2, comp.ref.generic_unitary(2, 1)), Unitary(4, comp.ref.generic_unitary(4, 1))
    p1, p2 = UnitaryPrimitive(g1), UnitaryPrimitive(g2)
    bad = [(2, {p1: 1}, 2, t) for t in (-0.1, 1.0001, -1e-9, 2.0, float("nan"), float("inf"), -float("inf"))]
    bad += [(2, {p1: 1}, n, t) for n in (-1, -4) for t in (0.9, 0.0)]
    bad += [(2, {p2: 1}, 2, 0.9), (2, {p1: 1, p2: 1}, 1, 0.9), (2, {p1: 1, p2: 0}, 1, 0.9), (2, {p2: 1}, 0, 0.9),
            (2, {p1: 1.5}, 2, 0.9), (2, {p1: "1"}, 2, 0.9), (2, {p1: None}, 2, 0.0), (2, {g1: 1}, 2, 0.9), (2, {"p": 1}, 2, 0.9),
            (2, [p1], 2, 0.9), (2, [(p1, 1)], 2, 0.9), (2, None, 2, 0.9), (4, {UnitaryPrimitive(g1, [[2]]): 1}, 1, 0.9)]
    n = 0
    for args in bad:
        for which in ("rav", "xeb"):
            if which == "xeb" and args[3] not in (0.9,):
                continue
            case = repr((which, args[0], args[2:], str(args[1])[:60]))
            st = np.random.get_state()
            np.random.seed(3)
            try:
                if which == "rav":
                    Verification.generate_layered_rav_sequence(*args, max_step_count=3)
                else:
                    Verification.generate_xeb_sequence(*args[:3])
                ok = True
            except Exception:
                ok = False
            np.random.set_state(st)
            n += 1
            task.outcome((n, which))
            if ok:
                task.violation("malformed arguments were accepted", case=case)
    task.traces += n
    task.transitions += n
    task.states += n
