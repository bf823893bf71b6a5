"""C12 compiled sequences use only the permitted gates, qubits and parameters; the inputs stay as they were."""
import itertools

import numpy as np

from mc import comp, rng
from mc.canon import form
from mc.choice import DEFAULT_CELLS, TOP
from mc.comp import Config, HALVES

RX, G, H, CX, T, CCX = ("rx", 0.9), ("gen", 2, 1), ("h",), ("cnot",), ("t",), ("ccnot",)
G4, G8 = ("gen", 4, 1), ("gen", 8, 1)
PXY, PXYZ, PXX = ("p", "xy"), ("p", "xyz"), ("p", "xx")
TE = ("p", "te", 1, 2, -1.0, 2.5)
TE2 = ("p", "te", 2, 1, 0.5, 0.75)
CU = ("p", "custom", -0.3, -0.1, 5.0, 5.5)
ENDS = ((0.0, 0.5), (TOP, 0.5))

CFG = {
    "free1": (dict(n=2, prims=[(RX, None), (G, None)]), 2),
    "free2": (dict(n=3, prims=[(CX, None)]), 2),
    "free3": (dict(n=3, prims=[(CCX, None), (G, None)]), 1),
    "free4": (dict(n=4, prims=[(G4, None), (H, None)]), 1),
    "free5": (dict(n=5, prims=[(G8, None)]), 1),
    "ordered": (dict(n=3, prims=[(G4, [(2, 0), (0, 2), (1, 0)]), (G, [(2,)])]), 2),
    "onelist": (dict(n=3, prims=[(G4, [(2, 1)])]), 3),
    "empty": (dict(n=2, prims=[(RX, []), (G4, [(1, 0)]), (H, [])]), 3),
    "emptyprob": (dict(n=2, prims=[(RX, []), (G4, [(1, 0)]), (H, [(1,)])], probs=[0.5, 0.25, 0.25]), 2),
    "zeroprob": (dict(n=2, prims=[(RX, None), (G4, None), (H, None)], probs=[0.0, 1.0, 0.0]), 3),
    "zeroprob2": (dict(n=2, prims=[(RX, [(1,)]), (G, None), (H, [(0,)])], probs=[0.25, 0.0, 0.75]), 2),
    "zeroprob4": (dict(n=1, prims=[(RX, None), (G, None), (H, None), (T, None)], probs=[0.5, 0.0, 0.25, 0.25]), 2),
    "zeroprob5": (dict(n=2, prims=[(RX, [(1,)]), (CX, None), (H, [(0,)]), (T, [(0,)]), (G4, [(1, 0)])], probs=[0.0, 0.5, 0.0, 0.5, 0.0]), 2),
    "zeroprob6": (dict(n=1, prims=[(RX, None), (T, []), (H, None), (T, None), (G, None), (("x",), None)], probs=[0.0, 0.3, 0.0, 0.0, 0.7, 0.0], array=True), 2),
    "zerocount4": (dict(n=1, prims=[(RX, None), (G, None), (H, None), (T, None), (("x",), None)], counts=[0, 1, 0, 0, 1]), 2),
    "array": (dict(n=2, prims=[(RX, [(1,)]), (G4, [(1, 0)])], array=True), 2),
    "arrayprob": (dict(n=2, prims=[(RX, [(1,)]), (G4, [(1, 0)]), (H, [])], array=True, probs=[0.3, 0.7, 0.0]), 2),
    "arrayone": (dict(n=2, prims=[(G4, None)], array=True), 2),
    "dup": (dict(n=2, prims=[(G, [(0,), (0,), (1,)]), (H, [(1,)])]), 2),
    "pxy": (dict(n=2, prims=[(PXY, [(1,)])]), 1),
    "pxyz": (dict(n=1, prims=[(PXYZ, None)]), 1),
    "pxx": (dict(n=3, prims=[(PXX, [(2, 1), (0, 2)])]), 1),
    "pgms": (dict(n=3, prims=[(("p", "gms", 3), None), (("p", "gms", 2), None)]), 1),
    "te": (dict(n=2, prims=[(TE, None), (TE2, [(1, 0)])], probs=[0.4, 0.6]), 1),
    "te_2": (dict(n=1, prims=[(TE, None)]), 2),
    "custom": (dict(n=2, prims=[(CU, [(1,)]), (RX, [(0,)])]), 1),
    "mix": (dict(n=2, prims=[(TE, [(1,)]), (CX, [(1, 0)]), (PXX, [])], array=True, probs=[0.5, 0.5, 0.0]), 2),
    "point": (dict(n=1, prims=[(("p", "te", 1, 2, 0.7, 0.7), None)]), 2),
    # many qubit lists, none of them sorted, and many primitives
    "lists9": (dict(n=5, prims=[(G4, [(4, 0), (3, 1), (2, 0), (4, 1), (3, 0), (2, 1), (4, 2), (1, 0), (4, 3)])]), 2),
    "lists12": (dict(n=4, prims=[(G8, [(3, 0, 2), (2, 1, 0), (1, 3, 0), (3, 2, 1), (0, 3, 1), (2, 0, 3), (3, 1, 0), (1, 0, 2), (2, 3, 0), (0, 2, 1), (3, 0, 1), (2, 3, 1)])]), 1),
    "lists17": (dict(n=6, prims=[(CX, [(5 - a, b) for a in range(3) for b in range(3)] + [(b, 5 - a) for a in range(3) for b in range(3)]), (G, [(5,), (0,), (5,), (3,), (5,), (1,), (4,), (5,), (0,), (2,)])]), 1),
    "lists40": (dict(n=7, prims=[(G4, [(a, b) for a in range(6, -1, -1) for b in range(7) if a != b][:40])]), 1),
    "listsp": (dict(n=5, prims=[(PXX, [(4, 0), (3, 1), (2, 0), (4, 1), (3, 0), (2, 1), (4, 2), (1, 0), (4, 3), (3, 2)])]), 1),
    "prims20": (dict(n=3, prims=[(("rx", 0.1 * k + 0.1), [(2 - k % 3,)]) for k in range(18)] + [(G4, [(2, 0)]), (CX, [(1, 0), (2, 1)])], probs=[0.0, 0.1] * 9 + [0.05, 0.05]), 1),
    "prims33": (dict(n=2, prims=[(("rz", 0.05 * k + 0.1), [(k % 2,)] if k % 5 else []) for k in range(33)], array=True), 1),
    "gate5of6": (dict(n=6, prims=[(("gen", 32, 1), [(5, 0, 4, 1, 3), (1, 5, 2, 0, 4)]), (RX, [(5,)])]), 1),
    "orders5": (dict(n=3, prims=[(G8, [(0, 1, 2), (2, 1, 0), (1, 0, 2), (2, 0, 1), (1, 2, 0)])]), 1),
    "orders8": (dict(n=4, prims=[(("gen", 16, 1), [(0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 2, 3), (2, 0, 1, 3), (1, 2, 0, 3), (0, 3, 1, 2), (3, 0, 2, 1), (2, 3, 1, 0)]), (H, [(1,)])]), 1),
    "orders1": (dict(n=2, prims=[(G4, [(0, 1)]), (G, [(1,)])]), 2),
    "most": (dict(n=4, prims=[(CX, [(a, b) for a in range(4) for b in range(4) if a != b and (a, b) != (2, 0)]), (G, [(0,), (1,), (3,)])]), 1),
    "Lorders8": (dict(n=4, prims=[(("gen", 16, 1), [(0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 2, 3), (2, 0, 1, 3), (1, 2, 0, 3), (0, 3, 1, 2), (3, 0, 2, 1), (2, 3, 1, 0)]), (H, [(1,)])], counts=[1, 1]), 1),
    "Lmany": (dict(n=4, prims=[(G4, [(3, 0), (2, 0), (1, 0), (3, 1), (2, 1), (3, 2), (0, 1), (0, 2), (0, 3), (1, 2)]), (H, [(3,)])], counts=[1, 1]), 1),
    "L": (dict(n=2, prims=[(RX, [(1,)]), (G4, [(1, 0)])], counts=[1, 1]), 2),
    "L0": (dict(n=2, prims=[(RX, [(1,)]), (G4, None), (H, None)], counts=[2, 0, 1]), 1),
    "Lp": (dict(n=2, prims=[(TE, [(1,)]), (CX, [(0, 1)])], counts=[1, 1]), 1),
}
BOUND = {"quick": "all random outcomes of compilations of 1-3 steps with 40 sets of primitives (up to 33, with up to 40 qubit lists each) on 1-7 qubits (restricted, empty and repeated "
                  "qubit lists, zero probabilities, list and array form, fixed and parameterized), parameters at the ends and inside of the "
                  "ranges; plus fixed executions of 50 steps",
         "thorough": "as quick with one more step where below 400000 executions; fixed executions of 300 steps"}


def tasks(tier):
    big = tier == "thorough"
    t = []
    for name, (d, k) in CFG.items():
        for app in (0.5, 1.0):
            cells = ("ends", "std") if any(g[0] == "p" for g, _ in d["prims"]) else ("std",)
            for c in cells:
                up = big and name not in ("free4", "free5", "free3", "pgms", "L0", "pxyz", "mix", "free1", "free2", "dup") and app == 0.5
                t.append(("tree", dict(name=name, append=app, budget=k + (1 if up else 0), cells=c)))
        for pol in (["mixed", 2, 4], ["mixed", 4, 5]):
            t.append(("long", dict(name=name, steps=300 if big else 50, policy=pol)))
    t.sort(key=lambda x: x[1]["name"] not in ("free4", "free5", "mix", "ordered", "L0", "free1", "free2", "dup"))
    return t


def allowed_labels(cfg, cells):
    kinds = range(len(cfg.prims)) if cfg.counts is None else [i for i, c in enumerate(cfg.counts) if c]
    if cfg.counts is not None:
        return {lab for i in kinds for _, lab in cfg.options(i, cells)}
    return {lab for _, lab in cfg.entry_dist(cells)}


def run(cfg, budget):
    """a compilation with explicit inputs, checked for being left alone"""
    prims = cfg.lib_prims()
    target = cfg.lib_target()
    probs = None if cfg.probs is None else (np.array(cfg.probs) if cfg.array else list(cfg.probs))
    counts = None if cfg.counts is None else dict(zip(prims, cfg.counts))
    before = [form(list(prims)), form(target), form(probs), list(map(id, prims))]
    c = comp.Compiler(cfg.dim, prims, probs, cfg.append, cfg.rate)
    if counts is None:
        r = c.compile(target, cfg.threshold, budget)
    else:
        r = c.compile_layered(target, counts, cfg.threshold, budget)
        if list(counts.items()) != list(zip(prims, cfg.counts)):
            raise comp.Bad("the dictionary of layer counts was changed")
    if list(map(id, prims)) != before[3] or probe(prims) != probe(cfg.lib_prims()):
        raise comp.Bad("the primitives passed in were changed")
    if form(probs) != before[2]:
        raise comp.Bad("the probabilities passed in were changed")
    if comp.ref.phase_diff(target.get_matrix(), cfg.tmat) > 1e-9:
        raise comp.Bad("the target passed in was changed")
    return r


def probe(prims):
    """observable value of primitives"""
    out = []
    for p in prims:
        u = p.get_unitary()
        out.append((p.get_allowed_apply_to(), u.get_dimension(), u.get_operation_name(),
                    form(u.get_matrix()) if hasattr(u, "get_matrix") else
                    [(q.get_parameter_name(), q.get_is_angle(), q.is_valid(0.6)) for q in u.get_parameters()]))
    return repr(out)


def tree(task, name, append, budget, cells):
    d, _ = CFG[name]
    cs = {"ends": ENDS, "std": DEFAULT_CELLS}[cells]
    if cells == "std" and name in ("te", "te_2", "mix", "Lp", "custom") and budget > 1:
        cs = HALVES
    cfg = Config(append=append, **d)
    ok = allowed_labels(cfg, cs)
    used = set()
    for path, labs, costs, _ in comp.tree(cfg, lambda: run(cfg, budget), task, cells=cs):
        bad = [x for x in labs if x not in ok]
        if bad:
            task.violation(f"entry {bad[0]} is not permitted (impossible primitive, qubits or parameter value)",
                           case=dict(choices=path.trace()), sequence=labs)
        used.update(labs)
        task.states += 1
        task.outcome((name, labs))
    miss = ok - used
    if miss:
        task.count("permitted_entries_never_used", len(miss))     # not this property (see C16)
    task.sample(dict(name=name, permitted=len(ok), one=next(iter(used), None)), 1)


def long(task, name, steps, policy):
    d, _ = CFG[name]
    for app in (0.5, 0.8):
        cfg = Config(append=app, rate=0.02, **d)
        task.case = dict(name=name, steps=steps, append=app, policy=policy)
        _, res = comp.long_run(cfg, lambda: run(cfg, steps), getattr(comp, policy[0])(*policy[1:]))
        labs, costs = comp.observe(cfg, res)
        ok = allowed_labels(cfg, DEFAULT_CELLS)
        task.traces += 1
        task.transitions += steps
        task.states += 1
        task.outcome((name, app, tuple(policy), labs))
        bad = [x for x in labs if x not in ok]
        if bad:
            task.violation(f"entry {bad[0]} is not permitted", case=task.case)
