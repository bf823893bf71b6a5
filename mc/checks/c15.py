"""C15 compile_layered(): whole layers, one cost per step, exact stopping on every random path."""
from mc import comp, tracecheck
from mc.checks import c11
from mc.choice import DEFAULT_CELLS
from mc.comp import HALVES

RX, G, H, CX, T = ("rx", 0.9), ("gen", 2, 1), ("h",), ("cnot",), ("t",)
T1 = ("gen", 2, 7)
CFG = {
    "one": dict(n=1, prims=[(RX, None)], counts=[1], target=T1, rate=1.0),
    "pair": dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 1], target=T1, rate=1.0),
    "cold": dict(n=1, prims=[(RX, None), (G, None)], counts=[2, 1], target=T1, rate=30.0),
    "hot": dict(n=1, prims=[(RX, None), (G, None)], counts=[2, 1], target=T1, rate=0.0),
    "unused": dict(n=1, prims=[(RX, None), (G, None), (H, None)], counts=[1, 0, 1], target=T1, rate=1.0),
    "exact": dict(n=1, prims=[(RX, None), (H, None)], counts=[1, 1], threshold=1.0,
                  target=("word", ((RX, (0,)), (H, (0,))))),
    "exact2": dict(n=1, prims=[(T, None)], counts=[2], threshold=None, target=("word", (((T, (0,)),) * 4)), rate=1.0),
    "zero": dict(n=1, prims=[(RX, None)], counts=[2], threshold=0.0, target=T1),
    "ident": dict(n=1, prims=[(RX, None)], counts=[2], threshold=1.0, target=("i", 2)),
    "twoq": dict(n=2, prims=[(CX, None), (RX, None)], counts=[1, 1], rate=1.0),
    "threeq": dict(n=3, prims=[(CX, [(0, 2), (2, 1)]), (G, [(1,)])], counts=[1, 2], rate=0.5),
    "append1": dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 1], append=1.0, target=T1, rate=3.0),
    "append0": dict(n=1, prims=[(RX, None)], counts=[2], append=0.0, target=T1),
    "param": dict(n=1, prims=[(("p", "te", 1, 2, -1.0, 2.0), None), (RX, None)], counts=[1, 1], rate=1.0, target=T1),
    "near": dict(n=1, prims=[(RX, None)], counts=[2], threshold=0.97, target=("word", ((("rx", 2.0), (0,)),))),
    "l9": dict(n=1, prims=[(RX, None), (G, None)], counts=[5, 4], target=T1, rate=1.0),
    "l16": dict(n=2, prims=[(CX, None), (RX, None), (H, [(1,)])], counts=[3, 7, 6], rate=1.0),
    "l33": dict(n=1, prims=[(RX, None), (G, None)], counts=[33, 0], target=T1, rate=0.5),
    "l40": dict(n=1, prims=[(RX, None), (G, None), (T, None)], counts=[13, 20, 7], target=T1, rate=0.3, append=0.7),
    "l12exact": dict(n=1, prims=[(T, None)], counts=[12], threshold=1.0, rate=1.0, target=("word", ((T, (0,)),) * 24)),
    "lmany": dict(n=2, prims=[(("rx", 0.1 * k + 0.1), [(k % 2,)]) for k in range(11)], counts=[1, 0, 1, 2, 1, 1, 0, 1, 1, 1, 1], rate=1.0),
    "fourq": dict(n=4, prims=[(("gen", 4, 1), [(3, 0), (2, 1)]), (("gen", 8, 2), [(3, 1, 0)])], counts=[2, 1], rate=5.0),
    # layers whose beginning is the identity, or reaches the target, in some order
    "cancel": dict(n=1, prims=[(RX, None), (("inv", RX), None)], counts=[2, 1], target=T1, rate=1.0),
    "cancel2": dict(n=2, prims=[(("z",), [(0,)]), (CX, [(0, 1)]), (("h",), [(1,)])], counts=[2, 0, 1], rate=2.0),
    "midway": dict(n=1, prims=[(RX, None), (G, None)], counts=[1, 2], threshold=0.99, target=("word", ((RX, (0,)), (G, (0,)))), rate=1.0),
    "long": dict(n=1, prims=[(RX, None), (G, None)], counts=[3, 2], target=T1, rate=1.0),
}
BOUND = {"quick": "all random outcomes of layered compilations of 0-3 steps, 16 configurations of 1-3 qubits and 1-5 gates per layer; "
                  "fixed executions of 40 steps (of 14 steps with 9-40 gates per layer) and all single deviations from executions of 6 steps, observed after every step",
         "thorough": "as quick with one more step where below 300000 executions, 120-step executions, all single deviations of 14-step "
                     "and all pairs of deviations of 6-step executions"}


def tasks(tier):
    big = tier == "thorough"
    t = []
    for name in CFG:
        if name in ("l9", "l16", "l33", "l40", "l12exact", "lmany", "fourq"):
            continue
        n = {"one": 4, "pair": 3, "twoq": 2, "threeq": 1, "param": 2, "cold": 2, "hot": 2, "unused": 3, "exact": 3,
             "append0": 4, "append1": 3, "long": 1, "exact2": 4, "near": 4, "ident": 3}.get(name, 2)
        t.append(("tree", dict(name=name, budget=n + (1 if big and name not in ("twoq", "param", "long") else 0))))
    for name in ("cancel", "cancel2", "midway", "one", "pair", "cold", "hot", "unused", "exact2", "twoq", "threeq", "param", "append1", "near", "long"):
        for pol in (["mixed", 2, 4], ["mixed", 4, 5], ["pattern", 1, 0], ["mixed", 3, 3])[:4 if big else 2]:
            t.append(("long", dict(name=name, steps=120 if big else 40, policy=pol)))
            if name != "long" or big:
                t.append(("near_path", dict(name=name, steps=6 if name == "long" else 14 if big else 6, policy=pol, deviations=1)))
            if big and name != "long":
                t.append(("near_path", dict(name=name, steps=6, policy=pol, deviations=2)))
    for name in ("l9", "l16", "l33", "l40", "l12exact", "lmany", "fourq"):
        for pol in (["mixed", 2, 4], ["mixed", 4, 5], ["mixed", 3, 2], ["pattern", 1, 0]):
            t.append(("long", dict(name=name, steps=40 if big else 14, policy=pol)))
    t.append(("near_path", dict(name="l9", steps=3, policy=["mixed", 2, 4], deviations=1)))
    t.append(("near_path", dict(name="fourq", steps=6, policy=["mixed", 2, 4], deviations=1)))
    t.append(("tree", dict(name="fourq", budget=1)))
    t.sort(key=lambda x: x[1]["name"] not in ("twoq", "pair", "hot", "cold"))
    return t


def tree(task, name, budget):
    cfg = c11.cfg_of(name, CFG)
    tracecheck.full_tree(task, cfg, budget, HALVES if name.startswith("param") else DEFAULT_CELLS)


def long(task, name, steps, policy):
    cfg = c11.cfg_of(name, CFG)
    e, held = tracecheck.long_path(task, cfg, steps, getattr(comp, policy[0])(*policy[1:]))
    task.states += 1
    task.outcome((name, tuple(policy), len(held), max(map(len, held), default=0)))
    if e:
        task.violation(e, case=dict(name=name, steps=steps, policy=policy))


def near_path(task, name, steps, policy, deviations):
    cfg = c11.cfg_of(name, CFG)
    tracecheck.deviating(task, cfg, steps, getattr(comp, policy[0])(*policy[1:]), deviations)
