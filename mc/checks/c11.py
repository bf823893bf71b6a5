"""C11 compile(): sequence, cost trace and stopping point agree on every random path."""
from mc import comp, tracecheck, rng
from mc.choice import DEFAULT_CELLS, explore
from mc.comp import Config, HALVES

RX, G, H, CX = ("rx", 0.9), ("gen", 2, 1), ("h",), ("cnot",)
T1 = ("gen", 2, 7)

CFG = {
    "two": dict(n=1, prims=[(RX, None), (G, None)], target=T1),
    "cold": dict(n=1, prims=[(RX, None), (H, None)], target=T1, rate=20.0),
    "hot": dict(n=1, prims=[(RX, None), (H, None)], target=T1, rate=0.0),
    "exact": dict(n=1, prims=[(RX, None), (H, None)], threshold=1.0, target=("word", ((RX, (0,)), (H, (0,))))),
    "none": dict(n=1, prims=[(RX, None), (H, None)], threshold=None, target=("word", ((H, (0,)), (RX, (0,))))),
    "near": dict(n=1, prims=[(RX, None), (G, None)], threshold=0.9, target=("word", ((("rx", 1.6), (0,)),))),
    "tie": dict(n=1, prims=[(RX, None), (H, None)], threshold="tie", target=("word", ((RX, (0,)), (("rx", 0.4), (0,))))),
    "zero": dict(n=1, prims=[(RX, None)], threshold=0.0, target=T1),
    "ident": dict(n=1, prims=[(RX, None)], threshold=1.0, target=("i", 2)),
    "append1": dict(n=1, prims=[(RX, None), (G, None)], append=1.0, target=T1, rate=3.0),
    "append0": dict(n=1, prims=[(RX, None)], append=0.0, target=T1),
    "twoq": dict(n=2, prims=[(CX, None), (G, None)], rate=1.0),
    "threeq": dict(n=3, prims=[(CX, [(0, 2), (2, 1)]), (("gen", 4, 1), [(2, 0)])], rate=0.5, probs=[0.4, 0.6]),
    "param": dict(n=1, prims=[(("p", "te", 1, 2, -1.0, 2.0), None), (RX, None)], rate=1.0, target=T1),
    "param2": dict(n=2, prims=[(("p", "xx"), None), (RX, [(1,)])], rate=1.0, threshold=0.6),
    "stuck": dict(n=1, prims=[(("x",), None)], target=("gen", 2, 7), rate=50.0, append=0.9),
    "flat": dict(n=2, prims=[(("cnot",), None)], target=("gen", 4, 3), rate=0.0, append=0.3),
    "orth": dict(n=1, prims=[(("x",), None)], target=("z",), rate=5.0),
    "orth2": dict(n=1, prims=[(RX, None), (("x",), None)], target=("z",), rate=0.0),
    "ident2": dict(n=2, prims=[(("i", 4), None), (("z",), [(0,)])], target=("gen", 4, 3), rate=0.5),       # most steps change nothing
    "spin": dict(n=1, prims=[(("rz", 0.4), None), (("rz", -1.1), None)], target=("x",), rate=1.0),      # all sequences are equally far
    "clifford": dict(n=1, prims=[(H, None), (("x",), None)], target=("t",), rate=0.0),
    "orth3": dict(n=2, prims=[(("x",), None), (("z",), None), (CX, None)], target=("xx", 1.5707963267948966), rate=0.3, append=0.6),
    "fourq": dict(n=4, prims=[(CX, [(3, 1), (0, 2)]), (("gen", 8, 1), [(2, 3, 0)]), (RX, None)], rate=5.0, target=("gen", 16, 2)),
    "fiveq": dict(n=5, prims=[(("gen", 32, 1), [(1, 4, 2, 0, 3)]), (("gen", 4, 1), [(4, 1)]), (RX, [(2,)])], rate=40.0, probs=[0.2, 0.5, 0.3]),
    "sixq": dict(n=6, prims=[(("xx", 0.3), [(5, 1), (2, 4)]), (RX, [(0,), (3,)])], rate=500.0, threshold=0.9, target=("word", ((("xx", 0.3), (5, 1)), (RX, (0,)), (("rx", 0.5), (3,))))),
    "manyprims": dict(n=2, prims=[(("rx", 0.1 * k + 0.1), [(k % 2,)]) for k in range(12)] + [(CX, None)], rate=2.0, append=0.6),
    "jump": dict(n=1, prims=[(("x",), None), (RX, None)], target=("x",), rate=1.0),           # one step from the farthest point to the target
    "jump2": dict(n=2, prims=[(("z",), [(1,)]), (CX, None)], target=("word", ((("z",), (1,)),)), rate=8.0, threshold=0.9),
    "onequbit_unitary": dict(n=1, prims=[(G, [(0,)])], array=True, target=("word", ((G, (0,)), (G, (0,)))),
                             threshold=1.0),
}
BOUND = {"quick": "all random outcomes of compilations of 0-3(4) steps, 28 configurations, 1-6 qubits, up to 13 primitives; fixed executions of 60 steps, of 640 steps (and of up to 3000 on 8 configurations with plateaus) "
                  "and all single deviations from executions of 8 steps, observed after every step; unlimited compilations up to 8 choices",
         "thorough": "as quick with 0-4(5) steps, 150-step executions, all pairs of deviations of 7-step and single of 16-step executions, "
                     "11 choices"}


def cfg_of(name, table=None):
    d = dict((table or CFG)[name])
    if d.get("threshold") == "tie":      # exactly the overlap reached by the first gate alone
        d["threshold"] = None
        c = Config(**d)
        d["threshold"] = 1.0 - c.cost(((0, (), (0,)),))
    return Config(**d)


def tasks(tier):
    big = tier == "thorough"
    t = []
    for name in CFG:
        n = {"twoq": 2, "threeq": 2, "param": 2, "param2": 2, "append1": 4, "append0": 4, "zero": 3, "ident": 3, "orth3": 2, "fourq": 2, "fiveq": 2, "sixq": 2, "manyprims": 1,
             "onequbit_unitary": 4}.get(name, 3)
        t.append(("tree", dict(name=name, budget=n + (1 if big else 0))))
    for name in ("two", "hot", "cold", "exact", "near", "twoq", "threeq", "param", "param2", "append1", "orth", "orth2", "clifford", "orth3", "fourq", "fiveq", "sixq", "manyprims"):
        for pol in (["mixed", 2, 4], ["mixed", 4, 5], ["pattern", 1, 0], ["mixed", 3, 3])[:4 if big else 2]:
            t.append(("long", dict(name=name, steps=150 if big else 60, policy=pol)))
            t.append(("near_path", dict(name=name, steps=16 if big else 8, policy=pol, deviations=1)))
            if big:
                t.append(("near_path", dict(name=name, steps=7, policy=pol, deviations=2)))
    for name in ("append0", "stuck", "flat", "orth", "orth2", "clifford", "ident2", "spin"):
        t.append(("checkpoints", dict(name=name, policy=["mixed", 5, 1], limits=[998, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2049, 3000] + ([4097, 5001, 8200, 10001] if big else []))))
        t.append(("checkpoints", dict(name=name, policy=["pattern", 1, 1], limits=[1001] if name == "stuck" else [2500 if big else 1500])))
    for name in ("append0", "stuck", "flat", "cold", "hot", "two", "twoq", "near", "orth", "orth2", "clifford", "orth3", "fourq", "fiveq", "sixq", "manyprims"):
        for pol in (["mixed", 2, 4], ["mixed", 5, 1]) + ((["pattern", 1, 0], ["mixed", 7, 2]) if big else ()):
            t.append(("checkpoints", dict(name=name, policy=pol, limits=[0, 1, 3, 60, 150, 255, 256, 257, 400, 640] + ([1000, 1500, 3000] if big else []) if name[1:] not in ("ourq", "iveq", "ixq") else [0, 1, 3, 60, 150, 257])))
    for name in ("exact", "near", "none", "tie", "onequbit_unitary"):
        t.append(("unlimited", dict(name=name, horizon=11 if big else 8)))
    return t


def tree(task, name, budget):
    cfg = cfg_of(name)
    tracecheck.full_tree(task, cfg, budget, HALVES if name.startswith("param") else DEFAULT_CELLS)


def long(task, name, steps, policy):
    cfg = cfg_of(name)
    e, held = tracecheck.long_path(task, cfg, steps, getattr(comp, policy[0])(*policy[1:]))
    task.states += 1
    task.outcome((name, tuple(policy), len(held), max(map(len, held), default=0)))
    if e:
        task.violation(e, case=dict(name=name, steps=steps, policy=policy))


def checkpoints(task, name, policy, limits):
    """long executions, plateaus included, observed at some steps only"""
    cfg = cfg_of(name)
    before, ended = [], False
    for k in limits:
        pos, res = comp.long_run(cfg, lambda: cfg.call(k), getattr(comp, policy[0])(*policy[1:]))
        labs, costs = comp.observe(cfg, res)
        case = dict(name=name, policy=policy, limit=k)
        task.traces += 1
        task.transitions += len(costs)
        m = min(len(before), len(costs))
        if [round(c, 9) for c in costs[:m]] != [round(c, 9) for c in before[:m]] or len(costs) < m:
            task.violation("the costs of earlier steps depend on the step limit", case=case)
        if len(costs) > k:
            task.violation(f"{len(costs)} costs reported with a limit of {k}", case=case)
        if len(costs) < k and not cfg.met(labs):
            task.violation(f"stopped after {len(costs)} of {k} steps although the threshold is not met", case=case)
        if costs and not abs(costs[-1] - cfg.cost(labs)) < 1e-7:
            task.violation(f"the last cost is {costs[-1]:.9g}, the sequence returned is at distance {cfg.cost(labs):.9g}", case=case)
        t = 1.0 if cfg.threshold is None else cfg.threshold
        early = [j for j, c in enumerate(costs[:-1]) if c < 1 - t - 1e-7]
        if early:
            task.violation(f"went on after step {early[0] + 1} although the threshold was met", case=case)
        before = costs
        task.states += 1
        task.outcome((name, tuple(policy), k, labs))


def near_path(task, name, steps, policy, deviations):
    cfg = cfg_of(name)
    tracecheck.deviating(task, cfg, steps, getattr(comp, policy[0])(*policy[1:]), deviations)


def unlimited(task, name, horizon):
    """no step limit given: ends exactly at the first sequence that meets the threshold"""
    cfg = cfg_of(name)

    def run():
        c = cfg.compiler()
        if cfg.threshold is None:
            return c.compile(cfg.lib_target())
        return c.compile(cfg.lib_target(), cfg.threshold)
    n = 0
    for path, labs, costs, res in comp.tree(cfg, run, task, horizon=horizon):
        n += 1
        case = dict(choices=path.trace(), result=labs, costs=costs)
        if not cfg.met(labs):
            task.violation("an unlimited compilation ended before the threshold was met", case=case)
        if costs and abs(costs[-1] - cfg.cost(labs)) > 1e-7:
            task.violation("the last cost is not the distance of the returned sequence", case=case)
        t = 1.0 if cfg.threshold is None else cfg.threshold
        early = [k for k, c in enumerate(costs[:-1]) if c < 1 - t - 1e-7]
        if early:
            task.violation(f"went on after step {early[0] + 1} although the threshold was met", case=case)
        task.outcome((name, labs, tuple(map(comp.rc, costs))))
    task.states += n
    if n < 2:
        raise comp.HarnessError("no execution ends within the horizon")
