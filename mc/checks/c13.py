"""C13 exact transition law of the annealed search (plain and layered)."""
from mc import comp
from mc.comp import Config, HALVES
from mc.choice import DEFAULT_CELLS

G = ("gen", 2, 1)
BOUND = {"quick": "all random outcomes of 30 compilations of 1-4 steps on 1-7 qubits (cap of the annealing reached on all of them), exact probabilities; and of the single step "
                  "after 5-120 earlier steps on fixed paths",
         "thorough": "all random outcomes of 20 compilations of 1-5 steps on 1-3 qubits; single steps after 1-400 steps"}

T1 = ("gen", 2, 7)


def cfgs():
    rx, h = ("rx", 0.9), ("h",)
    return {
        "two": dict(n=1, prims=[(rx, None), (G, None)], target=T1),
        "rate0": dict(n=1, prims=[(rx, None), (h, None)], rate=0.0, target=T1),
        "rate3": dict(n=1, prims=[(rx, None), (h, None)], rate=3.0, target=T1),
        "cap": dict(n=1, prims=[(rx, None), (h, None)], rate=7.0, target=T1),
        "probs": dict(n=1, prims=[(rx, None), (h, None), (G, None)], probs=[0.2, 0.0, 0.8], target=T1, rate=1.0),
        "append1": dict(n=1, prims=[(rx, None), (G, None)], append=1.0, rate=2.0, target=T1),
        "append0": dict(n=1, prims=[(rx, None)], append=0.0, target=T1),
        "append7": dict(n=1, prims=[(rx, None), (G, None)], append=0.7, rate=0.8, target=T1),
        "defaults": dict(n=1, prims=[(rx, None), (G, None)], target=T1, default_args=True),
        "twoq": dict(n=2, prims=[(("cnot",), None), (G, None)], rate=1.5),
        "allowed": dict(n=2, prims=[(("cnot",), [(0, 1), (1, 0)]), (G, [(1,)]), (rx, [])], rate=1.5, probs=[0.3, 0.3, 0.4]),
        "param": dict(n=1, prims=[(("p", "te", 1, 2, -1.0, 2.0), None), (rx, None)], rate=1.0, target=T1),
        "thresh": dict(n=1, prims=[(rx, None), (h, None)], rate=2.0, threshold=0.93,
                       target=("word", (((("rx", 1.3)), (0,)),))),
        "exact": dict(n=1, prims=[(rx, None), (h, None)], rate=2.0, threshold=1.0,
                      target=("word", ((rx, (0,)), (h, (0,))))),
        "L11": dict(n=1, prims=[(rx, None), (G, None)], counts=[1, 1], rate=2.0, target=T1),
        "L2": dict(n=1, prims=[(rx, None), (G, None)], counts=[2, 0], rate=1.0, target=T1, append=0.6),
        "L3q": dict(n=2, prims=[(("cnot",), None), (rx, None)], counts=[1, 1], rate=2.0),
        "Lcap": dict(n=1, prims=[(rx, None)], counts=[1], rate=9.0, target=T1),
        "Lexact": dict(n=1, prims=[(rx, None), (h, None)], counts=[1, 1], rate=2.0, threshold=None,
                       target=("word", ((rx, (0,)), (h, (0,))))),
        "stuck": dict(n=1, prims=[(("x",), None), (h, None)], rate=0.03, target=("t",), append=0.6),
        "Lstuck": dict(n=1, prims=[(("x",), None), (h, None)], rate=0.03, target=("t",), append=0.6, counts=[1, 1]),
        "four": dict(n=4, prims=[(("xx", 0.05), [(3, 1)]), (("rx", 0.1), [(2,), (0,)])], rate=100.0, target=("word", ((("rx", 0.333), (2,)), (("xx", 0.217), (3, 1))))),
        "five": dict(n=5, prims=[(("xx", 0.05), [(4, 1)]), (("rx", 0.05), [(2,), (0,)])], rate=400.0, target=("word", ((("rx", 0.333), (2,)), (("xx", 0.217), (4, 1))))),
        "five2": dict(n=5, prims=[(("gen", 4, 1), [(4, 1)]), (("gen", 8, 1), [(2, 0, 3)])], rate=20.0),
        "six": dict(n=6, prims=[(("xx", 0.02), [(5, 1)]), (("rx", 0.03), [(2,), (0,)])], rate=1500.0, target=("word", ((("rx", 0.222), (2,)), (("xx", 0.11), (5, 1))))),
        "six2": dict(n=6, prims=[(("xx", 0.02), [(5, 1)]), (("rx", 0.03), [(2,)])], rate=1e7, target=("word", ((("rx", 0.222), (2,)), (("xx", 0.11), (5, 1))))),
        "seven": dict(n=7, prims=[(("rx", 0.01), [(6,)])], rate=7000.0, target=("word", ((("rx", 0.105), (6,)),))),
        "Lfive": dict(n=5, prims=[(("xx", 0.05), [(4, 1)]), (("rx", 0.05), [(2,), (0,)])], counts=[1, 1], rate=400.0, target=("word", ((("rx", 0.333), (2,)), (("xx", 0.217), (4, 1))))),
        "bigrate": dict(n=1, prims=[(("rx", 0.05), None), (("rx", -0.04), None)], rate=1e9, target=("rx", 0.3053)),
        "bigrate2": dict(n=2, prims=[(("rx", 0.05), [(0,)]), (("xx", -0.04), [(1, 0)])], rate=1e30, target=("word", ((("rx", 0.333), (0,)),))),
        "tiny": dict(n=1, prims=[(rx, None), (h, None)], rate=1e-6, target=T1),
        "three": dict(n=3, prims=[(("cnot",), [(0, 2), (2, 1)]), (G, None)], rate=0.5),
    }


def tasks(tier):
    big = tier == "thorough"
    steps = dict(two=4, rate0=2, rate3=3, cap=3, probs=3, append1=4, append0=4, append7=3, defaults=3, twoq=3, allowed=3,
                 param=2, thresh=3, exact=3, L11=3, L2=3, L3q=2, Lcap=4, Lexact=3, three=2, four=3, five=3, five2=2, six=3, six2=3, seven=3, Lfive=1, bigrate=4, bigrate2=3, tiny=3)
    t = []
    for name, s in steps.items():
        cs = "halves" if name == "param" else "std"
        for k in range(0, s + (1 if big else 0) + 1):
            t.append(("law", dict(name=name, budget=k, cells=cs)))
    late = (1, 5, 17, 40, 120) if not big else (1, 2, 3, 5, 8, 13, 17, 31, 32, 33, 40, 63, 64, 65, 99, 100, 101, 120, 200, 400)
    for name in ("two", "defaults", "append7", "cap", "rate0", "twoq", "L11", "L3q", "Lcap", "three", "four", "five", "six", "seven", "bigrate", "Lfive"):
        for pol in (["pattern", 1, 0], ["mixed", 1, 4], ["mixed", 2, 4], ["mixed", 3, 3], ["mixed", 4, 5]) if big else (
                ["mixed", 2, 4], ["mixed", 4, 5]):
            t.append(("late", dict(name=name, steps=late, policy=pol)))
    for name in ("append0", "two", "cap", "twoq", "L11", "stuck", "Lstuck"):
        t.append(("late", dict(name=name, steps=(1, 31, 35, 70, 151, 260) if not big else (1, 20, 30, 31, 32, 35, 50, 51, 70, 101, 151, 260, 501, 1001), policy=["mixed", 5, 1])))
    t.sort(key=lambda x: -x[1].get("budget", 3))
    return t


def law(task, name, budget, cells):
    cfg = Config(**cfgs()[name])
    cs = HALVES if cells == "halves" else DEFAULT_CELLS
    want = cfg.ref_dist(budget, cs)
    got = comp.code_dist(cfg, lambda: cfg.call(budget), task, cells=cs)
    task.states += len(want)
    task.case = None
    comp.compare_dist(task, got, want, f"{budget} steps of {name}")
    for k in want:
        task.outcome((name, budget, k))
    for k in list(want)[-1:]:
        task.sample(dict(config=name, steps=budget, outcome=k, probability=want[k]))


def late(task, name, steps, policy):
    """the law of one step after a long fixed history"""
    d = dict(cfgs()[name])
    cfg = Config(**d)
    for k in steps:
        pol = getattr(comp, policy[0])(*policy[1:])
        base, res = comp.long_run(cfg, lambda: cfg.call(k), pol)
        labs, costs = comp.observe(cfg, res)
        task.case = dict(name=name, steps=k, policy=policy)
        if len(costs) != k:
            task.violation(f"{len(costs)} costs after {k} steps that cannot meet the threshold", case=task.case)
        want = {}
        for (s, c), p in cfg.step_dist(labs, k + 1).items():
            want[(s, tuple(comp.rc(x) for x in costs) + (c,))] = p
        got = comp.code_dist(cfg, lambda: cfg.call(k + 1), task, base=base, default=pol)
        task.states += len(want)
        comp.compare_dist(task, got, want, f"step {k + 1} of {name} after path {policy}")
        task.outcome((name, k, tuple(policy), len(want)))
        cfg._prod = {(): cfg._prod[()]} if len(cfg._prod) > 50000 else cfg._prod
