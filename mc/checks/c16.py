"""C16 exact distribution of random entries and layers."""
import numpy as np

from mc import comp, rng
from mc.choice import DEFAULT_CELLS, TOP, explore
from mc.checks.c12 import CFG as WIDE, probe
from mc.comp import Config, HALVES
from stoqcompiler.compiler import Compiler

RX, G, H, CX, T, CCX = ("rx", 0.9), ("gen", 2, 1), ("h",), ("cnot",), ("t",), ("ccnot",)
G4, G8 = ("gen", 4, 1), ("gen", 8, 1)
TE = ("p", "te", 1, 2, -1.0, 2.5)
FINE = tuple((x, 1 / 8) for x in (0.0, 1 / 7, 2 / 7, 3 / 7, 4 / 7, 5 / 7, 6 / 7, TOP))

ENTRY = {k: d for k, (d, _) in WIDE.items() if "counts" not in d}
ENTRY.update({
    "six": dict(n=2, prims=[(RX, None), (G, None), (H, None), (T, [(1,)]), (CX, None), (G4, [(0, 1)])],
                probs=[0.05, 0.1, 0.15, 0.2, 0.25, 0.25]),
    "skew": dict(n=1, prims=[(RX, None), (G, None)], probs=[0.999, 0.001]),
    "leave": dict(n=2, prims=[(RX, []), (G, [(1,)]), (H, [(0,), (1,)]), (T, [])], probs=[0.1, 0.2, 0.3, 0.4]),
    "leavezero": dict(n=2, prims=[(RX, []), (G, [(1,)]), (H, [(0,)])], probs=[0.5, 0.0, 0.5]),
    "unrestr4of4": dict(n=4, prims=[(("gen", 16, 1), None)]),
    "unrestr2of5": dict(n=5, prims=[(G4, None)]),
    "threes": dict(n=4, prims=[(G8, [(0, 1, 2), (2, 1, 0), (3, 0, 1)]), (G, [(3,), (3,), (2,)])]),
    "xyz": dict(n=1, prims=[(("p", "xyz"), None)]),
    "tefine": dict(n=1, prims=[(TE, None)]),
    "tinyleave": dict(n=2, prims=[(RX, []), (G, [(1,)]), (H, [(0,)]), (T, None)], probs=[0.004, 0.0, 0.5, 0.496]),
    "tinyleave2": dict(n=1, prims=[(RX, []), (G, None), (H, None)], probs=[1e-9, 0.0, 1 - 1e-9]),
    "tinyleave3": dict(n=1, prims=[(RX, None), (G, []), (H, None), (T, [])], probs=[1e-7, 0.3, 0.7 - 1e-7, 0.0]),
    "bigleave": dict(n=1, prims=[(RX, []), (G, None), (H, None)], probs=[1 - 1e-6, 4e-7, 6e-7]),
    "nearone": dict(n=1, prims=[(RX, []), (G, None), (H, None), (T, None)], probs=[0.999, 0.0, 0.0004, 0.0006]),
    "tinyonly": dict(n=1, prims=[(RX, None), (G, None), (H, None)], probs=[1e-12, 1e-6, 1 - 1e-6 - 1e-12]),
    "zeroleave": dict(n=1, prims=[(RX, []), (G, None), (H, None)], probs=[0.0, 0.3, 0.7]),
    "many20": dict(n=3, prims=[(("rx", 0.1 * k + 0.1), [(2 - k % 3,)] if k % 4 else []) for k in range(20)], probs=[(k % 5) / 40 for k in range(20)]),
    "many64": dict(n=1, prims=[(("rz", 0.04 * k + 0.1), None) for k in range(64)], probs=[(1 + k % 7) / sum(1 + j % 7 for j in range(64)) for k in range(64)]),
    "many40free": dict(n=2, prims=[(("rz", 0.04 * k + 0.1), [(k % 2,)]) for k in range(40)]),
    "unrestr3of5": dict(n=5, prims=[(G8, None)]),
    "unrestr2of6": dict(n=6, prims=[(G4, None), (RX, [(5,)])]),
    "unrestr1of9": dict(n=9, prims=[(G, None)]),
    "cu": dict(n=2, prims=[(("p", "custom", -0.3, -0.1, 5.0, 5.5), None), (TE, [(0,)])], probs=[0.75, 0.25]),
})
LAYER = {
    "L1": dict(n=1, prims=[(RX, None)], counts=[1]),
    "L21": dict(n=1, prims=[(RX, None), (G, None)], counts=[2, 1]),
    "L22": dict(n=1, prims=[(RX, None), (G, None)], counts=[2, 2]),
    "L111": dict(n=1, prims=[(RX, None), (G, None), (H, None)], counts=[1, 1, 1]),
    "L103": dict(n=1, prims=[(RX, None), (G, None), (H, None)], counts=[1, 0, 3]),
    "L0": dict(n=1, prims=[(RX, None), (G, None)], counts=[0, 0]),
    "L11q": dict(n=2, prims=[(CX, None), (G, None)], counts=[1, 1]),
    "L12q": dict(n=2, prims=[(CX, [(1, 0)]), (G, None)], counts=[1, 2]),
    "Lr": dict(n=3, prims=[(G8, None), (CX, [(0, 2), (1, 2)])], counts=[1, 1]),
    "Lp": dict(n=1, prims=[(TE, None), (RX, None)], counts=[1, 2]),
    "L5": dict(n=1, prims=[(RX, None)], counts=[5]),
    "L4111": dict(n=1, prims=[(RX, None), (G, None), (H, None), (T, None)], counts=[3, 1, 1, 1]),
    "L32": dict(n=1, prims=[(RX, None), (G, None)], counts=[3, 2]),
}
BIG = {      # layers of many gates: no outcome reached is more likely than it should be
    "B9": dict(n=1, prims=[(RX, None), (G, None)], counts=[5, 4]),
    "B12": dict(n=2, prims=[(CX, None), (G, None), (RX, [(1,)])], counts=[4, 5, 3]),
    "B33": dict(n=1, prims=[(RX, None), (G, None), (H, None)], counts=[16, 0, 17]),
    "B40": dict(n=3, prims=[(("rx", 0.1 * k + 0.1), None) for k in range(10)], counts=[4] * 10),
    "Bp": dict(n=2, prims=[(TE, [(1,)]), (("p", "xx"), [(1, 0)])], counts=[3, 2]),
    "Bp2": dict(n=3, prims=[(("p", "xx"), [(2, 0)]), (TE, [(2,)]), (("p", "xy"), [(1,)])], counts=[2, 2, 2]),
    "Bp3": dict(n=2, prims=[(TE, [(0,), (1,)]), (("p", "xx"), None)], counts=[4, 2]),
}
BOUND = {"quick": "every outcome and its exact probability for 55 sets of primitives (1-9 qubits, up to 64 primitives, probabilities down to 1e-12, list/array form, probabilities as list, "
                  "tuple or array) and 13 layer compositions of up to 6 gates; 7 of 5-40 gates, all single deviations from 3 executions each; 2 and 3 draws in a row",
         "thorough": "as quick plus layers of 6 gates and 4 draws in a row"}


def tasks(tier):
    t = []
    for name in ENTRY:
        for form in ("list", "array", "tuple"):
            t.append(("entry", dict(name=name, form=form)))
    for name in LAYER:
        t.append(("layer", dict(name=name)))
    for name in ("zeroprob2", "leave", "ordered", "dup", "skew"):
        t.append(("repeat", dict(name=name, draws=4 if tier == "thorough" and name in ("leave", "skew") else 3 if name in ("leave", "skew") else 2)))
    for name in ("zeroprob4", "zeroprob5", "leave", "six", "onelist", "ordered"):
        t.append(("many", dict(name=name, draws=150 if tier == "thorough" else 40)))
    for name in ("L21", "L12q", "L111", "Lr"):
        t.append(("many", dict(name=name, draws=40 if tier == "thorough" else 12)))
    for name in BIG:
        for pol in range(6 if tier == "thorough" else 3):
            t.append(("big_layer", dict(name=name, pol=pol)))
    for name in ("L21", "L12q"):
        t.append(("repeat_layer", dict(name=name)))
    if tier == "thorough":
        LAYER["L411"] = dict(n=1, prims=[(RX, None), (G, None), (H, None)], counts=[4, 1, 1])
        t.append(("layer", dict(name="L411")))
    return t


def args(cfg, form):
    prims = cfg.lib_prims()
    probs = cfg.probs
    if form == "array":
        arr = np.empty(len(prims), dtype=object)
        arr[:] = list(prims)
        prims, probs = arr, None if probs is None else np.array(probs)
    elif form == "tuple" and probs is not None:
        probs = tuple(probs)
    return prims, probs


def dist(task, run, cells):
    out, st = {}, {}

    def go(path):
        with rng.controlled(path):
            return run()
    for path, lab in explore(go, cells=cells, stats=st, max_leaves=400000):
        out[lab] = out.get(lab, 0.0) + path.weight
    task.traces += st["executions"]
    task.transitions += st["choices"]
    return out


def ident(cfg, e):
    lab = cfg.ident_entry(e)
    if lab is None:
        raise comp.Bad(f"random entry {e.get_full_unitary(cfg.dim).get_display_name()} on {list(e.get_apply_to())} is not permitted")
    return lab


def cells_for(name, cfg):
    if name == "tefine":
        return FINE
    return DEFAULT_CELLS


def entry(task, name, form):
    cfg = Config(**ENTRY[name])
    cells = cells_for(name, cfg)

    def run():
        prims, probs = args(cfg, form)
        b = (probe(prims), repr(probs))
        e = Compiler.create_random_sequence_entry(cfg.dim, prims, probs) if probs is not None else \
            Compiler.create_random_sequence_entry(cfg.dim, prims)
        if (probe(prims), repr(probs)) != b:
            raise comp.Bad("the primitives or probabilities passed in were changed")
        return ident(cfg, e)
    want = {}
    for p, lab in cfg.entry_dist(cells):
        want[lab] = want.get(lab, 0.0) + p
    got = dist(task, run, cells)
    task.states += len(want)
    comp.compare_dist(task, got, want, f"random entry of {name} ({form})")
    task.outcomes.update(hash((name, form, k)) for k in want)
    task.sample(dict(name=name, outcomes=len(want), first=list(want.items())[0]), 1)


def many(task, name, draws):
    """long runs of draws: no outcome reached has more than its exact probability"""
    layers = name in LAYER
    cfg = Config(**(LAYER if layers else ENTRY)[name])

    def run():
        prims, probs = args(cfg, "list")
        if layers:
            counts = dict(zip(prims, cfg.counts))
            return tuple(tuple(ident(cfg, e) for e in Compiler.create_random_layer(cfg.dim, counts)) for _ in range(draws))
        return tuple(ident(cfg, Compiler.create_random_sequence_entry(cfg.dim, prims, probs)) for _ in range(draws))
    one = {}
    for p, lab in cfg.layer_dist(DEFAULT_CELLS) if layers else cfg.entry_dist():
        one[lab] = one.get(lab, 0.0) + p
    for k in range(2):
        comp.compare_bound(task, lambda path: run(), lambda labs: [one.get(x, 0.0) for x in labs], comp.mixed(k + 1, 4), f"{draws} draws of {name}")
    task.outcome((name, draws))


def layer(task, name):
    cfg = Config(**LAYER[name])

    def run():
        prims = cfg.lib_prims()
        counts = dict(zip(prims, cfg.counts))
        return tuple(ident(cfg, e) for e in Compiler.create_random_layer(cfg.dim, counts))
    want = {}
    for p, labs in cfg.layer_dist(DEFAULT_CELLS):
        want[labs] = want.get(labs, 0.0) + p
    got = dist(task, run, DEFAULT_CELLS)
    task.states += len(want)
    comp.compare_dist(task, got, want, f"random layer {name}")
    task.outcomes.update(hash((name, k)) for k in want)


def big_layer(task, name, pol):
    cfg = Config(**BIG[name])

    def run(path):
        counts = dict(zip(cfg.lib_prims(), cfg.counts))
        return tuple(ident(cfg, e) for e in Compiler.create_random_layer(cfg.dim, counts))
    comp.compare_bound(task, run, cfg.layer_factors, [comp.mixed(1, 4), comp.mixed(2, 4), comp.pattern(1, 0), comp.mixed(3, 3), comp.pattern(2, 1), comp.pattern(0, 0)][pol], f"random layer {name}")
    task.outcome((name, pol))


def repeat(task, name, draws):
    """several entries in a row are independent and identically distributed"""
    cfg = Config(**ENTRY[name])

    def run():
        prims, probs = args(cfg, "list")
        return tuple(ident(cfg, Compiler.create_random_sequence_entry(cfg.dim, prims, probs)) for _ in range(draws))
    one = {}
    for p, lab in cfg.entry_dist():
        one[lab] = one.get(lab, 0.0) + p
    want = {(): 1.0}
    for _ in range(draws):
        want = {k + (lab,): w * p for k, w in want.items() for lab, p in one.items()}
    got = dist(task, run, DEFAULT_CELLS)
    task.states += len(want)
    comp.compare_dist(task, got, want, f"{draws} random entries of {name} in a row")
    task.outcome((name, draws, len(want)))


def repeat_layer(task, name):
    cfg = Config(**LAYER[name])

    def run():
        prims = cfg.lib_prims()
        counts = dict(zip(prims, cfg.counts))
        return tuple(tuple(ident(cfg, e) for e in Compiler.create_random_layer(cfg.dim, counts)) for _ in range(2))
    one = {}
    for p, labs in cfg.layer_dist(DEFAULT_CELLS):
        one[labs] = one.get(labs, 0.0) + p
    want = {(a, b): p * q for a, p in one.items() for b, q in one.items()}
    got = dist(task, run, DEFAULT_CELLS)
    task.states += len(want)
    comp.compare_dist(task, got, want, f"two random layers {name} in a row")
    task.outcome((name, 2, len(want)))
