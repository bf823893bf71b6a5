"""C14 reuse of a Compiler: after any history of earlier compilations, the exact law of a fresh compiler."""
import itertools

import numpy as np

from mc import comp, rng
from mc.canon import form
from mc.choice import DEFAULT_CELLS, Path
from mc.comp import Config, HALVES

RX, G, H, CX = ("rx", 0.9), ("gen", 2, 1), ("h",), ("cnot",)
T1, T2 = ("gen", 2, 7), ("gen", 2, 3)
CFG = {
    "two": dict(n=1, prims=[(RX, None), (G, None)], target=T1, rate=1.0),
    "probs": dict(n=1, prims=[(RX, None), (G, None), (H, [])], probs=[0.25, 0.5, 0.25], target=T1, rate=0.5, append=0.7),
    "cap": dict(n=1, prims=[(RX, None), (H, None)], target=T1, rate=7.0),
    "default": dict(n=1, prims=[(RX, None), (G, None)], target=T1, default_args=True),
    "exact": dict(n=1, prims=[(RX, None), (H, None)], threshold=1.0, rate=1.0, target=("word", ((H, (0,)), (RX, (0,))))),
    "twoq": dict(n=2, prims=[(CX, [(0, 1)]), (G, None)], rate=1.0),
    "sizes": dict(n=2, prims=[(RX, [(0,), (1,)]), (CX, [(0, 1)]), (("gen", 4, 1), [(1, 0)])], probs=[0.6, 0.3, 0.1], rate=1.0),
    "sizes2": dict(n=2, prims=[(("gen", 4, 1), [(1, 0)]), (RX, [(1,)]), (CX, [])], probs=[0.2, 0.5, 0.3], rate=1.0, array=True),
    "param": dict(n=1, prims=[(("p", "te", 1, 2, -1.0, 2.0), None)], rate=1.0, target=T1),
}
# earlier calls: (kind, target index, threshold, limit)
CALLS = [("plain", 0, None, 1), ("plain", 1, None, 3), ("plain", 1, 0.99, 12), ("plain", 2, 0.5, 0), ("layers", 0, None, 3),
         ("layers", 1, 0.9, 6), ("refused", 0, None, 1), ("plain", 3, 1.0, 20), ("same", 0, None, 2), ("wide", 1, 0.9, 4), ("reversed", 0, None, 3), ("narrow", 1, None, 2), ("fewer", 1, None, 2), ("plain", 1, 0.2, 5), ("layers", 1, 0.1, 3)]
LAYERED = [i for i, c in enumerate(CALLS) if c[0] in ("layers", "wide", "reversed", "narrow", "fewer") and i < 13]
BOUND = {"quick": "9 configurations, last call plain and layered; every single earlier call out of 15 (all random outcomes of the last "
                  "compilation, 1-2 steps) and every pair (1 step); earlier calls refused, or interrupted by an exception at each of the first 9 draws of the random source; chains of 30 earlier calls and of 4 calls of 60-1100 steps",
         "thorough": "as quick, last call one step longer; every triple of earlier calls; chains of 150 and of 12 long ones"}


def tasks(tier):
    big = tier == "thorough"
    t = []
    for name in CFG:
        for layered in (False, True):
            n = (2 if not big or name in ("twoq", "param", "probs") else 3) - (1 if layered else 0)
            t.append(("reuse", dict(name=name, layered=layered, length=1, budget=n)))
            if name in ("two", "exact", "default") or big:
                t.append(("reuse", dict(name=name, layered=layered, length=2, budget=2 if big and not layered else 1)))
            if big and name in ("two", "exact"):
                t.append(("reuse", dict(name=name, layered=layered, length=3, budget=1)))
            if layered:
                t.append(("reuse", dict(name=name, layered=True, length=1, budget=3 if big and name in ("two", "exact", "default") else 2, some=LAYERED)))
            t.append(("chain", dict(name=name, layered=layered, calls=150 if big else 30)))
            if name in ("two", "exact", "default", "cap", "twoq") or big:
                t.append(("chain", dict(name=name, layered=layered, calls=12 if big else 4, long=True)))
    for name in CFG:
        for layered in (False, True):
            t.append(("aborted", dict(name=name, layered=layered, budget=2 if big and not layered else 1, depth=16 if big else 9)))
    t.sort(key=lambda x: -x[1].get("length", 0))
    return t


def make(name, layered):
    d = dict(CFG[name])
    if layered:
        d["counts"] = [1] + [0] * (len(d["prims"]) - 2) + [1] if len(d["prims"]) > 1 else [1]
        if name in ("probs", "sizes2"):
            d["counts"] = [1, 1, 0]
    return Config(**d)


def earlier(cfg, compiler, prims, call, k, keep):
    """one earlier call under a fixed policy; remembers its result"""
    kind, ti, thr, lim = call
    tgts = [cfg.lib_target(), comp.Unitary(cfg.dim, comp.ref.generic_unitary(cfg.dim, 11)), comp.Unitary.identity(cfg.dim),
            comp.Unitary(cfg.dim, cfg.matrix(cfg.entry_dist()[0][1]))]
    counts = cfg.counts or ([1] + [0] * (len(cfg.prims) - 1))
    with rng.controlled(Path((), comp.mixed(k + 1, 4))):
        if kind == "refused":
            for bad in (None, "x", cfg.tmat):
                try:
                    compiler.compile(bad, None, 1)
                    raise comp.Bad("a target that is not a unitary object was accepted")
                except comp.Bad:
                    raise
                except Exception:
                    pass
            return
        if kind == "layers":
            r = compiler.compile_layered(tgts[ti], dict(zip(prims, counts)), thr, lim)
        elif kind == "wide":
            r = compiler.compile_layered(tgts[ti], {p: c + 1 for p, c in zip(prims, counts) if p.get_allowed_apply_to() is None or len(p.get_allowed_apply_to())}, thr, lim)
        elif kind == "reversed":
            r = compiler.compile_layered(tgts[ti], dict(reversed(list(zip(prims, counts)))), thr, lim)
        elif kind == "fewer":
            r = compiler.compile_layered(tgts[ti], {p: int(i == 0) for i, p in enumerate(prims)}, thr, lim)
        elif kind == "narrow":
            r = compiler.compile_layered(tgts[ti], {prims[0]: 1}, thr, lim)
        elif kind == "same":
            r = cfg.call(lim, compiler)
        else:
            r = compiler.compile(tgts[ti], thr, lim)
    keep.append((r, snapshot(r)))


def snapshot(r):
    s = r.compiled_sequence
    return repr((s.get_qasm(), [form(e.get_full_unitary(s.get_dimension()).get_matrix()) for e in s.get_sequence_entries()],
                 [round(float(c), 9) for c in r.cost_by_step], form(s.product().get_matrix()), r.total_elapsed_time))


class Stop(BaseException):
    """like KeyboardInterrupt: not an Exception"""


class Failing(Path):
    """a fixed policy whose random source fails at one draw"""

    def __init__(self, policy, at, exc):
        super().__init__((), policy)
        self.at, self.exc = at, exc

    def choose(self, weights, label=""):
        if len(self.points) >= self.at:
            raise self.exc("interrupted")
        return super().choose(weights, label)


def broken(cfg, compiler, prims, how):
    """an earlier call that does not come to a result; True when it was cut short"""
    kind, at, layered, exc, ti = how
    tgt = [cfg.lib_target(), comp.Unitary(cfg.dim, comp.ref.generic_unitary(cfg.dim, 11)), comp.Unitary(2 * cfg.dim, comp.ref.generic_unitary(2 * cfg.dim, 2)),
           comp.Unitary(cfg.dim // 2 or 1, np.eye(cfg.dim // 2 or 1)), None][ti]
    counts = dict(zip(prims, cfg.counts or [1] * len(cfg.prims)))
    try:
        with rng.controlled(Failing(comp.mixed(at + 1, 4), at, exc)):
            thr = {"args": 3.0, "nan": float("nan")}.get(kind, 0.995)
            if layered:
                compiler.compile_layered(tgt, counts, thr, 30)
            else:
                compiler.compile(tgt, thr, 30)
    except (Exception, Stop, KeyboardInterrupt):
        return True
    return False


def aborted(task, name, layered, budget, depth):
    """earlier calls interrupted at every single draw of the random source, or refused: the next compilation is as with a new compiler"""
    cfg = make(name, layered)
    cells = HALVES if name == "param" else DEFAULT_CELLS
    want = cfg.ref_dist(budget, cells)
    hows = [("stop", at, lay, exc, ti) for at in range(depth) for lay in (False, True) for exc in (Stop, KeyboardInterrupt, RuntimeError) for ti in (0, 1)
            if (exc is Stop) or at % 3 == 1]
    hows += [("target", 0, lay, RuntimeError, ti) for lay in (False, True) for ti in (2, 3, 4)] + [(k, 0, lay, RuntimeError, 1) for k in ("args", "nan") for lay in (False, True)]
    hists = [(h,) for h in hows] + [(hows[i], hows[-1 - i]) for i in range(0, len(hows), 5)] + [tuple(hows[i % len(hows)] for i in range(k, k + 25)) for k in (0, 11)]
    hists += [(h, "done") for h in hows[::4]] + [("done", h) for h in hows[::4]]
    for hist in hists:
        case = dict(name=name, layered=layered, earlier=[h if isinstance(h, str) else [getattr(x, "__name__", x) for x in h] for h in hist], steps=budget)
        task.case = case
        n = [0]

        def go():
            prims = cfg.lib_prims()
            c = cfg.compiler(prims)
            keep = []
            for k, h in enumerate(hist):
                if h == "done":
                    earlier(cfg, c, prims, CALLS[1], k, keep)
                else:
                    n[0] += broken(cfg, c, prims, h)
            return cfg.call(budget, c) if not layered else c.compile_layered(cfg.lib_target(), dict(zip(prims, cfg.counts)), cfg.threshold, budget)
        got = comp.code_dist(cfg, go, task, cells=cells)
        task.count("calls_cut_short", n[0])
        task.states += 1
        comp.compare_dist(task, got, want, f"after earlier calls that were refused or interrupted, {case['earlier']}")
        task.outcome((name, layered, str(case["earlier"])))


def reuse(task, name, layered, length, budget, some=None):
    cfg = make(name, layered)
    cells = HALVES if name == "param" else DEFAULT_CELLS
    want = cfg.ref_dist(budget, cells)
    fresh = comp.code_dist(cfg, lambda: cfg.call(budget), task, cells=cells)
    for hist in itertools.product(some or range(len(CALLS)), repeat=length):
        case = dict(name=name, layered=layered, earlier=[CALLS[i] for i in hist], steps=budget)
        task.case = case
        kept = []

        def go():
            prims = cfg.lib_prims()
            c = cfg.compiler(prims)
            keep = []
            for k, i in enumerate(hist):
                earlier(cfg, c, prims, CALLS[i], k, keep)
            r = cfg.call(budget, c) if not layered else c.compile_layered(
                cfg.lib_target(), dict(zip(prims, cfg.counts)), cfg.threshold, budget)
            kept[:] = keep
            return r
        got = {}
        for path, labs, costs, _ in comp.tree(cfg, go, task, cells=cells):
            k = (labs, tuple(comp.rc(c) for c in costs))
            got[k] = got.get(k, 0.0) + path.weight
            for r, snap in kept:
                if snapshot(r) != snap:
                    task.violation("an earlier result was changed by a later compilation", case=case)
        task.states += 1
        task.outcome((name, layered, hist, len(got)))
        comp.compare_dist(task, got, fresh, f"reused after {case['earlier']} compared with a new compiler")
        comp.compare_dist(task, got, want, f"reused after {case['earlier']}")
    task.sample(dict(name=name, layered=layered, earlier=[CALLS[i] for i in hist], outcomes=len(got)), 1)


# long earlier calls
LONG = [("plain", 1, None, 130), ("layers", 1, None, 105), ("plain", 0, None, 260), ("plain", 3, 1.0, 510), ("wide", 1, None, 60), ("same", 0, None, 150), ("plain", 1, 0.5, 1100)]


def chain(task, name, layered, calls, long=False):
    """many earlier calls on one compiler, mixed kinds; then the single next step has the fresh law"""
    cfg = make(name, layered)
    cells = HALVES if name == "param" else DEFAULT_CELLS
    want = cfg.ref_dist(1, cells)
    case = dict(name=name, layered=layered, earlier_calls=calls)
    task.case = case
    prims = cfg.lib_prims()
    c = cfg.compiler(prims)
    keep = []
    for k in range(calls):
        earlier(cfg, c, prims, (LONG if long else CALLS)[(k * 5 + k // 9) % len(LONG if long else CALLS)], k, keep)
        if long or k % 10 == 9 or k == calls - 1:
            def go():
                return cfg.call(1, c) if not layered else c.compile_layered(
                    cfg.lib_target(), dict(zip(prims, cfg.counts)), cfg.threshold, 1)
            got = comp.code_dist(cfg, go, task, cells=cells)
            comp.compare_dist(task, got, want, f"first step after {k + 1} earlier calls")
            task.states += 1
    for r, snap in keep:
        if snapshot(r) != snap:
            task.violation("an earlier result was changed by later compilations", case=case)
    task.outcome((name, layered, calls))
