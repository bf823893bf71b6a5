"""Reference distribution of "random prefix, then compilation of its inverse"."""
from . import comp
from .choice import DEFAULT_CELLS, HarnessError
from .comp import Bad, rc
from . import ref

import numpy as np


def prefix_dist(cfg, units, cells):
    """{labels: probability} of `units` random entries (or layers) in a row"""
    one = [(p, (lab,)) for p, lab in cfg.entry_dist(cells)] if cfg.counts is None else cfg.layer_dist(cells)
    out = {(): 1.0}
    for _ in range(units):
        nxt = {}
        for labs, w in out.items():
            for p, new in one:
                k = labs + tuple(new)
                nxt[k] = nxt.get(k, 0.0) + w * p
        out = nxt
    return out


def whole_dist(cfg, prefixes, budget, cells=DEFAULT_CELLS, skip=False):
    """{(labels of the whole sequence, costs): probability}"""
    out = {}
    for labs, w in prefixes.items():
        if skip:
            out[(labs, ())] = out.get((labs, ()), 0.0) + w
            continue
        sub = cfg.with_target(cfg.prod(labs).conj().T)
        for (s, costs), p in sub.ref_dist(budget, cells).items():
            k = (labs + s, costs)
            out[k] = out.get(k, 0.0) + w * p
    return out


def judge(cfg, labs, costs, plen, budget, skip=False):
    """one whole result; None or message"""
    if len(labs) < plen:
        return f"only {len(labs)} entries, {plen} random ones were asked for"
    if skip:
        if len(labs) != plen or costs:
            return "the inverse is to be skipped, but there are further entries or costs"
        return None
    whole = ref.distance(np.eye(cfg.dim), cfg.prod(labs))
    t = 1.0 if cfg.threshold is None else cfg.threshold
    if len(costs) > budget:
        return f"{len(costs)} steps with a limit of {budget}"
    if len(costs) < budget and not whole <= 1 - t + 1e-7:
        return f"ended after {len(costs)} steps at distance {whole:.6g} from the identity, threshold {t}"
    early = [c for c in costs[:-1] if c < 1 - t - 1e-7]
    if early:
        return "went on although the threshold was met"
    if costs and not abs(costs[-1] - whole) < 1e-7:
        return f"the last cost is {costs[-1]:.9g}, the whole sequence is at distance {whole:.9g} from the identity"
    if not costs and budget > 0 and len(labs) != plen:
        return "entries were added in no steps"
    return None
