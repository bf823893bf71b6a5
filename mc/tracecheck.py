"""Step-by-step observation of compilations through the public interface only.

The sequence held after k steps is what the same execution (same random choices) returns when the maximum
number of steps is k; so the trees for limits 0..n together show every step of every execution.
"""
from . import comp, rng
from .choice import DEFAULT_CELLS, Path


def step_ok(cfg, a, b):
    """may one step lead from labels a to labels b?  (None or message)"""
    if a == b:
        return None
    k = 1 if cfg.counts is None else sum(cfg.counts)
    if len(b) == len(a) + k and (b[k:] == a or b[:-k] == a):
        return None
    if len(b) == len(a) - k and (a[k:] == b or a[:-k] == b):
        return None
    unit = "entry" if cfg.counts is None else "whole layer"
    return f"a step changed the sequence by more than one {unit} at one end: {a} -> {b}"


def layers_ok(cfg, labs):
    k = sum(cfg.counts)
    if k == 0:
        return None if not labs else "entries although layers are empty"
    if len(labs) % k:
        return f"{len(labs)} entries are not whole layers of {k}"
    for j in range(0, len(labs), k):
        kinds = [x[0] for x in labs[j:j + k]]
        if [kinds.count(i) for i in range(len(cfg.counts))] != list(cfg.counts):
            return f"layer {j // k} holds primitives {kinds} instead of counts {cfg.counts}"
    return None


def judge(cfg, held, costs, budget):
    """held: labels after 0..m steps of one execution; None or message"""
    m = len(costs)
    if m > budget:
        return f"{m} costs reported with a limit of {budget} steps"
    if len(held) != m + 1:
        return f"{m} costs but {len(held) - 1} steps observed"
    if held[0] != ():
        return "the search does not start from the empty sequence"
    for j in range(m):
        if cfg.met(held[j]):
            return f"went on after step {j} although the threshold was met"
        e = step_ok(cfg, held[j], held[j + 1])
        if e:
            return f"step {j + 1}: {e}"
    if m < budget and not cfg.met(held[m]):
        return f"stopped after {m} of {budget} steps although the threshold is not met"
    for j in range(m):
        if not abs(costs[j] - cfg.cost(held[j + 1])) < 1e-7:
            return (f"cost {j + 1} is {costs[j]:.9g}, but the sequence held after that step is at distance "
                    f"{cfg.cost(held[j + 1]):.9g}")
    if cfg.counts is not None:
        for h in held:
            e = layers_ok(cfg, h)
            if e:
                return e
    return None


def full_tree(task, cfg, budget, cells=DEFAULT_CELLS):
    """all executions with limits 0..budget, joined by their choices"""
    leaves = []
    for k in range(budget + 1):
        d = {}
        for path, labs, costs, res in comp.tree(cfg, lambda: cfg.call(k), task, cells=cells):
            d[path.trace()] = (labs, costs)
            if not res.total_elapsed_time >= 0.0:
                task.violation("negative elapsed time", case=task.case)
        leaves.append((d, sorted({len(t) for t in d})))
    done = set()
    for t, (labs, costs) in leaves[budget][0].items():
        held = []
        for k in range(len(costs) + 1):
            d, lens = leaves[min(k, budget)]
            hit = [d[t[:n]] for n in lens if n <= len(t) and t[:n] in d]
            if len(hit) != 1:
                task.violation(f"no unique execution limited to {k} steps agrees with the choices of the longer one",
                               case=dict(choices=t))
                return
            held.append(hit[0][0])
            if [round(c, 12) for c in hit[0][1]] != [round(c, 12) for c in costs[:k]]:
                task.violation(f"the costs of the first {k} steps depend on the step limit", case=dict(choices=t))
        e = judge(cfg, held, costs, budget)
        task.states += 1
        if e:
            task.violation(e, case=dict(choices=t, budget=budget, held=held, costs=costs))
        task.outcome((tuple(held), budget))
        done.add(len(costs))
        if len(costs) == budget:
            task.sample(dict(held=held, costs=costs), 1)
    task.case = None
    return done


def long_path(task, cfg, budget, policy, positions=()):
    """one execution, observed at every step"""
    held, costs = [], None
    for k in range(budget + 1):
        path = Path(positions, policy)
        with rng.controlled(path):
            res = cfg.call(k)
        labs, cs = comp.observe(cfg, res)
        task.traces += 1
        task.transitions += len(cs)
        if costs is not None and [round(c, 12) for c in cs[:len(costs)]] != [round(c, 12) for c in costs]:
            return "the costs of earlier steps depend on the step limit", held
        if len(cs) < k:
            break
        costs = cs
        held.append(labs)
    return judge(cfg, held, costs, k if len(cs) < k else budget), held


def deviating(task, cfg, budget, policy, deviations=1):
    """all executions with at most `deviations` departures from the policy, each observed at every step"""
    n = 0
    for path, labs, costs, res in comp.tree(cfg, lambda: cfg.call(budget), task, default=policy, deviations=deviations):
        pos = path.positions()
        task.case = dict(choices=path.trace(), budget=budget)
        e, held = long_path(task, cfg, budget, policy, pos)
        task.states += 1
        n += 1
        if e:
            task.violation(e, case=task.case)
        task.outcome((tuple(held[-1:]), len(costs)))
    return n
