"""Explicit-state breadth-first search over histories of operations on real objects.

spec: init() -> world; ops(world) -> enabled operations (hashable, simplest first);
      apply(world, op) -> None or a violation message;   check(world) -> None or a violation message
world: an object with attributes `live` (real objects) and `model` (reference, with key()).

Every transition is a fresh execution of the whole history on new objects (nothing is snapshotted or
copied), so the states found are states the implementation really reaches.  A state reached again by
re-execution must be the same state.  Should it not be (the objects hold a time stamp, say), states are
told apart by the reference state and the last three operations instead, which bounds the histories merged.
"""
import collections
import time

from .canon import digest
from .choice import Divergence


LIMIT = dict(quick=150, thorough=3 * 3600)      # beyond: the search is reported as cut, which is not a verdict
START = time.monotonic()                        # of the check: its workers are forked


def allowance(tier):
    """seconds for one search; less when earlier searches did not end in theirs (states that never recur)"""
    gone = time.monotonic() - START
    return LIMIT[tier] if tier != "quick" or gone < 200 else 30 if gone < 600 else 5


def key(world):
    return digest(world.live, world.model.key())


def replay(spec, hist):
    w = spec.init()
    for op in hist:
        m = spec.apply(w, op)
        if m:
            return w, m
    return w, None


def search(task, spec, max_states=60000, max_depth=60, case=None, max_seconds=None):
    max_seconds = max_seconds or allowance(task.tier or "quick")
    try:
        _search(task, spec, max_states, max_depth, case, max_seconds, lambda w, hist: key(w))
    except Divergence:
        task.count("layout_dependent")
        _search(task, spec, max_states, max_depth, case, max_seconds, lambda w, hist: digest(w.model.key(), list(hist[-3:])))


def _search(task, spec, max_states, max_depth, case, max_seconds, key):
    t0 = time.monotonic()
    w = spec.init()
    k0 = key(w, ())
    m = spec.check(w)
    if m:
        task.violation(m, case=dict(history=[], **(case or {})))
    seen = {k0}
    frontier = collections.deque([((), k0)])
    depth = 0
    while frontier:
        hist, k = frontier.popleft()
        depth = max(depth, len(hist))
        if len(hist) >= max_depth or len(seen) > max_states or time.monotonic() - t0 > max_seconds:
            task.count("cut")
            break
        w, m = replay(spec, hist)
        if m or key(w, hist) != k:
            raise Divergence(f"history {hist} does not reproduce the explored state ({m})")
        task.traces += 1
        for op in spec.ops(w):
            task.case = dict(history=list(hist) + [op], **(case or {}))
            w, _ = replay(spec, hist)
            m = spec.apply(w, op)
            task.transitions += 1
            k2 = key(w, hist + (op,))
            new = k2 not in seen
            if new and not m:
                m = spec.check(w)
            if m:
                task.violation(m, case=task.case)
                continue
            if new:
                seen.add(k2)
                frontier.append((hist + (op,), k2))
                if len(hist) >= 3:
                    task.sample([list(map(str, hist + (op,)))], 1)
    task.states += len(seen)
    task.extra["max_depth"] = max(task.extra.get("max_depth", 0), depth)
    task.outcomes.update(hash(s) for s in seen)
    task.case = None
