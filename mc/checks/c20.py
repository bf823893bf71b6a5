"""C20 Trotter sequences: every term exactly once per step; random orders uniform and independent."""
import itertools
import math

import numpy as np

from mc import comp, ham, ref, rng
from mc.choice import explore
from mc.comp import term_matrix

BOUND = {"quick": "29 term sets (1-12 terms, 1-5 qubits), 5 times, 1-8, 20 and 64 steps in order; every number of steps 1-130 for 3 sets;"
                  " random order: every outcome and its exact "
                  "probability for all sets with terms!^steps <= 1500, up to 4 steps; fixed executions of 40 random-order steps",
         "thorough": "as quick with terms!^steps <= 20000 and every number of steps 1-512"}


def tasks(tier):
    big = tier == "thorough"
    t = []
    for name in ham.SETS:
        t.append(("ordered", dict(name=name, steps=list(range(1, 13 if big else 9)) + [20, 64] + ([129, 256] if big else []))))
        f = math.factorial(len(ham.SETS[name]))
        for k in range(1, 5):
            if f ** k <= (20000 if big else 1500) and (f > 1 or k < 3):
                t.append(("randomised", dict(name=name, steps=k)))
        if name in ("x", "xz", "close"):
            for k in range(8):
                t.append(("every_step", dict(name=name, counts=list(range(1 + k, 513 if big else 131, 8)))))
        t.append(("long_random", dict(name=name, steps=200 if big else 40)))
    t.sort(key=lambda x: x[0] != "randomised")
    return t


def label_ok(f, terms, i, t):
    """is the entry labelled with its term and its time?"""
    v = f.get_parameter_value("t")
    return v is not None and abs(float(v[0]) - t) < 1e-9 * max(1, abs(t)) and not v[1] and \
        f.get_operation_name() in ["H" + str(j) for j in range(len(terms)) if terms[j] == terms[i]]


def ident(seq, terms, n, dt, cache=None, product=True):
    """index of the term each entry applies (the first of equal ones)"""
    out = []
    cache = {} if cache is None else cache
    for m, f in ham.full_entries(seq, n, product):
        key = (m.tobytes(), f.get_display_name(), repr(f.get_parameter_value("t")))
        if key in cache:
            out.append(cache[key])
            continue
        hits = [i for i, t in enumerate(terms) if ref.phase_diff(m, ref.expm_h(term_matrix(t), dt)) < 1e-7]
        named = [i for i in hits if label_ok(f, terms, i, dt)]
        if not hits:
            raise comp.Bad(f"an entry ({f.get_display_name()}) is not the evolution of a single term for time/steps")
        if not named:
            raise comp.Bad(f"an entry is labelled {f.get_display_name()!r}, but it is the evolution of term {hits[0]} for {dt}")
        cache[key] = min(named, key=lambda i: terms.index(terms[i]))
        out.append(cache[key])
    return [terms.index(terms[i]) for i in out]


def ordered(task, name, steps):
    terms = ham.terms_of(name)
    n = ham.qubits(terms)
    for shared in (False, True) if len(set(terms)) < len(terms) else (False,):
        h = ham.lib(terms, shared)
        for t in (0.9, -0.4, 2.7, 1e-3, 11.0):
            for k in steps:
                if k > 12 and t != 0.9 and t != -0.4:
                    continue
                for kw in ({}, dict(randomize=False)):
                    if kw and k > 4:
                        continue
                    task.case = dict(name=name, time=t, steps=k)
                    seq = h.get_trotter_sequence(t, k, **kw)
                    got = ident(seq, terms, n, t / k)
                    want = [terms.index(x) for x in terms] * k
                    task.traces += 1
                    task.transitions += len(got)
                    task.outcome((name, t, k))
                    if got != want:
                        task.violation(f"terms applied: {got[:12]}..., should be {want[:12]}... ({len(got)} of {len(want)})", case=task.case)
        task.states += len(steps)
    # time 0: all entries are the identity, still one per term and step
    seq = h.get_trotter_sequence(0.0, 3)
    if seq.get_length() != 3 * len(terms) or ref.phase_diff(seq.product().get_matrix(), np.eye(2 ** n)) > 1e-9:
        task.violation("zero time is not the identity applied once per term and step", case=dict(name=name))
    task.sample(dict(name=name, steps=k, order=got[:6]), 1)


def every_step(task, name, counts):
    """all numbers of steps, whatever rounding does to time / steps"""
    terms = ham.terms_of(name)
    n = ham.qubits(terms)
    h = ham.lib(terms)
    order = [terms.index(x) for x in terms]
    for k in counts:
        for t in (0.9, 1.0, -3.3, 1, 100.0):
            task.case = dict(name=name, time=t, steps=k)
            for rnd in (False, True) if t in (0.9, 100.0) else (False,):
                if rnd:
                    _, seq = comp.long_run(None, lambda: h.get_trotter_sequence(t, k, True), comp.mixed(k, 3))
                else:
                    seq = h.get_trotter_sequence(t, k)
                got = ident(seq, terms, n, t / k, {}, k % 8 == 0)
                want = sorted(order * k) if rnd else order * k
                task.traces += 1
                task.transitions += len(got)
                if (sorted(got) if rnd else got) != want:
                    task.violation(f"terms applied: {got[:12]}..., should be {want[:12]}... ({len(got)} of {len(want)})", case=task.case)
    task.states += len(counts)


def randomised(task, name, steps):
    terms = ham.terms_of(name)
    n = ham.qubits(terms)
    t = 0.9
    st, got = {}, {}

    def go(path):
        with rng.controlled(path):
            return ham.lib(terms).get_trotter_sequence(t, steps, True)
    for path, seq in explore(go, stats=st):
        task.case = dict(name=name, steps=steps, choices=path.trace())
        k = tuple(ident(seq, terms, n, t / steps))
        got[k] = got.get(k, 0.0) + path.weight
    task.traces += st["executions"]
    task.transitions += st["choices"]
    one = {}
    perms = list(itertools.permutations([terms.index(x) for x in terms]))
    for p in perms:
        one[p] = one.get(p, 0.0) + 1 / len(perms)
    want = {(): 1.0}
    for _ in range(steps):
        want = {a + b: w * p for a, w in want.items() for b, p in one.items()}
    task.states += len(want)
    comp.compare_dist(task, got, want, f"random order of {steps} steps of {name}")
    task.outcomes.update(hash((name, k)) for k in want)


def long_random(task, name, steps):
    terms = ham.terms_of(name)
    n = ham.qubits(terms)
    T = len(terms)
    for pol in (comp.mixed(1, 4), comp.pattern(1, 0)):
        _, seq = comp.long_run(None, lambda: ham.lib(terms).get_trotter_sequence(-1.4, steps, randomize=True), pol)
        task.case = dict(name=name, steps=steps)
        got = ident(seq, terms, n, -1.4 / steps)
        base = sorted(terms.index(x) for x in terms)
        task.traces += 1
        task.states += 1
        task.transitions += len(got)
        bad = [j for j in range(steps) if sorted(got[j * T:(j + 1) * T]) != base]
        task.outcome((name, steps, tuple(got)))
        if bad or len(got) != T * steps:
            task.violation(f"step {bad[:1]} does not apply every term exactly once", case=task.case)
