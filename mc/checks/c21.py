"""C21 QDRIFT: independent draws of normalised terms with probability coefficient / sum."""
import itertools

import numpy as np

from mc import comp, ham, ref, rng
from mc.choice import explore
from mc.comp import term_matrix

BOUND = {"quick": "every outcome and its exact probability for 29 term sets (1-12 terms, 1-5 qubits; equal and nearly equal coefficients) and 1-6 repetitions with terms^repetitions "
                  "<= 700, 3 times; fixed executions of every number of repetitions 1-130 and up to 300",
         "thorough": "terms^repetitions <= 16000, 1-9 repetitions, 5 times; fixed executions of up to 1000 repetitions"}


def tasks(tier):
    big = tier == "thorough"
    t = []
    for name in ham.SETS:
        for k in range(1, 10 if big else 7):
            if len(ham.SETS[name]) ** k <= (16000 if big else 700) and (len(ham.SETS[name]) > 1 or k < 4):
                for time in (0.8, -1.9, 3.0) + ((0.01, 12.0) if big and k < 5 else ()):
                    t.append(("law", dict(name=name, reps=k, time=time)))
        if name in ("x", "xz", "close", "samec", "two"):
            t.append(("every_count", dict(name=name, counts=list(range(1, 513 if big else 131)))))
        t.append(("long", dict(name=name, reps=(1, 7, 50, 101, 300) + ((1000,) if big else ()))))
    t.sort(key=lambda x: -len(ham.SETS[x[1]["name"]]) ** x[1]["reps"] if x[0] == "law" else 0)
    return t


def weights(terms):
    c = [float(np.max(np.abs(np.linalg.eigvalsh(term_matrix(t))))) for t in terms]
    return c, sum(c)


def ident(seq, terms, n, dt, cache, product=True):
    c, _ = weights(terms)
    out = []
    for m, f in ham.full_entries(seq, n, product):
        key = (m.tobytes(), f.get_display_name(), repr(f.get_parameter_value("t")))
        if key not in cache:
            hits = [i for i, t in enumerate(terms) if ref.phase_diff(m, ref.expm_h(term_matrix(t) / c[i], dt)) < 1e-7]
            if not hits:
                raise comp.Bad(f"an entry ({f.get_display_name()}) is not the evolution of a normalised term for L t/N = {dt:.6g}")
            named = [i for i in hits if str(f.get_operation_name()) in
                     [f"H{j} λ/N" for j in range(len(terms)) if terms[j] == terms[i]]]
            if not named:
                raise comp.Bad(f"an entry is labelled {f.get_operation_name()!r}, but it is term {hits[0]}")
            v = f.get_parameter_value("t")
            if v is None or abs(float(v[0]) - dt) > 1e-9 * max(1, abs(dt)):
                raise comp.Bad(f"an entry's recorded time is {v}, it evolves for {dt}")
            cache[key] = terms.index(terms[named[0]])
        out.append(cache[key])
    return tuple(out)


def law(task, name, reps, time):
    terms = ham.terms_of(name)
    n = ham.qubits(terms)
    c, L = weights(terms)
    st, got, cache = {}, {}, {}
    shared = len(set(terms)) < len(terms)

    def go(path):
        h = ham.lib(terms, shared and time > 1)
        with rng.controlled(path):
            return h.get_qdrift_sequence(time, reps)
    for path, seq in explore(go, stats=st):
        task.case = dict(name=name, reps=reps, time=time, choices=path.trace())
        k = ident(seq, terms, n, L * time / reps, cache)
        if len(k) != reps:
            task.violation(f"{len(k)} entries for {reps} repetitions", case=task.case)
        got[k] = got.get(k, 0.0) + path.weight
    task.traces += st["executions"]
    task.transitions += st["choices"]
    one = {}
    for i, t in enumerate(terms):
        j = terms.index(t)
        one[j] = one.get(j, 0.0) + c[i] / L
    want = {(): 1.0}
    for _ in range(reps):
        want = {a + (b,): w * p for a, w in want.items() for b, p in one.items()}
    task.states += len(want)
    comp.compare_dist(task, got, want, f"QDRIFT of {name}, {reps} repetitions, time {time}")
    task.outcomes.update(hash((name, time, k)) for k in want)
    task.sample(dict(name=name, reps=reps, probabilities=one), 1)


def every_count(task, name, counts):
    """all numbers of repetitions, whatever rounding does to L t / N"""
    terms = ham.terms_of(name)
    n = ham.qubits(terms)
    c, L = weights(terms)
    h = ham.lib(terms)
    for k in counts:
        for time in (1.3, 1, -0.7):
            task.case = dict(name=name, reps=k, time=time)
            _, seq = comp.long_run(None, lambda: h.get_qdrift_sequence(time, k), comp.mixed(k, 4))
            got = ident(seq, terms, n, L * time / k, {}, k % 8 == 0)
            task.traces += 1
            task.transitions += k
            if len(got) != k:
                task.violation(f"{len(got)} entries for {k} repetitions", case=task.case)
    task.states += len(counts)


def long(task, name, reps):
    terms = ham.terms_of(name)
    n = ham.qubits(terms)
    c, L = weights(terms)
    for k in reps:
        for time in (1.3, -0.6):
            for shared in (False, True):
                task.case = dict(name=name, reps=k, time=time)
                _, seq = comp.long_run(None, lambda: ham.lib(terms, shared).get_qdrift_sequence(time, k), comp.mixed(k, 4))
                got = ident(seq, terms, n, L * time / k, {})
                task.traces += 1
                task.transitions += k
                task.outcome((name, k, time, got))
                if len(got) != k:
                    task.violation(f"{len(got)} entries for {k} repetitions", case=task.case)
    task.states += len(reps)
