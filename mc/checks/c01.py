"""C01 product = ordered product of entries, after every history (explicit-state search + long cyclic histories)."""
import itertools

import numpy as np

from mc import bfs, lib, ref
from mc.seqspec import SeqSpec, _tup, run_history

A1 = (("rx", 0.7), (0,))
A2 = (("gen", 2, 1), (0,))
B1 = (("rx", 0.7), (1,))
B2 = (("cnot",), (1, 0))
B3 = (("gen", 4, 2), (1, 0))
B4 = (("gen", 2, 3), (0,))
C1 = (("gen", 4, 1), (2, 0))
C2 = (("ccnot",), (1, 2, 0))
C3 = (("h",), (1,))
ALL = ("product", "inverse", "combine", "text", "undo")

BOUND = {
    "quick": "all reachable states (unbounded history length) of sequences of at most 2-3 entries over 2 gates on "
             "1-3 qubits, 9 start/aliasing configurations; all cyclic histories of period <= 3 over 9 operations, 48 steps; systems of 3-7 qubits: "
             "reachable states (4, 5 qubits), cyclic histories of period <= 2, long sequences emptied or grown to 330 entries (100 above 3 qubits) by every repeated "
             "word of length <= 3, the product compared after every change",
    "thorough": "all reachable states of sequences of at most 3-4 entries over 2-3 gates on 1-3 qubits, 14 configurations; "
                "all cyclic histories of period <= 4 over 9 operations, 60 steps; period <= 2, 1500 steps",
}


def tasks(tier):
    t = []
    big = tier == "thorough"
    L = 3 if big else 2

    def add(**k):
        t.append(("states", dict(spec=k)))
    add(n=1, gates=[A1, A2], max_len=L, ops=("product", "undo"))
    add(n=1, gates=[A1, A2], max_len=L, ops=ALL, other=[A2])
    add(n=2, gates=[B1, B2], max_len=L, ops=("product", "undo"))
    add(n=2, gates=[B3, B4], max_len=L, ops=("product", "undo", "inverse"), shared=True)
    add(n=2, gates=[B1, B3], max_len=2, ops=("product", "undo"), start=[B2, B4], how="list")
    add(n=2, gates=[B3], max_len=3, ops=("product", "undo", "inverse"), start=[B4, B4], how="sharedarray")
    add(n=2, gates=[B3, B4], max_len=3 if big else 2, ops=("product", "ask_inverse", "ask_combine", "ask_entries"), shared=True)
    add(n=3, gates=[C1, C2], max_len=2, ops=("product", "undo"))
    add(n=2, gates=[B2, (("cnot",), (0, 1))], max_len=2, ops=("product", "undo", "inverse"), shared="gate")
    add(n=2, gates=[B4, (("gen", 2, 3), (1,))], max_len=2, ops=("product", "undo"), shared="gate")
    add(n=3, gates=[C2, (("ccnot",), (0, 1, 2)), (("ccnot",), (2, 0, 1))][:3 if big else 2], max_len=2, ops=("product", "undo"), shared="gate")
    add(n=2, gates=[B1, B2], max_len=2, saves=(True, False), ops=("product", "undo"))
    add(n=2, gates=[B4], max_len=3 if big else 2, saves=(True,), ops=ALL, other=[B2])
    if big:
        add(n=3, gates=[C1, C2, C3], max_len=2, ops=("product", "undo", "inverse"))
        add(n=1, gates=[A1], max_len=5, ops=("product", "undo", "inverse"))
        add(n=2, gates=[B1, B3], max_len=2, ops=("product", "undo", "combine", "inverse"), start=[B2], how="array",
            other=[B4], shared=True)
        add(n=1, gates=[A1, A2], max_len=3, saves=(True, False), ops=("product", "undo"))
        add(n=2, gates=[B1, B2, B3], max_len=2, saves=(True,), ops=("product", "undo"), start=[B3, B4], how="appendcached")
    per = 4 if big else 3
    for n, gates in ((1, [A1, A2]), (2, [B3, B1]), (3, [C1, C2])):
        for c in range(24 if big else 4):
            t.append(("cycles", dict(n=n, gates=gates, period=per if n < 3 else per - 1,
                                     steps=60 if big else 48, part=c, parts=24 if big else 4)))
    if big:
        for c in range(4):
            t.append(("cycles", dict(n=2, gates=[B3, B1], period=2, steps=1500, part=c, parts=4)))
    for n in (1, 2):
        for length in (9, 26, 45) if big else (26,):
            for how in ("list", "shared"):
                for c in range(8 if big else 2):
                    t.append(("drain", dict(n=n, length=length, how=how, period=4 if big else 3, part=c, parts=8 if big else 2)))
    t.append(("lengths", dict(n=2, gates=[B3, B1, B2], top=130 if big else 70)))
    for n in (4, 5):
        add(n=n, gates=[MIX[n][0], MIX[n][1]], max_len=2, ops=("product", "undo")) if n < 5 or big else add(n=n, gates=[MIX[n][0]], max_len=2, ops=("product", "undo"))
        add(n=n, gates=[MIX[n][2]], max_len=3 if big else 2, ops=("product", "undo", "inverse"), start=[MIX[n][3]], how="shared", shared=True)
    for n in (3, 4, 5, 6, 7):
        t.append(("cycles", dict(n=n, gates=MIX[n][:2], period=3 if big and n < 6 else 2, steps=24 if n < 6 else 12, part=0, parts=1)))
        t.append(("drain", dict(n=n, length=26 if n < 6 else 11, how="shared", period=3 if big and n < 6 else 2 if n < 6 else 1, part=0, parts=1)))
        t.append(("lengths", dict(n=n, gates=MIX[n], top=40 if n < 6 else 12)))
    for n in (1, 2, 4, 5):
        for kinds in (("append_last", "append_first", "remove_last"), ("append_last", "append_first", "remove_first"), ("append_last", "append_first", "undo")):
            t.append(("marathon", dict(n=n, kinds=kinds, period=(4 if big else 3) if n < 3 else 2, grow=(1200 if big else 330) if n < 3 else 100)))
    return t


def states(task, spec):
    bfs.search(task, SeqSpec(**spec), case=dict(spec=spec))


OPS = [("append_last", 0, True), ("append_first", 0, True), ("append_last", 1, True), ("append_first", 1, False),
       ("remove_first", True), ("remove_last", True), ("undo",), ("product",), ("inverse",)]


def cycles(task, n, gates, period, steps, part, parts):
    """every word of operations of length <= period, repeated"""
    gates = [_tup(g) for g in gates]
    spec = SeqSpec(n, gates, 10 ** 9)
    for p in range(1, period + 1):
        for i, word in enumerate(itertools.product(OPS, repeat=p)):
            if i % parts != part:
                continue
            hist = list(itertools.islice(itertools.cycle(word), steps))
            task.case = dict(n=n, word=word, steps=steps)
            m = run_history(spec, hist, check_every=steps)
            task.traces += 1
            task.transitions += steps
            task.states += 1
            if m:
                task.violation(m, case=task.case)
            task.outcome((n, word))


MIX = {1: [(("gen", 2, k), (0,)) for k in range(5)] + [(("near", 2, 1, 0.01), (0,)), (("named", "I", 2, 6), (0,)), (("i", 2), (0,))],
       2: [(("gen", 4, 2), (1, 0)), (("rx", 0.02), (1,)), (("gen", 2, 3), (0,)), (("cnot",), (0, 1)), (("near", 4, 1, 0.003), (0, 1)), (("named", "I", 4, 3), (0, 1)),
           (("h",), (1,)), (("inv", ("gen", 2, 1)), (1,))]}
MIX[3] = [(("gen", 8, 1), (2, 0, 1)), (("gen", 4, 2), (2, 0)), (("gen", 2, 3), (1,)), (("ccnot",), (1, 2, 0)), (("near", 8, 1, 0.003), (0, 1, 2)), (("inv", ("gen", 4, 3)), (1, 2))]
for _n in range(4, 8):      # larger systems: operations on a few and on all qubits, none of them in order
    MIX[_n] = [(("gen", 4, 2), (_n - 1, 1)), (("gen", 2 ** _n, 1), tuple((3 * i + 1) % _n if _n % 3 else (5 * i + 2) % _n for i in range(_n))), (("gen", 2, 3), (_n - 2,)),
               (("gen", 8, 2), (2, _n - 1, 0)), (("ccnot",), (_n - 1, 0, 2)), (("inv", ("gen", 4, 3)), (0, _n - 2)), (("gms", _n - 1, 0.3), tuple(range(_n - 1, 0, -1))), (("rx", 0.02), (3,))]
DRAIN = [("remove_first", True), ("remove_last", True), ("remove_first", False), ("remove_last", False), ("undo",), ("append_last", 0, False),
         ("append_first", 1, True), ("ask_inverse",)]


def drain(task, n, length, how, period, part, parts):
    """a long sequence of operations that do not commute, product held, changed by every repeated word; checked after every step"""
    pool = MIX[n]
    start = [pool[(i * i + i // 3) % len(pool)] for i in range(length)]
    spec = SeqSpec(n, pool[:2], 10 ** 9, start=start, how=how)
    for p in range(1, period + 1):
        for i, word in enumerate(itertools.product(DRAIN, repeat=p)):
            if i % parts != part or (("ask_inverse",) in word and p > 2):
                continue
            w = spec.init()
            w.live["seq"].product()
            task.case = dict(n=n, length=length, how=how, word=word)
            task.traces += 1
            m = None
            for k in range(length + 3):
                op = word[k % p]
                m = spec.apply(w, op) or spec.apply(w, ("product",))
                task.transitions += 1
                if m:
                    task.violation(f"after {k + 1} steps: {m}", case=task.case)
                    break
            if not m:
                m = spec.check(w)
                if m:
                    task.violation(f"after {length + 3} steps: {m}", case=task.case)
            task.outcome((n, length, how, word))
    task.states += 1


def marathon(task, n, kinds, period, grow):
    """the product held while a sequence grows by every repeated word and shrinks again, far beyond any round number; checked after every change"""
    pool = MIX[n]
    ents = [lib.lib_entry(g) for g in pool]
    fulls = [lib.ref_full(g, n) for g in pool]
    for p in range(1, period + 1):
        for word in itertools.product(kinds, repeat=p):
            if 2 * sum(o.startswith("append") for o in word) <= p or ("undo",) == word[:1]:
                continue
            if len(set(word)) < len(set(kinds)) and p == period and p > 2:      # covered by shorter words, mostly
                continue
            s = lib.UnitarySequence(2 ** n)
            s.product()
            # shrinking must take the entries off in an order of its own
            hist = list(itertools.islice(itertools.cycle(word), grow)) + ["remove_first", "remove_last", "remove_last"] * (grow // 3)
            labs, record = [], None
            want, wrec = np.eye(2 ** n, dtype=complex), None
            task.case = dict(n=n, word=word, grow=grow)
            for k, o in enumerate(hist):
                g = (k * k + k // 3) % len(pool)
                save = k % 3 != 1 or "undo" in word
                if o.startswith("append"):
                    if save:
                        record, wrec = list(labs), want
                    getattr(s, o)(ents[g]) if save else getattr(s, o)(ents[g], save_undo=False)
                    labs.insert(0 if o == "append_first" else len(labs), g)
                    want = want @ fulls[g] if o == "append_first" else fulls[g] @ want
                elif o == "undo":
                    if record is None:
                        continue
                    s.undo()
                    labs, want, record = record, wrec, None
                else:
                    if not labs:
                        continue
                    if save:
                        record, wrec = list(labs), want
                    getattr(s, o)() if save else getattr(s, o)(save_undo=False)
                    g = labs.pop(0 if o == "remove_first" else -1)
                    want = want @ fulls[g].conj().T if o == "remove_first" else fulls[g].conj().T @ want
                task.transitions += 1
                d = ref.phase_diff(s.product().get_matrix(), want)
                if not d < 1e-6 or s.get_length() != len(labs):
                    task.violation(f"after {k + 1} changes ({len(labs)} entries): the product is not that of the entries (off by {d:.2g}), or the length "
                                   f"{s.get_length()} is wrong", case=task.case)
                    break
            else:
                d = lib.seq_matches(s, [pool[g] for g in labs], n)
                if d:
                    task.violation(f"after {len(hist)} changes: {d}", case=task.case)
            task.traces += 1
            task.outcome((n, word, tuple(labs)))
    task.states += 1


def lengths(task, n, gates, top):
    """every length up to top, grown at either end, product cached or not, then shrunk again"""
    gates = [_tup(g) for g in gates]
    for how in ("append", "appendcached", "prepend", "list", "shared"):
        for k in range(0, top + 1):
            if k > 20 and k % 7 and k not in (31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129):
                continue
            labels = [gates[(i * i + i // 3) % len(gates)] for i in range(k)]
            task.case = dict(how=how, length=k)
            s = lib.new_sequence(n, labels, how)
            m = lib.seq_matches(s, labels, n, deep=k < 12)
            if not m and k:
                s.remove_first()
                m = lib.seq_matches(s, labels[1:], n, deep=False)
                if not m:
                    s.undo()
                    m = lib.seq_matches(s, labels, n, deep=False)
                if not m:
                    s.remove_last()
                    m = lib.seq_matches(s, labels[:-1], n, deep=False)
            task.traces += 1
            task.transitions += k + 3
            task.outcome((how, k))
            if m:
                task.violation(m, case=task.case)
