"""C02 undo: exactly the state before the last recorded change, once (explicit-state search + cyclic histories)."""
import itertools

import numpy as np

from mc import bfs, lib, ref
from mc.seqspec import SeqSpec, _tup, run_history
from mc.checks.c01 import A1, A2, B1, B2, B3, B4, C1, C2, MIX

BOUND = {
    "quick": "all reachable states (unbounded history length; recorded and unrecorded changes) of sequences of at most 2-3 entries over "
             "1-2 gates on 1-3 qubits, 8 start/aliasing configurations; all cyclic histories of period <= 4 over 10 operations, 24 steps; "
             "all layer patterns (layer length <= 4, 6 rounds of append/remove at either end, kept or undone); systems of "
             "3-6 qubits likewise; every length up to 330 (110 above 2 qubits): each kind of recorded change, 0-2 unrecorded ones, undo; 1-330 "
             "recorded appends, then recorded removals, then undo",
    "thorough": "at most 3-4 entries, 12 configurations; period <= 5, 32 steps; layer patterns of 8 rounds, layer length <= 6",
}


def tasks(tier):
    big = tier == "thorough"
    t = []

    def add(**k):
        t.append(("states", dict(spec=dict(dict(saves=(True, False), ops=("product", "undo")), **k))))
    add(n=1, gates=[A1, A2], max_len=3 if big else 2)
    add(n=1, gates=[A2], max_len=4 if big else 3, ops=("product", "undo", "text"))
    add(n=2, gates=[B1, B3], max_len=2)
    add(n=2, gates=[B3], max_len=2, ops=("product", "undo", "inverse", "combine"), other=[B4])
    add(n=2, gates=[B4, B2] if big else [B2], max_len=2, shared=True)
    add(n=2, gates=[B3], max_len=3, start=[B1, B2], how="sharedarray")
    add(n=3, gates=[C1, C2], max_len=2)
    add(n=2, gates=[B2, (("cnot",), (0, 1))], max_len=2, shared="gate")
    add(n=2, gates=[B1], max_len=3, start=[B4, B4], how="appendcached")
    if big:
        add(n=3, gates=[C1, C2], max_len=2, ops=("product", "undo", "inverse"))
        add(n=2, gates=[B1, B3, B2], max_len=2)
        add(n=2, gates=[B3, B4], max_len=3, shared=True)
        add(n=1, gates=[A1], max_len=6)
    per, parts = (5, 48) if big else (4, 12)
    for n, gates in ((1, [A1, A2]), (2, [B3, B1])):
        for c in range(parts):
            t.append(("cycles", dict(n=n, gates=gates, period=per, steps=32 if big else 24, part=c, parts=parts)))
    for length in (0, 1, 5, 40) if not big else (0, 1, 2, 3, 5, 12, 40, 130):
        for n in (1, 2):
            for how in ("list", "shared"):
                t.append(("rollback", dict(n=n, length=length, how=how, period=3 if big else 2, reps=(0, 1, 2, 5, 8, 9, 10, 11, 16, 17, 33, 64, 101) + ((200, 257, 500) if big else ()))))
    for n in (4, 5):
        add(n=n, gates=[MIX[n][0], MIX[n][1]] if big else [MIX[n][1 if n < 5 else 0]], max_len=2)
        add(n=n, gates=[MIX[n][2]], max_len=2, start=[MIX[n][3]], how="shared", shared=True)
    for n in (3, 4, 5, 6):
        t.append(("cycles", dict(n=n, gates=MIX[n][:2], period=3 if big or n < 4 else 2, steps=20 if n < 6 else 12, part=0, parts=1)))
        t.append(("rollback", dict(n=n, length=9, how="shared", period=2 if big or n < 4 else 1, reps=(0, 1, 2, 3, 9, 10))))
    for n in (1, 2, 3, 4, 5):
        for held in (True, False):
            t.append(("every_length", dict(n=n, held=held, top=((2000 if n < 3 else 500) if big else (330 if n < 3 else 110)) if held else (200 if big and n < 4 else 70 if n < 5 else 36))))
    for k in range(1, 7 if big else 5):
        t.append(("layers", dict(k=k, rounds=8 if big and k < 5 else 6)))
    for n in (1, 2, 3, 4):
        for held in (True, False):
            top = (1000 if n < 3 else 300) if big else (330 if n == 1 else 140 if n < 4 else 70)
            t.append(("grown", dict(n=n, held=held, lengths=[k for k in (1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 48, 50, 51, 63, 64, 65, 66, 99, 100, 101, 102, 127,
                                                                          128, 129, 130, 200, 255, 256, 257, 300, 330, 500, 512, 513, 999, 1000) if k <= top])))
    t.sort(key=lambda x: x[0] != "every_length")
    return t


def states(task, spec):
    bfs.search(task, SeqSpec(**spec), case=dict(spec=spec))


OPS = [("append_last", 0, True), ("append_first", 1, True), ("append_last", 1, False), ("append_first", 0, False),
       ("remove_first", True), ("remove_last", True), ("remove_first", False), ("remove_last", False), ("undo",), ("product",)]


def cycles(task, n, gates, period, steps, part, parts):
    gates = [_tup(g) for g in gates]
    spec = SeqSpec(n, gates, 10 ** 9)
    i = 0
    for p in range(1, period + 1):
        for word in itertools.product(OPS, repeat=p):
            if ("undo",) not in word:
                continue
            i += 1
            if i % parts != part:
                continue
            hist = list(itertools.islice(itertools.cycle(word), steps))
            task.case = dict(n=n, word=word, steps=steps)
            m = run_history(spec, hist, check_every=steps)
            task.traces += 1
            task.transitions += steps
            task.states += 1
            if m:
                task.violation(m, case=task.case)
            task.outcome((n, word))


CHANGES = [("append_last", 0, False), ("append_first", 1, False), ("remove_first", False), ("remove_last", False), ("product",)]


def rollback(task, n, length, how, period, reps):
    """one recorded change, then every repeated word of unrecorded ones (up to and beyond the emptied sequence), then undo"""
    pool = MIX[n]
    start = [pool[(i * i + i // 3) % len(pool)] for i in range(length)]
    spec = SeqSpec(n, pool[:2], 10 ** 9, start=start, how=how)
    for rec in (("append_last", 0, True), ("append_first", 1, True), ("remove_first", True), ("remove_last", True)):
        if not length and rec[0].startswith("remove"):
            continue
        for p in range(1, period + 1):
            for word in itertools.product(CHANGES, repeat=p):
                if p > 1 and len(set(word)) == 1 or (p > 2 and ("product",) not in word):
                    continue
                for r in reps:
                    if r > 40 and p > 1 and r % 2:
                        continue
                    hist = [rec] + [word[k % p] for k in range(r)] + [("undo",)]
                    task.case = dict(n=n, length=length, how=how, recorded=rec, word=word, repeated=r)
                    w = spec.init()
                    if r % 2:
                        w.live["seq"].product()
                    m = None
                    for k, op in enumerate(hist):
                        m = spec.apply(w, op)
                        if m:
                            break
                    m = m or lib.seq_matches(w.live["seq"], w.model.entries, n, deep=length < 12 or not r)
                    task.traces += 1
                    task.transitions += len(hist)
                    task.outcome((n, length, how, rec, word, r))
                    if m:
                        task.violation(m, case=task.case)
                    if not any(o[0].startswith("append") for o in word) and r > length + 3:
                        break       # nothing is left to remove
    task.states += 1


def layers(task, k, rounds):
    """each round changes k entries at one end, only the first of them recorded, and keeps or undoes it"""
    gates = [B3, B1, B2, B4]
    acts = [(a, e, u) for a in ("append", "remove") for e in ("first", "last") for u in (False, True)]
    spec = SeqSpec(2, gates, 10 ** 9)
    # the action of each round is enumerated for the first three rounds, then continues cyclically
    for word in itertools.product(range(len(acts)), repeat=3):
        hist, g = [], 0
        for r in range(rounds):
            a, e, u = acts[(word[r % 3] + (r // 3) * 3) % len(acts)]
            for j in range(k):
                if a == "append":
                    hist.append(("append_" + e, g % 4, j == 0))
                    g += 1
                else:
                    hist.append(("remove_" + e, j == 0))
            if r % 2 == word[0] % 2:
                hist.append(("product",))
            if u:
                hist.append(("undo",))
        task.case = dict(k=k, word=[acts[x] for x in word])
        m = run_history(spec, hist, check_every=max(7, len(hist) // 2))
        task.traces += 1
        task.states += 1
        task.transitions += len(hist)
        task.outcome((k, word))
        if m:
            task.violation(m, case=task.case)


def grown(task, n, held, lengths):
    """only recorded changes, growing (then shrinking) without an undo in between; one undo at the end takes back one change"""
    pool = MIX[n]
    ents = [lib.lib_entry(g) for g in pool]
    fulls = [lib.ref_full(g, n) for g in pool]
    for ends in ("last", "first", "both"):
        for top in lengths:
            for shrink in sorted({0, 1, 2, top // 2, top - 1} & set(range(top))) if top < 70 else (0, top // 2):
                s, labs, steps = lib.UnitarySequence(2 ** n), [], []
                if held:
                    s.product()
                for i in range(top + shrink):
                    g = (i * i + i // 3) % len(pool)
                    first = ends == "first" or (ends == "both" and i % 3 == 1)
                    steps.append(list(labs))
                    if i < top:
                        getattr(s, "append_first" if first else "append_last")(ents[g])
                        labs.insert(0 if first else len(labs), g)
                    else:
                        getattr(s, "remove_first" if first else "remove_last")()
                        labs.pop(0 if first else -1)
                task.case = dict(n=n, appended=top, removed=shrink, ends=ends, held=held)
                task.transitions += top + shrink + 1
                task.traces += 1
                for where, labs in (("before", labs), ("after", steps[-1])):
                    if where == "after":
                        s.undo()
                    elif not held:
                        continue
                    d = ref.phase_diff(s.product().get_matrix(), ref.product([fulls[g] for g in labs], 2 ** n))
                    got = s.get_sequence_entries()
                    if not d < 1e-6 or s.get_length() != len(labs) or len(got) != len(labs):
                        task.violation(f"{where} the undo the product is not that of the entries (off by {d:.2g}), or the length {s.get_length()} is wrong", case=task.case)
                        return
                    if any(ref.phase_diff(a.get_full_unitary(2 ** n).get_matrix(), fulls[g]) > 1e-7 for a, g in zip(got, labs)):
                        task.violation(f"{where} the undo the entries are others", case=task.case)
                        return
                try:
                    s.undo()
                except Exception:
                    continue
                task.violation("undo succeeds a second time", case=task.case)
    task.states += len(lengths)
    task.outcome((n, held))


def every_length(task, n, held, top):
    """a sequence of every length; each kind of recorded change, some unrecorded ones (product asked for or not), undo: all is as before, product included"""
    pool = MIX[n]
    ents = [lib.lib_entry(g) for g in pool]
    fulls = [lib.ref_full(g, n) for g in pool]
    s = lib.UnitarySequence(2 ** n)
    want, labs = np.eye(2 ** n, dtype=complex), []
    if held:
        s.product()

    def wrong(where):
        d = ref.phase_diff(s.product().get_matrix(), want)
        if not d < 1e-6 or s.get_length() != len(labs):
            task.violation(f"{len(labs)} entries, {where}: the product is not that of the entries (off by {d:.2g}), or the length {s.get_length()} is wrong", case=task.case)
            return True
        return False
    for length in range(top + 1):
        full = length < 12 or length % 8 in (0, 1, 7) or length % 10 == 0
        for rec in (("append_last", "append_first", "remove_last", "remove_first") if full else (("append_last", "remove_first"), ("append_first", "remove_last"))[length % 2]):
            for after in ((), ("append_first",), ("remove_last", "append_last")) if full else ((), ("remove_first",))[: 1 + length % 2]:
                for ask in (False, True):
                    if rec.startswith("remove") and not labs:
                        continue
                    task.case = dict(n=n, length=length, recorded=rec, unrecorded=after, product_asked_for=ask, held=held)
                    if not held:          # a sequence whose product is not known
                        s = lib.UnitarySequence(2 ** n, [ents[g] for g in labs])
                    getattr(s, rec)(*([ents[(length + 1) % len(pool)]] if rec.startswith("append") else []))
                    for o in after:
                        if o.startswith("append"):
                            getattr(s, o)(ents[(length + 2) % len(pool)], save_undo=False)
                        elif s.get_length():
                            getattr(s, o)(save_undo=False)
                    if ask:
                        s.product()
                    s.undo()
                    task.transitions += 2 + len(after)
                    task.traces += 1
                    if wrong("after the undo"):
                        return
                    try:
                        s.undo()
                    except Exception:
                        continue
                    task.violation(f"{length} entries: undo succeeds a second time", case=task.case)
                    return
        got = s.get_sequence_entries()
        if len(got) != len(labs) or any(a is not ents[g] and ref.phase_diff(a.get_full_unitary(2 ** n).get_matrix(), fulls[g]) > 1e-7 for a, g in zip(got, labs)):
            task.violation(f"{length} entries: the entries after the undo are others", case=dict(n=n, length=length, held=held))
            return
        g = (length * length + length // 3) % len(pool)
        if length % 2:
            s.append_first(ents[g], save_undo=False)
            labs.insert(0, g)
            want = want @ fulls[g]
        else:
            s.append_last(ents[g], save_undo=False)
            labs.append(g)
            want = fulls[g] @ want
        task.outcome((n, held, length))
        task.states += 1
