"""C06 embedding: every ordered choice of qubits of every small system, in every order of asking."""
import itertools

import numpy as np

from mc import lib, ref
from stoqcompiler.unitary import Unitary, UnitarySequence, UnitarySequenceEntry

BOUND = {"quick": "all ordered lists of 1-6 distinct qubits of systems of 1-7 qubits (6 operations per list up to 5 qubits, 2 beyond; at most 4 of 7); of 8 and 9 qubits lists of 1-2, of 10 single ones; all histories of 1-4 "
                  "requests of sizes up to 5 qubits, repeats included, for all lists of qubits below 3 (and pairs below 4); all orders of 5-6 sizes, and all of up to 9, each size asked for again; 6 list types",
         "thorough": "systems of up to 8 qubits (lists of up to 4 qubits from 7 on), of 9 (up to 3), 10 (up to 2), 11 (1); histories of up to 5 requests of sizes up to 6 qubits"}


def gates(k):
    """operations on k qubits: structureless, permutation-like, diagonal, sparse"""
    d = 2 ** k
    out = [("gen", d, 1), ("gen", d, 6)]
    perm = np.eye(d)[[(i * 3 + 1) % d for i in range(d)]] if d > 2 else ref.X
    return [lib.ref_gate(g) for g in out] + [perm.astype(complex), np.diag(np.exp(1j * np.arange(d) * 0.7)), ref.controlled_x(k) if k > 1 else ref.H,
                                             ref.embed(ref.generic_unitary(2, 5), [k - 1], k)]


def tasks(tier):
    big = tier == "thorough"
    t = []
    for n in range(1, 9 if big else 8):
        for k in range(1, min(n, 4 if n > 6 else 6) + 1):
            parts = 1 if n < 6 else 8 if k > 3 or n > 6 else 2
            for c in range(parts):
                t.append(("lists", dict(n=n, k=k, count=6 if n < 6 else 2, part=c, parts=parts)))
    for n, k in ((8, 1), (8, 2), (9, 1), (9, 2), (10, 1)) if not big else ((9, 1), (9, 2), (9, 3), (10, 1), (10, 2), (11, 1)):
        for c in range(8):
            t.append(("lists", dict(n=n, k=k, count=1, part=c, parts=8)))
    for k in (1, 2, 3):
        for first in range(3 if k != 2 else 4):
            t.append(("histories", dict(k=k, first=first, length=5 if big else 4, top=6 if big else 5)))
    for q in ((0,), (1,), (1, 0), (0, 1, 2)):
        for c in range(2):
            t.append(("many_sizes", dict(q=q, count=6 if big else 5 if len(q) == 3 else 6, top=11 if big else 9, part=c, parts=2)))
    t.append(("types", {}))
    t.append(("in_sequences", dict(top=5 if big else 4)))
    t.sort(key=lambda x: -x[1].get("n", 0) * 10 - x[1].get("k", 0))
    return t


def lists(task, n, k, count, part, parts):
    gs = gates(k)[:count]
    us = [Unitary(2 ** k, g, "G") for g in gs]
    for i, q in enumerate(itertools.permutations(range(n), k)):
        if i % parts != part:
            continue
        for j, (g, u) in enumerate(zip(gs, us)):
            full = UnitarySequenceEntry(u, list(q)).get_full_unitary(2 ** n)
            d = ref.phase_diff(full.get_matrix(), ref.embed(g, q, n))
            task.traces += 1
            task.transitions += 1
            if not d < 1e-7 or full.get_dimension() != 2 ** n:
                task.violation(f"operation {j} on qubits {q} of {n} is not embedded right (off by {d:.2g})", case=dict(n=n, qubits=q, operation=j))
        task.outcome((n, q))
    task.states += 1


def histories(task, k, first, length, top):
    """one entry, asked for several system sizes in every order"""
    for q in itertools.permutations(range(4 if k == 2 else 3), k):
        if q[0] != first:
            continue
        g = gates(k)[0]
        sizes = range(max(q) + 1, top + 1)
        want = {n: ref.embed(g, q, n) for n in sizes}
        for hist in [h for m in range(1, length + 1) for h in itertools.product(sizes, repeat=m)]:
            e = UnitarySequenceEntry(Unitary(2 ** k, g), list(q))
            last = {}
            for n in hist:
                last[n] = e.get_full_unitary(2 ** n)
            task.traces += 1
            task.transitions += len(hist)
            for n, f in last.items():
                if not ref.phase_diff(f.get_matrix(), want[n]) < 1e-7:
                    task.violation(f"after being asked for sizes {hist}, the operation on {q} of {n} qubits is not embedded right",
                                   case=dict(qubits=q, sizes=hist))
            if [int(x) for x in e.get_apply_to()] != list(q) or e.get_dimension() != 2 ** k:
                task.violation("being asked for sizes changes the entry", case=dict(qubits=q, sizes=hist))
            task.outcome((q, hist))
        # too small a system is refused, and asking for it changes nothing
        e = UnitarySequenceEntry(Unitary(2 ** k, g), list(q))
        for n in list(range(0, max(q) + 1)) + list(sizes):
            try:
                f = e.get_full_unitary(2 ** n)
            except Exception:
                f = None
            task.transitions += 1
            if (f is None) != (n <= max(q)):
                task.violation("a system without the qubits is accepted" if f is not None else "a large enough system is refused",
                               case=dict(qubits=q, n=n))
            if f is not None and not ref.phase_diff(f.get_matrix(), want[n]) < 1e-7:
                task.violation("wrong embedding after refused requests", case=dict(qubits=q, n=n))
    task.states += 1


def many_sizes(task, q, count, top, part, parts):
    """one entry asked for many different sizes in every order, then for all of them again, in the same, the reversed and a mixed order"""
    k = len(q)
    g = gates(k)[0]
    lo = max(q) + 1
    want = {n: ref.embed(g, q, n) for n in range(lo, top + 1)}
    u = Unitary(2 ** k, g)
    orders = list(itertools.permutations(range(lo, lo + count)))
    orders += [tuple(range(lo, top + 1)), tuple(range(top, lo - 1, -1)), tuple(range(lo, top + 1, 2)) + tuple(range(lo + 1, top + 1, 2))]
    for i, order in enumerate(orders):
        if i % parts != part:
            continue
        e = UnitarySequenceEntry(u, list(q))
        asked = list(order) + [n for n in (order, order[::-1], order[1::2] + order[::2])[i % 3]]
        for j, n in enumerate(asked):
            f = e.get_full_unitary(2 ** n)
            if f.get_dimension() != 2 ** n or not ref.phase_diff(f.get_matrix(), want[n]) < 1e-7:
                task.violation(f"after being asked for sizes {asked[:j]}, the operation on {q} of {n} qubits is not embedded right", case=dict(qubits=q, sizes=asked[:j + 1]))
                break
        task.traces += 1
        task.transitions += len(asked)
        task.outcome((q, order))
    task.states += 1


def types(task):
    forms = dict(tuple=tuple, array=np.array, int32=lambda q: np.array(q, dtype=np.int32), npints=lambda q: [np.int64(x) for x in q],
                 uint8=lambda q: np.array(q, dtype=np.uint8), list=list)
    for n in (1, 2, 3, 4):
        for k in range(1, min(3, n) + 1):
            for q in itertools.permutations(range(n), k):
                for name, f in forms.items():
                    g = gates(k)[1]
                    e = UnitarySequenceEntry(Unitary(2 ** k, g), f(q))
                    d = ref.phase_diff(e.get_full_unitary(2 ** n).get_matrix(), ref.embed(g, q, n))
                    task.traces += 1
                    task.transitions += 1
                    task.outcome((name, n, q))
                    if not d < 1e-7 or [int(x) for x in e.get_apply_to()] != list(q):
                        task.violation(f"qubits {q} given as {name} of {n}: not embedded right (off by {d:.2g})", case=dict(n=n, qubits=q, form=name))
    task.states += 1


def in_sequences(task, top):
    """pairs of entries in sequences of several sizes sharing the entry objects"""
    for n in range(2, top + 1):
        qs = [q for k in (1, 2) for q in itertools.permutations(range(n), k)]
        for q in qs:
            for r in qs:
                if n > 3 and (q[0] + 2 * r[0] + len(q)) % 3:
                    continue
                g, h = gates(len(q))[0], gates(len(r))[1]
                a, b = UnitarySequenceEntry(Unitary(len(g), g), list(q)), UnitarySequenceEntry(Unitary(len(h), h), list(r))
                small = max(q + r) + 1
                for m in (n, small, n + 1):
                    s = UnitarySequence(2 ** m)
                    if m == n:
                        s.product()
                    s.append_last(a)
                    s.append_last(b)
                    want = ref.embed(h, r, m) @ ref.embed(g, q, m)
                    d = ref.phase_diff(s.product().get_matrix(), want)
                    task.traces += 1
                    task.transitions += 2
                    if not d < 1e-7:
                        task.violation(f"sequence of operations on {q}, {r} of {m} qubits is off by {d:.2g}", case=dict(n=m, qubits=(q, r)))
                task.outcome((n, q, r))
    task.states += 1
