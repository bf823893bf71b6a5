"""C03 inverse of a sequence: every word of gates, every way of building it, every short follow-up on either side."""
import itertools

from mc import bfs, lib, ref
from mc.lib import UnitarySequence, inv_label
from mc.seqspec import SeqSpec, _tup

P1 = (("rx", 0.7), (0,))
P2 = (("gen", 2, 1), (0,))
P3 = (("inv", ("gen", 2, 3)), (0,))
Q1 = (("gen", 4, 2), (1, 0))
Q2 = (("t",), (1,))
Q3 = (("cnot",), (0, 1))
Q4 = (("gen", 2, 3), (0,))
Q5 = (("inv", ("r", 0.4, 1.1)), (1,))
R1 = (("gen", 8, 1), (2, 0, 1))
R2 = (("gen", 4, 1), (2, 0))
R3 = (("xx", 0.3), (1, 2))
R4 = (("gen", 2, 2), (1,))
POOLS = {"1q": (1, [P1, P2, P3]), "2q": (2, [Q1, Q2, Q4, Q5]), "2qb": (2, [Q3, Q5, Q1]), "3q": (3, [R1, R2, R4]), "3qb": (3, [R3, R2, R1]),
         "near1": (1, [(("rx", 0.02), (0,)), (("near", 2, 1, 1e-3), (0,)), (("rx", 3.13), (0,)), P2]),
         "near2": (2, [(("near", 4, 1, 0.01), (1, 0)), (("xx", 1e-3), (0, 1)), (("h",), (0,)), (("i", 4), (0, 1))]),
         "near3": (2, [(("rz", 1e-5), (1,)), (("near", 2, 2, 1e-6), (0,)), (("xx", 1.5704), (1, 0))]),
         "named": (2, [(("named", "I", 2, 1), (0,)), (("named", "H", 2, 2), (1,)), (("named", "CNOT", 4, 1), (1, 0)), (("named", "", 2, 4), (0,))])}
POOLS["4q"] = (4, [(("gen", 4, 2), (3, 1)), (("gen", 16, 1), (2, 0, 3, 1)), (("ccnot",), (3, 0, 2)), (("inv", ("gen", 2, 3)), (2,))])
POOLS["5q"] = (5, [(("gen", 8, 2), (4, 1, 3)), (("inv", ("gen", 32, 1)), (1, 4, 2, 0, 3)), (("rx", 0.02), (3,)), (("gen", 16, 3), (4, 0, 3, 1))])
POOLS["6q"] = (6, [(("gen", 8, 2), (5, 1, 3)), (("gen", 64, 1), (1, 4, 2, 5, 0, 3)), (("inv", ("r", 0.4, 1.1)), (4,))])
# one operation on several qubit lists
POOLS["order"] = (3, [(("gen", 4, 5), (0, 2)), (("gen", 4, 5), (2, 0)), (("gen", 2, 3), (1,)), (("gen", 2, 3), (2,))])
LARGE = ("4q", "5q", "6q")
SOME = ("list", "shared", "appendcached", "combined", "inverse", "fullused")
HOWS = ("list", "array", "shared", "sharedarray", "append", "appendcached", "prepend", "edited", "undone", "combined", "combinedself", "inverse",
        "fullused")
FOLLOW = ["none", "append_last", "append_first", "remove_last", "remove_first", "undo", "combine", "text"]
BOUND = {"quick": "all words of length <= 3 over 10 pools of 3-4 (near-identities and misleading names included) operations on 1-3 qubits, 13 ways of building x product asked for or not x all follow-ups of "
                  "length <= 2 or 1 (8 operations) on the inverse or the original for words of length <= 2; all reachable states with inversion as an operation; 4-6 qubits: words of length <= 2, long sequences",
         "thorough": "words of length <= 5 (4 for pools of 4); follow-ups of length <= 3 for words of length <= 2"}


def tasks(tier):
    big = tier == "thorough"
    t = []
    for pool in LARGE:
        for how in HOWS:
            t.append(("words", dict(pool=pool, how=how, top=3 if big and pool != "6q" else 2, follow=1 if pool == "4q" else 0)))
        t.append(("lengths", dict(top=66 if big else 40 if pool < "6" else 17, pool=pool)))
    for pool in POOLS:
        if pool in LARGE:
            continue
        for how in ("sharedgate", "list") if pool == "order" else HOWS if pool[:4] not in ("near", "name") or big else SOME:
            t.append(("words", dict(pool=pool, how=how, top=(5 if len(POOLS[pool][1]) == 3 else 4) if big else 3,
                                     follow=3 if big else 2 if how in ("list", "append", "edited") and pool[:4] not in ("near", "name") else 1)))
    for n, g in ((1, [P2, P3]), (2, [Q1, Q5]), (2, [Q1])):
        t.append(("states", dict(spec=dict(n=n, gates=g, max_len=3 if big else 2, ops=("product", "undo", "inverse", "text")))))
    t.append(("states", dict(spec=dict(n=2, gates=[Q4], max_len=3, ops=("product", "undo", "inverse"), start=[Q1, Q1], how="sharedarray"))))
    t.append(("states", dict(spec=dict(n=2, gates=[Q1], max_len=2, ops=("product", "undo", "inverse", "combine"), saves=(True, False), other=[Q5]))))
    for g in ([Q4, Q1], [Q2, Q5]):
        t.append(("states", dict(spec=dict(n=2, gates=g, max_len=3 if big else 2, ops=("ask_inverse", "product", "undo"), shared=True))))
    t.append(("states", dict(spec=dict(n=2, gates=[Q4], max_len=3, ops=("ask_inverse", "undo"), start=[Q1, Q4], how="shared", shared=True))))
    t.append(("lengths", dict(top=600 if big else 101)))
    t.sort(key=lambda x: x[0] != "states")
    return t


def states(task, spec):
    bfs.search(task, SeqSpec(**spec), case=dict(spec=spec))


def make(n, word, how):
    """(sequence, entry labels, undo record labels or None)"""
    word = list(word)
    if how in ("list", "array", "shared", "sharedarray", "sharedgate"):
        return lib.new_sequence(n, word, how), word, None
    if how in ("append", "appendcached", "prepend"):
        s = lib.new_sequence(n, word, how)
        rec = None if not word else (word[1:] if how == "prepend" else word[:-1])
        return s, word, rec
    if how == "edited":
        s = lib.new_sequence(n, word)
        s.append_first(lib.lib_entry(word[0] if word else P1))
        s.product()
        s.remove_first()
        return s, word, [word[0] if word else P1] + word
    if how == "undone":
        s = lib.new_sequence(n, word)
        s.product()
        s.append_last(lib.lib_entry(P1))
        s.product()
        s.undo()
        return s, word, None
    if how == "combined":
        k = len(word) // 2
        return UnitarySequence.combine(lib.new_sequence(n, word[:k]), lib.new_sequence(n, word[k:], "shared")), word, None
    if how == "combinedself":
        s = lib.new_sequence(n, word)
        return UnitarySequence.combine(s, s), word + word, None
    if how == "inverse":
        return lib.new_sequence(n, word).inverse(), [(inv_label(g), q) for g, q in reversed(word)], None
    if how == "fullused":
        es = [lib.lib_entry(e) for e in word]
        for e in es:
            e.get_full_unitary(2 ** n)
            e.get_full_unitary(2 ** (n + 1))
        return UnitarySequence(2 ** n, es), word, None
    raise KeyError(how)


def marks(seq, labels, n):
    """None or message: the inverse mark of every entry"""
    for i, (e, (g, q)) in enumerate(zip(seq.get_sequence_entries(), labels)):
        if e.get_full_unitary(2 ** n).get_display_name().endswith("†") != (g[0] == "inv"):
            return f"entry {i} ({g} on {q}) is displayed as {e.get_full_unitary(2 ** n).get_display_name()!r}"
    return None


def step(s, model, n, op):
    """applies a follow-up to a sequence and its reference; returns (sequence, reference) or a message"""
    if op == "none":
        return s, model
    if op.startswith("append"):
        lab = (("gen", 2, 7), (n - 1,))
        getattr(s, op)(lib.lib_entry(lab))
        model.append(lab, op == "append_first", True)
    elif op.startswith("remove"):
        getattr(s, op)()
        model.remove(op == "remove_first", True)
    elif op == "undo":
        try:
            s.undo()
            ok = True
        except Exception:
            ok = False
        want = model.undo()
        if ok != want:
            return "undo succeeded although nothing is recorded" if ok else "undo failed although a change is recorded"
    elif op == "combine":
        s = UnitarySequence.combine(s, s)
        model = ref.SeqModel(model.entries + model.entries)
    elif op == "text":
        s.get_qasm()
        s.get_display_output()
    return s, model


def words(task, pool, how, top, follow):
    n, gates = POOLS[pool]
    gates = [_tup(g) for g in gates]
    task.states += 1
    for word in ref.words(gates, 0, top):
        for asked in (False, True):
            combos = [((), ())]
            if len(word) <= 2 and (asked or len(word) == 2):
                fs = [f for k in range(1, follow + 1) for f in itertools.product(FOLLOW[1:], repeat=k) if k < 3 or len(word) < 2]
                combos += [(f, ()) for f in fs] + [((), f) for f in fs if len(f) == 1] + [(f, g) for f in fs for g in fs
                                                                                         if len(f) == len(g) == 1 and how in ("list", "append", "shared")]
            for on_inv, on_orig in combos:
                task.case = dict(pool=pool, word=word, how=how, asked=asked, on_inverse=on_inv, on_original=on_orig)
                m = one(n, word, how, asked, on_inv, on_orig)
                task.traces += 1
                task.transitions += 2 + len(on_inv) + len(on_orig)
                if m:
                    task.violation(m, case=task.case)
            task.outcome((pool, word, how))
    task.states += 1


def one(n, word, how, asked, on_inv, on_orig):
    s, labels, rec = make(n, word, how)
    model = ref.SeqModel(labels)
    model.record = rec
    if asked:
        s.product()
    inv = s.inverse()
    inv_labels = [(inv_label(g), q) for g, q in reversed(labels)]
    if not on_inv and not on_orig:
        m = lib.seq_matches(inv, inv_labels, n) or marks(inv, inv_labels, n)
        if m:
            return "inverse: " + m
        m = lib.seq_matches(s, labels, n) or marks(s, labels, n)
        if m:
            return "original, after inverting: " + m
        back = inv.inverse()
        m = lib.seq_matches(back, labels, n) or marks(back, labels, n)
        if m:
            return "inverse of the inverse: " + m
        m = lib.seq_matches(inv, inv_labels, n)
        if m:
            return "inverse, after inverting it: " + m
    im = ref.SeqModel(inv_labels)
    for op in on_orig:
        r = step(s, model, n, op)
        if isinstance(r, str):
            return f"original, {op} after inverting: {r}"
        s, model = r
    for op in on_inv:
        r = step(inv, im, n, op)
        if isinstance(r, str):
            return f"inverse, {op}: {r}"
        inv, im = r
    if on_inv or on_orig:
        m = lib.seq_matches(inv, im.entries, n)
        if m:
            return f"inverse after {on_inv} (original: {on_orig}): {m}"
        m = lib.seq_matches(s, model.entries, n)
        if m:
            return f"original after {on_orig} (inverse: {on_inv}): {m}"
        if not on_orig or on_orig == ("undo",):
            return None
    return None


def lengths(task, top, pool="2q"):
    """long sequences"""
    n, gates = POOLS[pool]
    for how in HOWS:
        for k in list(range(0, 12)) + [15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 120, 128, 129, 200, 255, 256, 257, 300, 512, 513, 600]:
            if k > top:
                continue
            word = [_tup(gates[(i * i + i // 3) % len(gates)]) for i in range(k)]
            task.case = dict(how=how, length=k)
            m = one(n, word, how, k % 2 == 0, (), ())
            task.traces += 1
            task.transitions += k
            if m:
                task.violation(m, case=task.case)
            task.outcome((how, k))
