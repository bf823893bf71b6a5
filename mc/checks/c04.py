"""C04 combining sequences: every tuple of differently prepared sequences, then edits on either side."""
import itertools

from mc import bfs, lib, ref
from mc.lib import UnitarySequence, inv_label
from mc.seqspec import SeqSpec, _tup
from mc.checks.c03 import step, marks, FOLLOW, P1, P2, P3, Q1, Q2, Q3, Q4, Q5, R1, R2, R3, R4

BASE = {1: [[], [P2], [P1, P3], [P2, P2, P1]], 2: [[], [Q1], [Q5, Q2], [Q4, Q1, Q3]], 3: [[], [R2], [R1, R4], [R3, R1, R2]]}
# contents that look like nothing: products (nearly) the identity, near-identities, the identity, misleading names
for _n, _q in ((1, (0,)), (2, (1,)), (3, (2,))):
    BASE[_n] += [[(("gen", 2, 5), _q), (("inv", ("gen", 2, 5)), _q)], [(("i", 2), _q)], [(("near", 2, 1, 1e-3), _q), (("rx", 1e-6), _q)],
                 [(("named", "I", 2, 3), _q)]]
BASE[4] = [[], [(("gen", 16, 1), (2, 0, 3, 1))], [(("gen", 4, 2), (3, 1)), (("ccnot",), (3, 0, 2))], [(("inv", ("gen", 2, 3)), (2,)), (("gen", 8, 1), (3, 2, 0)), (("t",), (1,))],
           [(("gen", 16, 5), (0, 1, 2, 3)), (("inv", ("gen", 16, 5)), (0, 1, 2, 3))], [(("i", 16), (1, 0, 2, 3))], [(("near", 16, 1, 1e-3), (3, 0, 1, 2)), (("rx", 1e-6), (2,))],
           [(("named", "I", 16, 3), (0, 1, 2, 3))]]
BASE[5] = [[], [(("gen", 32, 1), (2, 0, 4, 3, 1))], [(("gen", 4, 2), (4, 1)), (("ccnot",), (3, 0, 2))], [(("inv", ("gen", 2, 3)), (2,)), (("gen", 16, 1), (3, 2, 4, 0)), (("t",), (1,))]]
STATES = ("fresh", "asked", "appended", "undone", "pending", "inverse", "combined", "arr")
BOUND = {"quick": "all tuples of 1-3 sequences (repetition of one object included) out of 4 contents x 8 ways of preparing on 1-3 qubits (3-tuples: "
                  "2 contents x 5 ways), all follow-ups of one operation on the result or on an argument; pairs of 6 contents among them products equal or close to the identity, identities, misleading names; all reachable states with combination as "
                  "an operation; mixed dimensions at every position",
         "thorough": "4-tuples over 2 contents x 4 ways, follow-ups of two operations; tuples of up to 40 sequences"}


def tasks(tier):
    big = tier == "thorough"
    t = []
    for n in (1, 2, 3):
        for k in (1, 2):
            parts = 4 if k == 2 else 1
            t += [("tuples", dict(n=n, k=k, contents=[0, 1, 2, 3], states=list(STATES), follow=2 if big else 1, part=c, parts=parts)) for c in range(parts)]
    for n in (1, 2, 3):
        t += [("tuples", dict(n=n, k=2, contents=[0, 3, 4, 5, 6, 7] if n < 3 or big else [2, 4, 5, 6], states=["fresh", "asked", "pending", "inverse"] if n < 3 or big
                              else ["fresh", "asked"], follow=1 if big else 0, part=c, parts=4)) for c in range(4)]
        t += [("tuples", dict(n=n, k=1, contents=[4, 5, 6, 7], states=list(STATES), follow=2 if big else 1, part=0, parts=1))]
        t += [("tuples", dict(n=n, k=3, contents=[1, 4, 5], states=["fresh", "asked"], follow=0, part=0, parts=1))]
    for n in (1, 2):
        t += [("tuples", dict(n=n, k=3, contents=[1, 2], states=["fresh", "asked", "pending", "inverse", "undone"], follow=1 if big else 0, part=c, parts=4))
              for c in range(4)]
    for n in (4, 5):
        t += [("tuples", dict(n=n, k=1, contents=list(range(len(BASE[n]))), states=list(STATES), follow=1, part=0, parts=1))]
        t += [("tuples", dict(n=n, k=2, contents=[0, 1, 2, 3], states=list(STATES) if big else ["fresh", "asked", "pending", "inverse"], follow=1 if big and n < 5 else 0, part=c, parts=2))
              for c in range(2)]
        t += [("tuples", dict(n=n, k=3, contents=[1, 2], states=["fresh", "asked"], follow=0, part=0, parts=1))]
    t += [("tuples", dict(n=4, k=2, contents=[4, 5, 6, 7, 2], states=["fresh", "asked"], follow=0, part=0, parts=1))]
    if big:
        t += [("tuples", dict(n=2, k=4, contents=[1, 2], states=["fresh", "asked", "pending", "inverse"], follow=0, part=c, parts=8)) for c in range(8)]
    t.append(("states", dict(spec=dict(n=2, gates=[Q1], max_len=4, ops=("product", "undo", "combine"), other=[Q4]))))
    t.append(("states", dict(spec=dict(n=1, gates=[P2], max_len=4 if big else 3, ops=("product", "undo", "combine", "inverse"), other=[P3, P2]))))
    t.append(("states", dict(spec=dict(n=2, gates=[Q5], max_len=4 if big else 3, ops=("product", "undo", "combine"), start=[Q1, Q4], how="array", other=[]))))
    t.append(("states", dict(spec=dict(n=2, gates=[Q5, Q1], max_len=3 if big else 2, ops=("ask_combine", "ask_entries", "product", "undo"), shared=True))))
    t += [("tuples", dict(n=n, k=k, contents=[1, 2], states=["fresh", "asked"] if k == 4 else ["fresh"], follow=0, part=0, parts=1)) for n in (1, 2) for k in (4, 5, 6)]
    t += [("mixed", {})] + [("common", dict(same=x)) for x in ("gates", "entries")]
    t.append(("many", dict(top=130 if big else 36)))
    t.append(("long", dict(sizes=[0, 1, 7, 20, 33, 64, 65, 100, 128, 130, 200] + ([256, 257, 400, 512, 600] if big else []))))
    t.sort(key=lambda x: x[0] != "states")
    return t


def states(task, spec):
    bfs.search(task, SeqSpec(**spec), case=dict(spec=spec))


def prepare(n, word, state):
    """(sequence, reference)"""
    word = list(word)
    m = ref.SeqModel(word)
    extra = (("gen", 2, 9), (n - 1,))
    if state == "fresh":
        return lib.new_sequence(n, word), m
    if state == "arr":
        return lib.new_sequence(n, word, "sharedarray"), m
    if state == "combined":
        return UnitarySequence.combine(lib.new_sequence(n, word[:1]), lib.new_sequence(n, word[1:])), m
    if state == "inverse":
        s = lib.new_sequence(n, [(inv_label(g), q) for g, q in reversed(word)])
        return s.inverse(), m
    s = lib.new_sequence(n, word)
    if state == "asked":
        s.product()
    elif state == "appended":
        s = lib.new_sequence(n, word[:-1])
        s.product()
        m = ref.SeqModel(word[:-1])
        for e in word[-1:]:
            s.append_last(lib.lib_entry(e), save_undo=False)
            m.append(e, False, False)
    elif state == "undone":
        s.append_first(lib.lib_entry(extra))
        s.product()
        s.undo()
    elif state == "pending":
        s.product()
        s.append_last(lib.lib_entry(extra))
        m.append(extra, False, True)
    return s, m


def undo_ok(s, m, n):
    """the undo record of a sequence, by using it"""
    r = step(s, m, n, "undo")
    if isinstance(r, str):
        return r
    return lib.seq_matches(r[0], r[1].entries, n, deep=False)


def common(task, same):
    """sequences holding common Unitary (or entry) objects on several qubit lists, in every order"""
    labels = [(("gen", 4, 5), (0, 2)), (("gen", 4, 5), (2, 0)), (("gen", 4, 5), (1, 2)), (("gen", 2, 3), (0,)), (("gen", 2, 3), (2,))]
    words = [w for k in (1, 2) for w in itertools.product(range(len(labels)), repeat=k)]
    for a in words:
        for b in words:
            for asked in (False, True):
                gates = {g: lib.lib_gate(g) for g, _ in labels}
                es = [lib.UnitarySequenceEntry(gates[g], list(q)) for g, q in labels]
                seqs = []
                for w in (a, b):
                    s = UnitarySequence(8)
                    for i in w:
                        s.append_last(es[i] if same == "entries" else lib.UnitarySequenceEntry(gates[labels[i][0]], list(labels[i][1])))
                    seqs.append(s)
                if asked:
                    seqs[1].product()
                c = UnitarySequence.combine(*seqs)
                m = lib.seq_matches(c, [labels[i] for i in a + b], 3)
                for s, w in zip(seqs, (a, b)):
                    m = m or lib.seq_matches(s, [labels[i] for i in w], 3)
                task.traces += 1
                task.transitions += 1
                task.outcome((a, b, asked))
                if m:
                    task.violation(f"combining sequences of {a} and {b} with common {same}: {m}", case=dict(a=a, b=b, asked=asked, labels=labels))
    task.states += 1


def tuples(task, n, k, contents, states, follow, part, parts):
    pool = [(c, st) for c in contents for st in states]
    fs = [()] + [f for j in range(1, follow + 1) for f in itertools.product([x for x in FOLLOW if x not in ("none", "text")], repeat=j)]
    i = 0
    for combo in itertools.product(range(len(pool)), repeat=k):
        # the same position twice means the same object, and also two equal but separate objects
        for distinct in ((False, True) if len(set(combo)) < k else (True,)):
            i += 1
            if i % parts != part:
                continue
            for f in fs if (k < 2 or distinct or len(set(combo)) < k) else [()]:
                for where in (("result", 0) if f else ("result",)):
                    if f and k == 2 and len(set(combo)) == 2 and (combo[0] + combo[1]) % 3:
                        continue     # follow-ups after every third ordered pair, all pairs of equal ones
                    task.case = dict(n=n, args=[pool[c] for c in combo], same_objects=not distinct, follow=f, on=where)
                    m = one(n, [pool[c] for c in combo], distinct, f, where)
                    task.traces += 1
                    task.transitions += 1 + len(f)
                    if m:
                        task.violation(m, case=task.case)
            task.outcome((n, combo, distinct))
    task.states += len(pool)


def one(n, args, distinct, follow, where):
    made, seqs, models = {}, [], []
    for c, st in args:
        if distinct or (c, st) not in made:
            made[(c, st)] = prepare(n, [_tup(e) for e in BASE[n][c]], st)
        s, m = made[(c, st)]
        seqs.append(s)
        models.append(m)
    r = UnitarySequence.combine(*seqs)
    rm = ref.SeqModel([e for m in models for e in m.entries])
    if not follow:
        m = lib.seq_matches(r, rm.entries, n, deep=len(rm.entries) < 6) or marks(r, rm.entries, n)
        if m:
            return "result: " + m
        m = undo_ok(r, rm, n)
        if m:
            return "undo on the result: " + m
    else:
        tgt, tm = (r, rm) if where == "result" else (seqs[0], models[0])
        for op in follow:
            x = step(tgt, tm, n, op)
            if isinstance(x, str):
                return f"{op} on {where}: {x}"
            tgt, tm = x
        m = lib.seq_matches(tgt, tm.entries, n, deep=False)
        if m:
            return f"after {follow} on {where}: {m}"
        if where != "result":
            m = lib.seq_matches(r, rm.entries, n, deep=False)
            if m:
                return f"result after {follow} on argument 0: {m}"
            models = [m for m in models]
    seen = set()
    for i, (s, m) in enumerate(zip(seqs, models)):
        if id(s) in seen or (follow and where == 0 and s is seqs[0]):
            continue
        seen.add(id(s))
        e = lib.seq_matches(s, m.entries, n, deep=False)
        if e:
            return f"argument {i} afterwards: {e}"
        e = undo_ok(s, m, n)
        if e:
            return f"undo on argument {i} afterwards: {e}"
    return None


def mixed(task):
    """different dimensions are refused at every position, and change nothing"""
    for k in (2, 3, 4):
        for dims in itertools.product((1, 2, 3), repeat=k):
            for st in ("fresh", "asked", "pending"):
                made = [prepare(n, [_tup(e) for e in BASE[n][2]], st) for n in dims]
                task.case = dict(qubits=dims, state=st)
                try:
                    UnitarySequence.combine(*[s for s, _ in made])
                    ok = True
                except Exception:
                    ok = False
                task.traces += 1
                task.transitions += 1
                task.outcome((dims, st))
                if ok != (len(set(dims)) == 1):
                    task.violation("sequences of different dimensions are combined" if ok else "sequences of equal dimension are refused", case=task.case)
                if not ok:
                    for (s, m), n in zip(made, dims):
                        e = lib.seq_matches(s, m.entries, n, deep=False) or undo_ok(s, m, n)
                        if e:
                            task.violation("after a refused combination: " + e, case=task.case)
    task.states += 3


def many(task, top):
    for n in (1, 2, 3, 4):
        for k in range(1, top + 1) if n < 4 else (1, 2, 5, 9, 17):
            made = [prepare(n, [_tup(e) for e in BASE[n][(i * i + i // 2) % 4]], STATES[(i * 3 + k) % len(STATES)]) for i in range(k)]
            r = UnitarySequence.combine(*[s for s, _ in made])
            task.case = dict(n=n, count=k)
            task.traces += 1
            task.transitions += k
            e = lib.seq_matches(r, [x for _, m in made for x in m.entries], n, deep=False)
            if e:
                task.violation(e, case=task.case)
            task.outcome((n, k))
    task.states += top


def long(task, sizes):
    """long sequences combined: every ordered pair of sizes, products known or not"""
    for n in (1, 2):
        pool = [_tup(e) for e in BASE[n][3]] + [_tup(e) for e in BASE[n][2]] + [(("gen", 2, 4), (n - 1,))]
        ents = [lib.lib_entry(e) for e in pool]
        fulls = [lib.ref_full(e, n) for e in pool]
        for a, b in itertools.product(sizes, repeat=2):
            for asked in range(4):
                if asked in (1, 2) and (a + b) % 2:
                    continue
                seqs, labs, prods = [], [], []
                for i, k in enumerate((a, b)):
                    ix = [(j * j + j // 3 + i) % len(pool) for j in range(k)]
                    s = UnitarySequence(2 ** n, [ents[j] for j in ix])
                    if asked >> i & 1:
                        s.product()
                    seqs.append(s)
                    labs.append([pool[j] for j in ix])
                    prods.append(ref.product([fulls[j] for j in ix], 2 ** n))
                task.case = dict(n=n, sizes=(a, b), product_asked_for=asked)
                r = UnitarySequence.combine(*seqs)
                task.traces += 1
                task.transitions += 1
                task.outcome((n, a, b, asked))
                e = None
                if r.get_length() != a + b or [id(x) for x in r.get_sequence_entries()] != [id(x) for s in seqs for x in s.get_sequence_entries()]:
                    if [list(map(int, x.get_apply_to())) for x in r.get_sequence_entries()] != [list(q) for l in labs for _, q in l]:
                        e = "the entries are not those of the arguments"
                d = ref.phase_diff(r.product().get_matrix(), prods[1] @ prods[0])
                if not d < 1e-6:
                    e = f"the product is not that of the arguments' products (off by {d:.2g})"
                for s, k, p in zip(seqs, (a, b), prods):
                    if s.get_length() != k or not ref.phase_diff(s.product().get_matrix(), p) < 1e-6:
                        e = "an argument changed"
                if e:
                    task.violation(e, case=task.case)
    task.states += len(sizes)
