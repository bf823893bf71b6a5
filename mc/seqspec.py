"""The sequence as a state machine: all operations of UnitarySequence against ref.SeqModel."""
from . import lib, ref
from .lib import UnitarySequence


class World:
    def __init__(self, live, model):
        self.live = live      # dict: seq, pool (entry objects reused by appends)
        self.model = model


class SeqSpec:
    def __init__(self, n, gates, max_len, saves=(True,), ops=("product", "inverse", "combine", "text", "undo"),
                 start=(), how="list", shared=False, other=None):
        self.n, self.gates, self.max_len = n, [tuple(map(_tup, g)) for g in gates], max_len
        self.saves, self.opnames = saves, ops
        self.start, self.how, self.shared = [tuple(map(_tup, g)) for g in start], how, shared
        self.other = [tuple(map(_tup, g)) for g in (other or [])]

    def init(self):
        seq = lib.new_sequence(self.n, self.start, self.how)
        pool = {i: lib.lib_entry(g) for i, g in enumerate(self.gates)} if self.shared is True else {}
        if self.shared == "gate":      # fresh entries, the Unitary objects are common
            pool = {g[0]: lib.lib_gate(g[0]) for g in self.gates}
        live = dict(seq=seq, pool=pool)
        model = ref.SeqModel(self.start)
        if self.how in ("append", "appendcached", "prepend"):      # built by recorded appends
            model = ref.SeqModel()
            for e in (reversed(self.start) if self.how == "prepend" else self.start):
                model.append(e, self.how == "prepend", True)
        return World(live, model)

    def ops(self, w):
        out = []
        if len(w.model.entries) < self.max_len:
            for i in range(len(self.gates)):
                for s in self.saves:
                    out.append(("append_first", i, s))
                    out.append(("append_last", i, s))
        for s in self.saves:
            out.append(("remove_first", s))
            out.append(("remove_last", s))
        for o in ("undo", "product", "text", "inverse", "ask_inverse", "ask_combine", "ask_entries"):
            if o in self.opnames:
                out.append((o,))
        if "combine" in self.opnames:
            if 2 * len(w.model.entries) <= self.max_len:
                out.append(("combine_self",))
            if len(w.model.entries) + len(self.other) <= self.max_len:
                out.append(("combine_before",))
                out.append(("combine_after",))
        return out

    def apply(self, w, op):
        seq, m = w.live["seq"], w.model
        o = op[0]
        if o in ("append_first", "append_last"):
            g = self.gates[op[1]]
            e = (lib.UnitarySequenceEntry(w.live["pool"][g[0]], list(g[1])) if self.shared == "gate" else w.live["pool"][op[1]] if self.shared else lib.lib_entry(g))
            f = getattr(seq, o)
            f(e) if op[2] else f(e, save_undo=False)
            m.append(self.gates[op[1]], o == "append_first", op[2])
        elif o in ("remove_first", "remove_last"):
            f = getattr(seq, o)
            f() if op[1] else f(save_undo=False)
            m.remove(o == "remove_first", op[1])
        elif o == "undo":
            try:
                seq.undo()
                ok = True
            except Exception:
                ok = False
            want = m.undo()
            if ok and not want:
                return "undo succeeded although nothing is recorded"
            if want and not ok:
                return "undo failed although a change is recorded"
        elif o == "product":
            d = ref.phase_diff(seq.product().get_matrix(), lib.ref_product(m.entries, self.n))
            if not d < 1e-6:
                return f"product is not the ordered product of the entries (off by {d:.2g})"
        elif o == "text":
            k = len(m.entries)
            for t in (seq.get_qasm(), seq.get_jaqal(), seq.get_display_output()):
                if len(t.split("\n")) != 1 + max(k, 1):
                    return "exported text does not have one line per entry"
        elif o == "ask_inverse":
            d = lib.seq_matches(seq.inverse(), [(lib.inv_label(g), q) for g, q in reversed(m.entries)], self.n)
            if d:
                return "inverse: " + d
        elif o == "ask_combine":
            d = lib.seq_matches(UnitarySequence.combine(seq, seq), m.entries + m.entries, self.n)
            if d:
                return "combined with itself: " + d
        elif o == "ask_entries":
            seq.get_sequence_entries().reverse()
            seq.get_sequence_entries().clear()
        elif o == "inverse":
            w.live["seq"] = seq.inverse()
            w.model = ref.SeqModel([(lib.inv_label(g), q) for g, q in reversed(m.entries)])
        elif o.startswith("combine"):
            other = lib.new_sequence(self.n, self.other)
            if o == "combine_self":
                w.live["seq"] = UnitarySequence.combine(seq, seq)
                w.model = ref.SeqModel(m.entries + m.entries)
            elif o == "combine_before":
                w.live["seq"] = UnitarySequence.combine(other, seq)
                w.model = ref.SeqModel(self.other + m.entries)
            else:
                w.live["seq"] = UnitarySequence.combine(seq, other)
                w.model = ref.SeqModel(m.entries + self.other)
        return None

    def check(self, w):
        """Ends the life of w: the queries may change caches."""
        return lib.seq_matches(w.live["seq"], w.model.entries, self.n)


def _tup(x):
    return tuple(_tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def run_history(spec, hist, check_every=1):
    """Plain execution of one long history with checks; returns None or a message."""
    import copy
    w = spec.init()
    for i, op in enumerate(hist):
        m = spec.apply(w, op)
        if m:
            return f"step {i + 1}: {m}"
        if check_every and (i + 1) % check_every == 0 or i + 1 == len(hist):
            m = spec.check(copy.deepcopy(w))
            if m:
                return f"after step {i + 1}: {m}"
    return None
