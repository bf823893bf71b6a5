"""C24 exported text: every line of every format against the entry it describes, read back with an independent reader."""
import itertools
import math
import re

import numpy as np

from mc import bfs, comp, lib, ref, rng
from mc.choice import DEFAULT_CELLS, Path, explore
from mc.comp import Config, HALVES, _t
from mc.seqspec import SeqSpec
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm
from stoqcompiler.unitary import (ParameterizedUnitary, ParameterizedUnitaryDefinitions as PD, ParameterizedUnitaryParameter, Unitary, UnitaryDefinitions as D,
                                  UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry)
from stoqcompiler.verification import Verification

PI = math.pi
H2 = ref.generic_hermitian(2, 1)
H4 = ref.generic_hermitian(4, 2)
BOUND = {"quick": "every gate x every ordered qubit list on 1-4 qubits (1-5 for gates of one or two qubits) x 40 values per parameter (rounding boundaries, negative, tiny, several turns, "
                  "4 number types), original and inverted, in all three formats; operations of 4-7 qubits in all or many orders; all arrangements of up to 8 parameters; all reachable sequences of <= 2-3 entries over 5 configurations under append, remove, undo, product, "
                  "inverse, combine; every execution of 8 compilations, 3 random sequences and 5 Hamiltonian decompositions, read back to the product",
         "thorough": "as quick with 5 qubits for all gates, 200 values per parameter, 3-4 entries"}


def tasks(tier):
    big = tier == "thorough"
    t = [("placed", dict(n=n, part=p, parts=2, top=3)) for n in range(1, 5) for p in range(2)]
    t += [("placed", dict(n=5, part=p, parts=8, top=3 if big else 2)) for p in range(8)]
    t += [("values", dict(gate=g, count=200 if big else 40)) for g in range(len(VALUED))]
    t += [("bare", {}), ("parameters", {}), ("many", dict(top=120 if big else 40))]
    t += [("wide", dict(part=p, parts=4)) for p in range(4)]
    L = 3 if big else 2
    A, B, C = (("rx", 0.7), (0,)), (("r", -0.4, 2.25), (1,)), (("cnot",), (1, 0))
    E, F, G = (("xx", 0.3), (2, 0)), (("t",), (1,)), (("inv", ("rz", 1.9)), (0,))
    for spec in (dict(n=1, gates=[A, G], max_len=L, ops=("text", "undo", "inverse")), dict(n=2, gates=[B, C], max_len=L, ops=("text", "product", "undo", "inverse")),
                 dict(n=3, gates=[E, F], max_len=2, ops=("text", "undo", "inverse", "combine"), other=[A]), dict(n=2, gates=[C, F], max_len=3 if big else 2, ops=("text", "undo", "combine"),
                                                                                                     other=[B], shared=True),
                 dict(n=2, gates=[B], max_len=3, ops=("inverse", "undo"), start=[C, C], how="sharedarray")):
        t.append(("states", dict(spec=spec)))
    t += [("produced", dict(name=k, more=1 if big else 0)) for k in PRODUCED]
    t += [("hamiltonian", dict(name=k)) for k in ("ideal", "trotter", "shuffled", "qdrift", "stoq")]
    return t


# ---- what an operation should say ----------------------------------------------------------------

def describe(g):
    """(name, [(parameter, value, angle)], inverted, matrix) of a gate label"""
    k = g[0]
    if k == "inv":
        n, ps, i, m = describe(g[1])
        return n, ps, not i, m.conj().T
    m = None
    th = lambda *v: [(s, x, True) for s, x in zip("θΦ", v)]     # noqa: E731
    if k in ("rx", "ry", "rz"):
        return "R" + k[1], th(g[1]), False, lib.ref_gate(g)
    if k == "r":
        return "R", th(g[1], g[2]), False, lib.ref_gate(g)
    if k == "xx":
        return "XX", th(g[1]), False, lib.ref_gate(g)
    if k == "gms":
        return f"GMS{g[1]}", th(g[2]), False, lib.ref_gate(g)
    if k == "i":
        return "I", [], False, lib.ref_gate(g)
    if k == "gen":
        return "U", [], False, lib.ref_gate(g)
    if k == "te":       # ("te", qubits, time, suffix)
        h = H2 if g[1] == 1 else H4
        return "H" + g[3], [("t", g[2], False)], False, ref.expm_h(h, g[2])
    if k == "pxy":
        return "Rxy", [("theta", g[1], True), ("phi", g[2], True)], False, ref.rphi(g[1], g[2])
    if k == "pxyz":
        return "Rxyz", [(s, v, True) for s, v in zip(("alpha", "beta", "gamma"), g[1:])], False, ref.rxyz(*g[1:])
    if k == "pcustom":
        return "C", [("b", g[1], False), ("a", g[2], True)], False, comp.custom_matrix(g[1], g[2])
    if k == "pte":
        return "Hs", [("t", g[1], False)], False, ref.expm_h(H2, g[1])
    if k == "own":
        return "My", [("z", g[1], False), ("a", g[2], True), ("m", g[3], False)], False, ref.generic_unitary(2, 3)
    return dict(h="H", t="T", x="X", y="Y", z="Z", cnot="CNOT", ccnot="CCNOT")[k], [], False, lib.ref_gate(g)


CUSTOM = ParameterizedUnitary(2, comp.custom_matrix, [ParameterizedUnitaryParameter("b", -1e6, 1e6, False), ParameterizedUnitaryParameter("a", -1e6, 1e6, True)], "C")


def make(g):
    k = g[0]
    if k == "inv":
        return make(g[1]).inverse()
    if k == "te":
        return D.time_evolution(H2 if g[1] == 1 else H4, g[2], g[3])
    if k == "pxy":
        return PD.rotation_xy().as_unitary(list(g[1:]))
    if k == "pxyz":
        return PD.rotation_xyz().as_unitary(list(g[1:]))
    if k == "pcustom":
        return CUSTOM.as_unitary(list(g[1:]))
    if k == "pte":
        return PD.time_evolution(H2, -1e6, 1e6, "s").as_unitary([g[1]])
    if k == "own":
        return Unitary(2, ref.generic_unitary(2, 3), "My", {"z": (g[1], False), "a": (g[2], True), "m": (g[3], False)})
    return lib.lib_gate(g)


# ---- the reader ----------------------------------------------------------------------------------

QASM = re.compile(r"^(?P<name>[^(\t]*?)(?:\((?P<par>[^()]*)\))?\s+(?P<q>q\[\d+\](?:\s*,\s*q\[\d+\])*)\s*;\s*$")
JAQAL = re.compile(r"^(?P<name>.*?)\s+(?P<q>q\[\d+\](?:\s+q\[\d+\])*)(?P<par>(?:\s+[^\sq]\S*)*)\s*$")
DISPLAY = re.compile(r"^(?P<name>.*?)(?:\[(?P<q>\s*\d+(?:\s*,\s*\d+)*\s*)\])?(?:\((?P<par>[^()]*)\))?(?P<inv>†?)$")


def number(s, scale, digits):
    """the number, or None if it is not a plain number of at most `digits` decimals"""
    s = s.strip()
    if scale:
        if scale == "pi*":
            if not s.startswith("pi*"):
                return None
            s = s[3:]
        else:
            if not s.endswith("π"):
                return None
            s = s[:-1]
    if not re.fullmatch(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", s):
        return None
    v = float(s)
    if not abs(v * 10 ** digits - round(v * 10 ** digits)) <= 1e-6 * max(1.0, abs(v)):
        return None
    return v


def judge_number(s, value, scale, digits):
    v = number(s, scale, digits)
    want = float(value) / PI if scale else float(value)
    if v is None:
        return f"{s!r} is not a number of {digits} decimals" + (f" times {scale}" if scale else "")
    if not abs(v - want) <= 0.5 * 10.0 ** -digits * (1 + 1e-6) + 4e-16 * abs(want):
        return f"{s!r} for the value {want!r}"
    return None


def qs(s):
    return [int(x) for x in re.findall(r"\d+", s or "")]


def judge_line(fmt, line, name, params, qubits, inverted, task=None):
    """None or message; for QASM and JAQAL of inverted operations an unmarked line is the recorded finding"""
    m = {"qasm": QASM, "jaqal": JAQAL, "display": DISPLAY}[fmt].match(line)
    if not m:
        return f"{fmt} line {line!r} cannot be read"
    got = m.group("name")
    if fmt == "display":
        if bool(m.group("inv")) != inverted:
            return f"display line {line!r} is {'' if inverted else 'not '}of an inverted operation"
        if got != name:
            return f"display line {line!r} does not name {name}"
    elif got != name and not (inverted and name in got):
        return f"{fmt} line {line!r} does not name {name}"
    if qs(m.group("q")) != list(qubits):
        return f"{fmt} line {line!r} is not on qubits {list(qubits)}"
    par = m.group("par")
    if fmt == "jaqal":
        parts = par.split()
    else:
        parts = par.split(",") if par else []
    if len(parts) != len(params):
        return f"{fmt} line {line!r} has {len(parts)} parameters instead of {len(params)}"
    for p, (k, v, angle) in zip(parts, params):
        if fmt == "display":
            key, _, p = p.partition("=")
            if key.strip() != k:
                return f"display line {line!r} calls {k} {key!r}"
            e = judge_number(p, v, "π" if angle else "", 3 if angle else 4)
        elif fmt == "qasm":
            e = judge_number(p, v, "pi*" if angle else "", 7)
        else:
            e = judge_number(p, v, "", 7)
        if e:
            return f"{fmt} line {line!r}: {e}"
    return None


FORMATS = (("qasm", "get_qasm"), ("jaqal", "get_jaqal"), ("display", "get_display_output"))


def lines_of(text, k):
    """the entry lines of a text for k entries; None or (lines, message)"""
    ls = text.split("\n")
    if k == 0 and len(ls) == 2 and not ls[1].strip():
        ls = ls[:1]
    if len(ls) == k + 2 and not ls[-1].strip():
        ls = ls[:-1]
    if len(ls) != k + 1:
        return None, f"{len(ls) - 1} lines after the heading for {k} entries"
    if not ls[0].startswith(("#", "//")):
        return None, f"heading {ls[0]!r} is not a comment"
    return ls[1:], None


def judge_seq(task, seq, labels, case):
    """all formats of a sequence against [(gate label, qubits)]"""
    ds = [describe(g) for g, _ in labels]
    for fmt, get in FORMATS:
        ls, e = lines_of(getattr(seq, get)(), len(labels))
        task.transitions += 1
        if e:
            task.violation(f"{fmt}: {e}", case=case)
            continue
        for i, (ln, (name, params, inv, _), (_, q)) in enumerate(zip(ls, ds, labels)):
            e = judge_line(fmt, ln, name, params, q, inv)
            if e:
                task.violation(f"entry {i}: {e}", case=case)


# ---- every gate, qubit list, value ---------------------------------------------------------------

GATES = [("rx", 0.7), ("ry", -2.0), ("rz", 5.5), ("r", 0.4, -1.2), ("h",), ("t",), ("x",), ("y",), ("z",), ("i", 2), ("gen", 2, 1), ("te", 1, 0.3, "0"), ("pxy", 0.5, 6.0),
         ("pxyz", 0.1, 2.0, 4.0), ("pcustom", 0.25, 1.5), ("pte", -3.25), ("own", 1.5, 2.5, -0.25), ("cnot",), ("xx", 0.3), ("gms", 2, 0.9), ("te", 2, -1.5, "ab"), ("gen", 4, 1), ("i", 4),
         ("ccnot",), ("gms", 3, -0.2), ("gen", 8, 1)]


def indistinct(task, g, make_text):
    """the inverse is distinguishable from the original, or this is the recorded finding"""
    if make_text(g) == make_text(("inv", g)):
        task.known("inverse-indistinct")


def placed(task, n, part, parts, top):
    for j, g in enumerate(GATES):
        k = comp.qubits_of(g) if g[0] in ("rx", "ry", "rz", "r", "h", "t", "x", "y", "z", "i", "gen", "cnot", "xx", "gms", "ccnot") else (2 if g[:2] == ("te", 2) else 1)
        if k > min(n, top) or j % parts != part:
            continue
        for q in itertools.permutations(range(n), k):
            for lab in (g, ("inv", g), ("inv", ("inv", g))):
                for form in (list(q), tuple(q), np.array(q)) if lab == g else (list(q),):
                    e = UnitarySequenceEntry(make(lab), form)
                    s = UnitarySequence(2 ** n, [e])
                    judge_seq(task, s, [(lab, q)], dict(n=n, gate=lab, qubits=q, form=type(form).__name__))
                    f = e.get_full_unitary(2 ** n)
                    name, params, inv, _ = describe(lab)
                    for fmt, line in (("qasm", f.get_qasm()), ("jaqal", f.get_jaqal()), ("display", f.get_display_name())):
                        m = judge_line(fmt, line, name, params, q, inv)
                        if m:
                            task.violation(f"full-system unitary: {m}", case=dict(n=n, gate=lab, qubits=q))
                    task.traces += 1
                    task.outcome((n, lab, q))
            s = UnitarySequence(2 ** n, [UnitarySequenceEntry(make(g), list(q))])
            for get in ("get_qasm", "get_jaqal"):
                indistinct(task, g, lambda x: getattr(UnitarySequence(2 ** n, [UnitarySequenceEntry(make(x), list(q))]), get)())
            i = s.inverse()
            judge_seq(task, i, [(("inv", g), q)], dict(n=n, gate=g, qubits=q, how="inverse of the sequence"))
            judge_seq(task, i.inverse(), [(g, q)], dict(n=n, gate=g, qubits=q, how="inverse of the inverse"))
            if i.get_display_output() == s.get_display_output():
                task.violation("display output of the inverse is that of the original", case=dict(n=n, gate=g, qubits=q))
    task.states += 1


def numbers(count):
    base = [0.0, -0.0, 1.0, -1.0, PI, -PI, PI / 2, PI / 3, 2 * PI, 3 * PI, -5 * PI / 4, 0.5, 1e-3, 1e-4, 4.9e-5, 5.1e-5, 1e-6, 1e-7, 4e-8, 6e-8, 1e-9, -6e-8, 0.12345674, 0.12345676,
            -0.99999995, -0.99999994, 0.9995 * PI, 0.99949 * PI, 12345.678901, -98765.4321, 1e-12, 2.0, 100.0, 0.1 + 0.2, 1 / 3, -2 / 3, PI * 1e-7, PI * 0.00049, PI * 0.00051, 1e4]
    k = 0
    while len(base) < count:
        base.append(math.sin(1.7 * k + 0.3) * 10 ** (k % 9 - 4))
        k += 1
    return base[:count]


VALUED = [lambda v: ("rx", v), lambda v: ("ry", v), lambda v: ("rz", v), lambda v: ("xx", v), lambda v: ("gms", 3, v), lambda v: ("te", 1, v, "x1"), lambda v: ("pte", v),
          lambda v: ("r", v, 1.25), lambda v: ("r", 1.25, v), lambda v: ("pcustom", v, 0.5), lambda v: ("pcustom", 0.5, v), lambda v: ("own", v, 0.1, 0.2), lambda v: ("own", 0.1, v, 0.2),
          lambda v: ("own", 0.1, 0.2, v)]


def values(task, gate, count):
    f = VALUED[gate]
    for v in numbers(count):
        if f(v)[0] == "te" and abs(v) > 1e3:
            v = v / 1e3
        forms = [v, np.float64(v)] + ([int(v), np.int64(v)] if v == int(v) else [])
        for x in forms:
            g = f(x)
            k = 3 if g[0] == "gms" else 2 if g[0] == "xx" else 1
            for q in ([tuple(range(k)), tuple(reversed(range(k)))] if k > 1 else [(0,), (2,)]):
                s = UnitarySequence(8, [UnitarySequenceEntry(make(g), list(q))])
                judge_seq(task, s, [(g, q)], dict(gate=repr(g), qubits=q))
                judge_seq(task, s.inverse(), [(("inv", g), q)], dict(gate=repr(g), qubits=q, how="inverse"))
            task.traces += 1
            task.outcome((gate, v, type(x).__name__))
        u = make(f(v))
        name, params, _, _ = describe(f(v))
        m = judge_line("display", u.get_display_name(), name, params, [], False)
        if m:
            task.violation(f"not placed: {m}", case=dict(gate=repr(f(v))))
    task.states += 1


def wide(task, part, parts):
    """operations on four to eight qubits, in every or many orders, placed and not placed"""
    items = [(4, 5, q) for q in itertools.permutations(range(5), 4)] + [(5, 5, q) for q in itertools.permutations(range(5))]
    items += [(5, 6, q) for q in itertools.islice(itertools.permutations(range(6), 5), 3, None, 17)] + [(6, 6, q) for q in itertools.islice(itertools.permutations(range(6)), 1, None, 29)]
    items += [(5, 8, q) for q in itertools.islice(itertools.permutations(range(8), 5), 5, None, 901)] + [(7, 8, q) for q in itertools.islice(itertools.permutations(range(8), 7), 5, None, 2601)]
    for j, (k, n, q) in enumerate(items):
        if j % parts != part:
            continue
        gates = [("gen", 2 ** k, 1), ("gms", k, 0.3)]
        for g in gates[:1 if k > 5 else 2]:
            for lab in (g, ("inv", g)):
                if n < 8:
                    s = UnitarySequence(2 ** n, [UnitarySequenceEntry(make(lab), list(q))])
                    judge_seq(task, s, [(lab, q)], dict(n=n, gate=lab, qubits=q))
                name, params, inv, m = describe(lab)
                own = Unitary(2 ** k, m, name, {key: (v, a) for key, v, a in params}, inv, list(q))
                for fmt, line in (("qasm", own.get_qasm()), ("jaqal", own.get_jaqal()), ("display", own.get_display_name())):
                    e = judge_line(fmt, line, name, params, q, inv)
                    task.transitions += 1
                    if e:
                        task.violation(f"own qubits: {e}", case=dict(gate=lab, qubits=q))
                task.traces += 1
        task.outcome((k, n, q))
    for q in ((10, 2, 33, 5, 100), (5, 12, 1, 0, 9, 3), (7, 6, 5, 4, 3, 2, 1), (0, 1, 2, 3, 4, 5), (15, 14), (20,)):
        u = Unitary(2 ** len(q), ref.generic_unitary(2 ** len(q), 1), "W", {"a": (0.5, False)}, False, list(q))
        for x, inv in ((u, False), (u.inverse(), True), (u.inverse().inverse(), False)):
            for fmt, line in (("qasm", x.get_qasm()), ("jaqal", x.get_jaqal()), ("display", x.get_display_name())):
                e = judge_line(fmt, line, "W", [("a", 0.5, False)], q, inv)
                if e:
                    task.violation(e, case=dict(qubits=q))
    task.states += 1


def parameters(task):
    """operations with up to eight parameters of their own, angles and numbers in every arrangement, equal values among them"""
    keys = "zamqbΦtθ"
    for k in range(0, 9):
        for angles in itertools.product((False, True), repeat=k) if k < 6 else [tuple((i * j) % 3 == 0 for i in range(k)) for j in range(5)]:
            for vals in ([0.25 + 0.5 * i for i in range(k)], [1.5] * k, [-0.1 * (k - i) for i in range(k)], [0.0] * k):
                params = list(zip(keys, vals, angles))
                d = {key: (v, a) for key, v, a in params}
                u = Unitary(2, ref.generic_unitary(2, 3), "My", d)
                for x, inv in ((u, False), (u.inverse(), True)):
                    for fmt, line in (("qasm", x.get_qasm()), ("jaqal", x.get_jaqal()), ("display", x.get_display_name())):
                        e = judge_line(fmt, line, "My", params, [] if fmt == "display" else [0], inv)
                        task.transitions += 1
                        if e:
                            task.violation(e, case=dict(parameters=params))
                s = UnitarySequence(4, [UnitarySequenceEntry(u, [1])])
                for fmt, get in FORMATS:
                    ls, e = lines_of(getattr(s, get)(), 1)
                    e = e or judge_line(fmt, ls[0], "My", params, [1], False)
                    if e:
                        task.violation(e, case=dict(parameters=params))
                if [(key, u.get_parameter_value(key)) for key in d] != [(key, (v, a)) for key, v, a in params] or u.get_parameter_value("nope") is not None:
                    task.violation("a parameter reads back with another value", case=dict(parameters=params))
                task.traces += 1
            task.outcome((k, angles))
    for name in ("U", "R", "Long_name_2", "H'", "X2", "u3", "√X", "a b"):
        for i in (False, True):
            u = Unitary(2, ref.generic_unitary(2, 3), name, {"a": (0.5, True)}, i, [3])
            for fmt, line in (("qasm", u.get_qasm()), ("jaqal", u.get_jaqal()), ("display", u.get_display_name())):
                e = judge_line(fmt, line, name, [("a", 0.5, True)], [3], i)
                if e:
                    task.violation(e, case=dict(name=name, inverse=i))
    task.states += 1


def bare(task):
    """operations that are not placed: default qubits in order; own names, own qubits"""
    for g in GATES:
        name, params, _, m = describe(g)
        k = int(math.log2(m.shape[0]))
        for lab in (g, ("inv", g)):
            u = make(lab)
            for fmt, line, q in (("qasm", u.get_qasm(), range(k)), ("jaqal", u.get_jaqal(), range(k)), ("display", u.get_display_name(), [])):
                e = judge_line(fmt, line, name, params, list(q), lab[0] == "inv")
                task.transitions += 1
                if e:
                    task.violation(f"not placed: {e}", case=dict(gate=lab))
        for get in ("get_qasm", "get_jaqal"):
            indistinct(task, g, lambda x: getattr(make(x), get)())
    # a unitary that already carries qubits, placed elsewhere: the placement counts
    for own, placed_on in itertools.permutations([(0, 1), (1, 0), (2, 1), (0, 2)], 2):
        u = Unitary(4, ref.generic_unitary(4, 1), "Q", {"s": (0.5, False)}, False, list(own))
        for fmt, line in (("qasm", u.get_qasm()), ("jaqal", u.get_jaqal()), ("display", u.get_display_name())):
            e = judge_line(fmt, line, "Q", [("s", 0.5, False)], own, False)
            if e:
                task.violation(e, case=dict(own=own))
        s = UnitarySequence(8, [UnitarySequenceEntry(u, list(placed_on))])
        for fmt, get in FORMATS:
            ls, e = lines_of(getattr(s, get)(), 1)
            e = e or judge_line(fmt, ls[0], "Q", [("s", 0.5, False)], placed_on, False)
            task.transitions += 1
            if e:
                task.violation(f"qubits {own} placed on {placed_on}: {e}", case=dict(own=own, placed=placed_on))
        for i in (u.inverse(), u.inverse().inverse()):
            if qs(i.get_qasm().partition("\t")[2]) != list(own):
                task.violation("the inverse is on other qubits", case=dict(own=own))
    # ten and more qubits: two-digit numbers
    for q in ((9, 10), (10, 9), (1, 10), (11, 0)):
        u = Unitary(4, ref.CNOT, "CX", {}, False, list(q))
        for fmt, line in (("qasm", u.get_qasm()), ("jaqal", u.get_jaqal()), ("display", u.get_display_name())):
            e = judge_line(fmt, line, "CX", [], q, False)
            if e:
                task.violation(e, case=dict(qubits=q))
    task.traces += len(GATES)
    task.states += 1


def many(task, top):
    """every number of entries up to top: one line each, in order; the same entry object on different systems"""
    pool = [(("rx", 0.1), (0,)), (("cnot",), (2, 0)), (("r", 0.3, 0.4), (1,)), (("inv", ("t",)), (2,)), (("gms", 3, 0.2), (2, 0, 1)), (("h",), (1,))]
    for how in ("list", "append", "prepend", "shared", "array"):
        for k in range(top + 1):
            labels = [pool[(i * i + i // 2) % len(pool)] for i in range(k)]
            judge_seq(task, lib.new_sequence(3, labels, how), labels, dict(how=how, length=k))
            task.traces += 1
            task.outcome((how, k))
    for lab in pool[:4]:
        e = lib.lib_entry(lab)
        for n in (3, 4, 3, 5, 4):
            judge_seq(task, UnitarySequence(2 ** n, [e]), [lab], dict(n=n, entry=lab))
            s = UnitarySequence(2 ** n)
            s.append_last(e)
            judge_seq(task, s, [lab], dict(n=n, entry=lab, how="append"))
    task.states += 1


class TextSpec(SeqSpec):
    task = None

    def check(self, w):
        labels = list(w.model.entries)
        n0 = len(self.task.violations)
        judge_seq(self.task, w.live["seq"], labels, self.task.case)
        if len(self.task.violations) > n0:
            return self.task.violations.pop()["message"]
        return read_back(w.live["seq"], labels, 2 ** self.n)


def states(task, spec):
    s = TextSpec(**spec)
    s.task = task
    bfs.search(task, s, case=dict(spec=spec))


# ---- reading back --------------------------------------------------------------------------------

READ = {"Rx": ref.rx, "Ry": ref.ry, "Rz": ref.rz, "R": ref.rphi, "Rxy": ref.rphi, "Rxyz": ref.rxyz, "XX": ref.xx, "H": lambda: ref.H, "T": lambda: ref.T, "X": lambda: ref.X, "Y": lambda: ref.Y,
        "Z": lambda: ref.Z, "CNOT": lambda: ref.CNOT, "CCNOT": lambda: ref.CCNOT, "GMS2": lambda t: ref.gms(2, t), "GMS3": lambda t: ref.gms(3, t), "C": comp.custom_matrix}


def program(seq, fmt, n_qubits, extra=None):
    """[matrix] of a QASM or JAQAL text; inversion is taken from the display text (the recorded finding)"""
    k = seq.get_length()
    ls, e = lines_of(seq.get_qasm() if fmt == "qasm" else seq.get_jaqal(), k)
    ds, e2 = lines_of(seq.get_display_output(), k)
    if e or e2:
        return None, e or e2
    out = []
    for ln, d in zip(ls, ds):
        m = (QASM if fmt == "qasm" else JAQAL).match(ln)
        if not m:
            return None, f"{fmt} line {ln!r} cannot be read"
        par = m.group("par") or ""
        vals = [number(p, "pi*" if "pi*" in p else "", 7) for p in (par.split(",") if fmt == "qasm" else par.split()) if p]
        if None in vals:
            return None, f"{fmt} line {ln!r} has unreadable numbers"
        vals = [v * PI if fmt == "qasm" and "pi*" in p else v for v, p in zip(vals, par.split(",") if fmt == "qasm" else par.split())]
        name = m.group("name")
        inv = d.endswith("†")
        f = (extra or {}).get(name) or READ.get(name) or (READ.get(re.sub(r"[^A-Za-z0-9]|inv|dg$", "", name)) if inv else None)
        if f is None:
            return None, f"{fmt} line {ln!r} names an unknown operation"
        try:
            u = f(*vals)
        except TypeError:
            return None, f"{fmt} line {ln!r} has a wrong number of parameters"
        q = qs(m.group("q"))
        if 2 ** len(q) != u.shape[0]:
            return None, f"{fmt} line {ln!r} has a wrong number of qubits"
        out.append(ref.embed(u.conj().T if inv else u, q, n_qubits))
    return out, None


def read_back(seq, labels, dim, extra=None):
    n = int(math.log2(dim))
    for fmt in ("qasm", "jaqal"):
        ms, e = program(seq, fmt, n, extra)
        if e:
            return e
        d = ref.phase_diff(ref.product(ms, dim), seq.product().get_matrix())
        if not d < 2e-6 * (1 + len(ms)):
            return f"the {fmt} text reads back as another product (off by {d:.3g})"
    return None


XY, XYZ, PXX = ("p", "xy"), ("p", "xyz"), ("p", "xx")
PRODUCED = {
    "rx": (dict(n=1, prims=[(("rx", 0.9), None), (("h",), None)]), 3, "compile"),
    "xy": (dict(n=1, prims=[(XY, None)]), 2, "compile"),
    "two": (dict(n=2, prims=[(("cnot",), None), (("r", 0.2, -0.9), [(1,)])]), 3, "compile"),
    "mixed": (dict(n=2, prims=[(PXX, None), (("t",), None)]), 2, "compile"),
    "three": (dict(n=3, prims=[(("ccnot",), None), (("ry", 0.3), [(2,)])]), 2, "compile"),
    "custom": (dict(n=1, prims=[(("p", "custom", -1.0, 2.0, 0.0, 1.0), None), (("rz", -1.5), None)]), 2, "compile"),
    "layered": (dict(n=2, prims=[(("cnot",), None), (("t",), None)], counts=[1, 1]), 2, "compile"),
    "xyz": (dict(n=1, prims=[(XYZ, None)]), 1, "compile"),
    "rav": (dict(n=1, prims=[(("rx", 0.9), None), (("t",), None)]), 2, "rav"),
    "lrav": (dict(n=2, prims=[(("cnot",), None), (("h",), None)], counts=[1, 1]), 1, "lrav"),
    "xeb": (dict(n=2, prims=[(("cnot",), None), (("h",), None)], counts=[1, 1]), 2, "xeb"),
}


def produced(task, name, more):
    d, budget, how = PRODUCED[name]
    cfg = Config(**d)
    extra = {"custom": comp.custom_matrix}

    def run(path):
        with rng.controlled(path):
            if how == "compile":
                return cfg.call(budget + more).compiled_sequence
            prims = cfg.lib_prims()
            if how == "rav":
                return Verification.generate_rav_sequence(cfg.dim, prims, budget, 0.99, max_step_count=1 + more).compiled_sequence
            if how == "lrav":
                return Verification.generate_layered_rav_sequence(cfg.dim, dict(zip(prims, cfg.counts)), budget, 0.99, max_step_count=1).compiled_sequence
            return Verification.generate_xeb_sequence(cfg.dim, dict(zip(prims, cfg.counts)), budget).compiled_sequence
    seen_texts = set()
    for path, seq in explore(run, cells=HALVES if name in ("xyz",) else DEFAULT_CELLS if budget < 3 else HALVES, max_leaves=400000):
        task.case = dict(choices=path.trace())
        task.traces += 1
        task.transitions += len(path.points)
        text = seq.get_qasm()
        if text in seen_texts:
            continue
        seen_texts.add(text)
        for s in (seq, seq.inverse()):
            e = read_back(s, None, cfg.dim, extra)
            if e:
                task.violation(e + (" (inverse)" if s is not seq else ""), case=task.case)
            ls, _ = lines_of(s.get_display_output(), s.get_length())
            for ln, entry in zip(ls, s.get_sequence_entries()):
                m = DISPLAY.match(ln)
                if m.group("name") != entry.get_full_unitary(cfg.dim).get_operation_name() or qs(m.group("q")) != [int(q) for q in entry.get_apply_to()]:
                    task.violation(f"display line {ln!r} is not of its entry", case=task.case)
        task.outcome(text)
    task.states += 1


def hamiltonian(task, name):
    ts = [0.7 * np.kron(ref.X, ref.Z), 1.3 * np.kron(ref.I2, ref.Y), ref.generic_hermitian(4, 1)]
    ham = Hamiltonian([HamiltonianTerm(t) for t in ts])
    extra = {f"H{i}": (lambda h: lambda t: ref.expm_h(h, t))(h) for i, h in enumerate(ts)}
    extra["H"] = lambda t: ref.expm_h(sum(ts), t)
    for i, h in enumerate(ts):
        extra[f"H{i} λ/N"] = (lambda h: lambda t: ref.expm_h(h / np.max(np.abs(np.linalg.eigvalsh(h))), t))(h)

    def run(path):
        with rng.controlled(path):
            if name == "ideal":
                return ham.get_ideal_sequence(1.2345678, 3)
            if name == "trotter":
                return ham.get_trotter_sequence(-1.2345678, 3)
            if name == "shuffled":
                return ham.get_trotter_sequence(1.1, 2, randomize=True)
            if name == "qdrift":
                return ham.get_qdrift_sequence(0.9, 4)
            from mc.hamstoq import limited
            with limited(2):
                return ham.compile_stoq_sequence(0.5, 0.8, 0.99).compiled_sequence
    for path, seq in explore(run, cells=HALVES, deviations=6 if name == "stoq" else None, horizon=60):
        task.case = dict(choices=path.trace())
        task.traces += 1
        task.transitions += len(path.points)
        for s in (seq, seq.inverse()):
            e = read_back(s, None, 4, extra)
            if e:
                task.violation(e, case=task.case)
        task.outcome(seq.get_qasm())
    task.states += 1
