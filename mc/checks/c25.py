"""C25 no hidden state: every call after every other call (and every pair of calls) against the same call in fresh processes."""
import itertools
import os
import pickle
import random
import re
import subprocess
import sys

import numpy as np

from mc import boot, comp, ref, rng
from mc.choice import HarnessError, explore
from stoqcompiler.compiler import Compiler
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm
from stoqcompiler.unitary import (ParameterizedUnitary, ParameterizedUnitaryDefinitions as P, ParameterizedUnitaryParameter as Par, Unitary, UnitaryDefinitions as D,
                                  UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry)
from stoqcompiler.verification import Verification

BOUND = {"quick": "all ordered triples (pairs for large or random families) of near-equal arguments within 88 families of calls (21 of which use one argument object again with other contents); all ordered pairs of 129 calls (each entry point with arguments differing in one respect), each under 2 generator states, compared with fresh interpreters "
                  "under 4 hash seeds and memory layouts; all triples of 31 calls; every outcome of 16 random calls after every call; 9 generator states for every random call; "
                  "each call 140 times in a row, then all others; 150-300 different calls of each of 24 kinds in 3 orders, twice each",
         "thorough": "as quick, and all triples whose last call is random, under 3 generator states; triples of all calls; 600 repetitions; series of 1000-2000"}
SEEDS = (0, 12345, 987)
HASHSEEDS = ("0", "1", "4242", "random")


# ---- observations --------------------------------------------------------------------------------

def obs_u(u):
    return ("u", u.get_dimension(), u.get_operation_name(), u.get_display_name(), u.get_qasm(), u.get_matrix().copy())


def obs_s(s):
    return ("s", s.get_dimension(), s.get_length(), s.get_display_output(), s.get_qasm(), s.get_jaqal(), s.product().get_matrix().copy(),
            [[int(q) for q in e.get_apply_to()] for e in s.get_sequence_entries()], [e.get_full_unitary(s.get_dimension()).get_matrix().copy() for e in s.get_sequence_entries()])


def obs_r(r):
    return ("r", obs_s(r.compiled_sequence), [float(c) for c in r.cost_by_step])


def obs_e(e, d):
    return ("e", [int(q) for q in e.get_apply_to()], obs_u(e.get_full_unitary(d)))


def alike(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) < 1e-9))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) < 1e-9
    return a == b


def digest(o):
    """a hashable form for comparing distributions"""
    if isinstance(o, np.ndarray):
        return tuple((np.round(o, 6) + 0.0).reshape(-1).tolist())
    if isinstance(o, (list, tuple)):
        return tuple(digest(x) for x in o)
    if isinstance(o, float):
        return round(o, 6) + 0.0
    return o


# ---- the calls -----------------------------------------------------------------------------------

def seq(n, items):
    return UnitarySequence(2 ** n, [UnitarySequenceEntry(u, q) for u, q in items])


def g(d, k=1):
    return ref.generic_unitary(d, k)


def prims(kind):
    if kind == "fixed":
        return [UnitaryPrimitive(D.rx(0.9)), UnitaryPrimitive(D.h()), UnitaryPrimitive(D.cnot(), [[0, 1], [1, 0]])]
    if kind == "fixed2":
        return [UnitaryPrimitive(D.rx(0.4)), UnitaryPrimitive(D.h(), [[1]]), UnitaryPrimitive(D.cnot(), [[1, 0]])]
    if kind == "param":
        return [UnitaryPrimitive(P.rotation_xy()), UnitaryPrimitive(P.xx())]
    return [UnitaryPrimitive(P.rotation_xy(), [[0]]), UnitaryPrimitive(P.time_evolution(ref.generic_hermitian(4, 2), -1.0, 1.0, "a"))]


def ham(k):
    ts = {0: [ref.X, 0.5 * ref.Z], 1: [0.5 * ref.X, ref.Z], 2: [np.kron(ref.X, ref.Z), 0.3 * np.kron(ref.I2, ref.Y), ref.generic_hermitian(4, 1)]}[k]
    return Hamiltonian([HamiltonianTerm(t) for t in ts])


def calls():
    """[(name, function, draws random numbers)]"""
    out = []

    def det(name, f):
        out.append((name, f, False))

    def ran(name, f):
        out.append((name, f, True))
    # gates differing in one argument
    for a in (0.3, 0.4, -0.3):
        det(f"rx {a}", lambda a=a: obs_u(D.rx(a)))
        det(f"rz {a}", lambda a=a: obs_u(D.rz(a)))
    det("ry", lambda: obs_u(D.ry(0.3)))
    for a, b in ((0.3, 0.4), (0.4, 0.3), (0.3, 0.5)):
        det(f"rphi {a} {b}", lambda a=a, b=b: obs_u(D.rphi(a, b)))
    for f in (D.h, D.t, D.sigmax, D.sigmay, D.sigmaz, D.cnot, D.ccnot, D.qecc_phase_flip, D.xx):
        det(f.__name__, lambda f=f: obs_u(f()))
    det("xx 0.3", lambda: obs_u(D.xx(0.3)))
    for n, a in ((2, 0.3), (3, 0.3), (3, 0.4)):
        det(f"gms {n} {a}", lambda n=n, a=a: obs_u(D.gms(n, a)))
    for k, t, s in ((1, 0.5, "a"), (2, 0.5, "a"), (1, 0.6, "a"), (1, 0.5, "b")):
        det(f"evolution {k} {t} {s}", lambda k=k, t=t, s=s: obs_u(D.time_evolution(ref.generic_hermitian(2, k), t, s)))
    for k in (2, 4):
        det(f"identity {k}", lambda k=k: obs_u(Unitary.identity(k)))
    det("unitary A", lambda: obs_u(Unitary(2, g(2), "A")))
    det("unitary A'", lambda: obs_u(Unitary(2, g(2, 2), "A")))
    det("unitary B", lambda: obs_u(Unitary(2, g(2), "B", {"p": (0.25, True)}, True, [1])))
    # parameterized
    det("Rxy", lambda: obs_u(P.rotation_xy().as_unitary([0.3, 0.4])))
    det("Rxy'", lambda: obs_u(P.rotation_xy().as_unitary([0.4, 0.3])))
    det("Rxyz", lambda: obs_u(P.rotation_xyz().as_unitary([0.3, 0.4, 0.5])))
    det("pXX", lambda: obs_u(P.xx().as_unitary([0.3])))
    det("pGMS", lambda: obs_u(P.gms(3).as_unitary([0.3])))
    det("pev", lambda: obs_u(P.time_evolution(ref.X, -1, 1, "a").as_unitary([0.3])))
    det("pev'", lambda: obs_u(P.time_evolution(ref.Z, -1, 1, "a").as_unitary([0.3])))
    det("custom", lambda: obs_u(ParameterizedUnitary(2, comp.custom_matrix, [Par("a", 0, 1, False), Par("b", 0, 1, True)], "C").as_unitary([0.3, 0.4])))
    det("custom'", lambda: obs_u(ParameterizedUnitary(2, lambda a, b: ref.rx(a + b), [Par("a", 0, 1, True), Par("b", 0, 1, False)], "C").as_unitary([0.3, 0.4])))
    for lo, hi in ((0, 1), (0, 2), (-1, 1)):
        det(f"range {lo} {hi}", lambda lo=lo, hi=hi: [bool(Par("p", lo, hi, True).is_valid(v)) for v in (-1.0, -0.5, 0.0, 1.0, 1.5, 2.0)])
        ran(f"draw {lo} {hi}", lambda lo=lo, hi=hi: float(Par("p", lo, hi, True).random_value()))
    # algebra
    det("inverse", lambda: obs_u(D.rx(0.3).inverse()))
    det("inverse'", lambda: obs_u(D.rx(0.4).inverse()))
    det("tensor", lambda: obs_u(D.rx(0.3).tensor(D.h())))
    det("tensor'", lambda: obs_u(D.h().tensor(D.rx(0.3))))
    det("left", lambda: obs_u(D.rx(0.3).left_multiply(D.h())))
    det("right", lambda: obs_u(D.rx(0.3).right_multiply(D.h())))
    det("distance", lambda: float(D.rx(0.3).distance_from(D.h())))
    det("distance'", lambda: float(D.rx(0.3).distance_from(g(2))))
    det("close", lambda: [bool(D.rx(0.3).close_to(D.rx(0.4), t)) for t in (None, 0.0, 0.5, 0.99, 0.9999, 1.0)])
    det("close'", lambda: [bool(D.rx(0.3).close_to(D.rx(0.9), t)) for t in (1.0, 0.99, 0.95, 0.5, 0.0, None)])
    # entries and sequences
    for q in ((0,), (1,), (2,)):
        det(f"entry {q}", lambda q=q: obs_e(UnitarySequenceEntry(D.t(), list(q)), 8))
    for q in ((0, 1), (1, 0), (2, 0)):
        det(f"entry cnot {q}", lambda q=q: obs_e(UnitarySequenceEntry(D.cnot(), list(q)), 8))
        det(f"entry gen {q}", lambda q=q: obs_e(UnitarySequenceEntry(Unitary(4, g(4)), list(q)), 8))
    det("entry small", lambda: obs_e(UnitarySequenceEntry(D.cnot(), [1, 0]), 4))
    det("entry large", lambda: obs_e(UnitarySequenceEntry(D.cnot(), [1, 0]), 16))
    det("permute", lambda: UnitarySequenceEntry(D.cnot(), [2, 0]).get_permute_matrix(8).toarray())
    det("permute'", lambda: UnitarySequenceEntry(D.cnot(), [0, 2]).get_permute_matrix(8).toarray())
    det("empty", lambda: obs_s(UnitarySequence(4)))
    det("empty 8", lambda: obs_s(UnitarySequence(8)))
    det("sequence", lambda: obs_s(seq(2, [(D.rx(0.3), [0]), (D.cnot(), [1, 0])])))
    det("sequence'", lambda: obs_s(seq(2, [(D.rx(0.4), [0]), (D.cnot(), [1, 0])])))
    det("sequence''", lambda: obs_s(seq(2, [(D.cnot(), [1, 0]), (D.rx(0.3), [0])])))
    det("sequence inverse", lambda: obs_s(seq(2, [(D.rx(0.3), [0]), (D.cnot(), [1, 0])]).inverse()))
    det("combine", lambda: obs_s(UnitarySequence.combine(seq(1, [(D.rx(0.3), [0])]), seq(1, [(D.h(), [0]), (D.t(), [0])]))))
    det("combine'", lambda: obs_s(UnitarySequence.combine(seq(1, [(D.h(), [0]), (D.t(), [0])]), seq(1, [(D.rx(0.3), [0])]))))

    def edits(kind):
        s = seq(2, [(D.rx(0.3), [0])])
        if kind & 1:
            s.product()
        s.append_last(UnitarySequenceEntry(D.h(), [1]))
        s.append_first(UnitarySequenceEntry(D.t(), [0]))
        if kind & 2:
            s.undo()
        else:
            s.remove_last()
        try:
            s.undo()
            ok = True
        except Exception:
            ok = False
        return [obs_s(s), ok]
    for k in range(4):
        det(f"edits {k}", lambda k=k: edits(k))

    def refused(k):
        try:
            [lambda: Unitary(2, np.ones((2, 2))), lambda: UnitarySequenceEntry(D.cnot(), [0, 0]), lambda: P.rotation_xy().as_unitary([9.0, 0.0]), lambda: Compiler(2, [D.h()]),
             lambda: HamiltonianTerm(np.triu(np.ones((2, 2)))), lambda: UnitarySequence(2).append_last(UnitarySequenceEntry(D.h(), [1])), lambda: UnitarySequence(2).undo()][k]()
        except Exception:
            return "refused"
        return "accepted"
    for k in range(7):
        det(f"refused {k}", lambda k=k: refused(k))
    # Hamiltonians
    det("term", lambda: [HamiltonianTerm(ref.generic_hermitian(4, 1)).get_matrix(), float(HamiltonianTerm(3 * ref.generic_hermitian(4, 1)).get_coefficient())])
    for k in (0, 1, 2):
        det(f"ham evolution {k}", lambda k=k: obs_u(ham(k).get_time_evolution_operator(0.4)))
        det(f"ham ideal {k}", lambda k=k: obs_s(ham(k).get_ideal_sequence(0.4, 2)))
        det(f"ham trotter {k}", lambda k=k: obs_s(ham(k).get_trotter_sequence(0.4, 2)))
        ran(f"ham shuffled {k}", lambda k=k: obs_s(ham(k).get_trotter_sequence(0.4, 3, randomize=True)))
        ran(f"ham qdrift {k}", lambda k=k: obs_s(ham(k).get_qdrift_sequence(0.4, 3)))
    ran("ham stoq", lambda: obs_r(ham(0).compile_stoq_sequence(1.5, 0.8, 0.7)))
    ran("ham stoq'", lambda: obs_r(ham(1).compile_stoq_sequence(1.5, 0.8, 0.7, True)))
    ran("ham rav", lambda: obs_r(ham(0).compile_rav_sequence(0.5, 0.4, 0.6)))
    # random construction, compilation, verification
    for d in (2, 4):
        ran(f"random unitary {d}", lambda d=d: obs_u(Unitary.random(d)))
    for k in ("fixed", "fixed2", "param", "ev"):
        ran(f"random entry {k}", lambda k=k: obs_e(Compiler.create_random_sequence_entry(4, prims(k)), 4))
        ran(f"compile {k}", lambda k=k: obs_r(Compiler(4, prims(k)).compile(Unitary(4, g(4)), 0.9, 6)))
        ran(f"layer {k}", lambda k=k: [obs_e(e, 4) for e in Compiler.create_random_layer(4, dict(zip(prims(k), (2, 1, 1))))])
    ran("compile probabilities", lambda: obs_r(Compiler(4, prims("fixed"), [0.8, 0.1, 0.1], 0.8, 0.5).compile(Unitary(4, g(4)), 0.9, 6)))
    ran("compile other target", lambda: obs_r(Compiler(4, prims("fixed")).compile(Unitary(4, g(4, 2)), 0.5, 6)))
    ran("compile layered", lambda: obs_r(Compiler(4, prims("fixed")).compile_layered(Unitary(4, g(4)), dict(zip(prims("fixed"), (1, 1, 1))), 0.9, 4)))
    ran("rav", lambda: obs_r(Verification.generate_rav_sequence(4, prims("fixed"), 3, 0.9, max_step_count=5)))
    ran("rav skip", lambda: obs_r(Verification.generate_rav_sequence(4, prims("param"), 3, 0.0)))
    ran("layered rav", lambda: obs_r(Verification.generate_layered_rav_sequence(4, dict(zip(prims("fixed"), (1, 1, 1))), 2, 0.9, max_step_count=3)))
    ran("xeb", lambda: obs_r(Verification.generate_xeb_sequence(4, dict(zip(prims("fixed"), (1, 1, 1))), 2)))
    return out


STORE = {}      # argument objects that are used again with other contents


def same_array(key, value):
    value = np.asarray(value)
    a = STORE.setdefault((key, value.shape, value.dtype.str), np.empty_like(value))
    a[...] = value
    return a


def same_list(key, value):
    a = STORE.setdefault(key, [])
    a[:] = value
    return a


def same_dict(key, value):
    a = STORE.setdefault(key, {})
    a.clear()
    a.update(value)
    return a


def same_counts(counts):
    ps = STORE.setdefault("counted", prims("fixed"))
    return same_dict("counts", dict(zip(ps, counts)))


def same_compiler():
    return STORE.setdefault("compiler", Compiler(4, prims("fixed")))


def few(f):
    """a Hamiltonian compilation of at most 6 steps"""
    from mc.hamstoq import limited
    with limited(6):
        return f()


def same_ham():
    return STORE.setdefault("ham", ham(2))


def same_gate():
    return STORE.setdefault("gate", P.rotation_xy())


def same_sequence(angles):
    """one sequence object, emptied and filled again"""
    s = STORE.setdefault("sequence", UnitarySequence(2))
    while s.get_length():
        s.remove_last()
    for a in angles:
        s.append_first(UnitarySequenceEntry(D.rx(a), [0]))
        s.append_last(UnitarySequenceEntry(D.rz(a), [0]))
    return s


def families():
    """[(family, name, function, draws random numbers)]: one entry point with arguments that a shortcut could take for one another"""
    out = []
    near = [0.3, 0.3 + 1e-5, 0.3 + 1e-7, 0.3 - 2e-5, -0.3, 0.3 + 2 * np.pi, 0.3 + 4 * np.pi]

    def add(fam, name, f, rand=False):
        out.append((fam, f"{fam}: {name}", f, rand))
    zero_one = [0.0, 1.0, np.float32(0.3)]
    for fn in ("rx", "ry", "rz", "xx"):
        for a in near + zero_one:
            add(fn, f"{a!r}", lambda a=a, fn=fn: obs_u(getattr(D, fn)(a)))
    for a, b in ((0.3, 0.4), (0.4, 0.3), (0.3 + 1e-6, 0.4), (0.3, 0.4 + 1e-6), (-0.3, 0.4), (0.3, -0.4), (0.3, 0.4 + 2 * np.pi), (0.3 + 2 * np.pi, 0.4), (0.0, 0.4)):
        add("rphi", f"{a!r} {b!r}", lambda a=a, b=b: obs_u(D.rphi(a, b)))
        add("Rxy", f"{a!r} {b!r}", lambda a=a, b=b: obs_u(P.rotation_xy().as_unitary([abs(a) % 6.2, abs(b) % 6.2])))
        add("Rxyz", f"{a!r} {b!r}", lambda a=a, b=b: [obs_u(P.rotation_xyz().as_unitary(v)) for v in ([abs(a) % 6.2, abs(b) % 6.2, 0.5], [0.5, abs(b) % 6.2, abs(a) % 6.2])])
    for n, a in ((2, 0.3), (2, 0.3 + 1e-6), (3, 0.3), (3, 0.3 - 1e-6), (2, -0.3), (3, 0.3 + np.pi), (2, 1.0), (3, 1.0), (4, 0.3)):
        add("gms", f"{n} {a!r}", lambda n=n, a=a: obs_u(D.gms(n, a)))
        if a > 0:
            add("pGMS", f"{n} {a!r}", lambda n=n, a=a: obs_u(P.gms(n).as_unitary([a])))
            add("pXX", f"{a!r}", lambda a=a: obs_u(P.xx().as_unitary([a])))
    h = ref.generic_hermitian(4, 1)
    bump = np.zeros((4, 4), dtype=complex)
    bump[0, 1], bump[1, 0] = 1e-6j, -1e-6j
    herm = {"h": h, "h+": h + bump, "h-": h - 20 * bump, "conj": h.conj(), "F": np.asfortranarray(h), "view": h[::-1, ::-1][::-1, ::-1], "neg": -h, "real": h.real.copy(), "half": 0.5 * h,
            "perm": h[::-1, ::-1].copy(), "c64": h.astype(np.complex64), "bigger": np.kron(np.eye(2), h)}
    for k, m in herm.items():
        add("evolution", k, lambda m=m: obs_u(D.time_evolution(m, 0.5, "a")))
        add("pev", k, lambda m=m: obs_u(P.time_evolution(m, -1.0, 1.0, "a").as_unitary([0.5])))
        add("term", k, lambda m=m: [float(HamiltonianTerm(m).get_coefficient()), HamiltonianTerm(m).get_normalized_matrix().copy()])
        add("ham", k, lambda m=m: [obs_u(Hamiltonian([HamiltonianTerm(m)]).get_time_evolution_operator(0.5)), obs_s(Hamiltonian([HamiltonianTerm(m)]).get_trotter_sequence(0.5, 1))])
    for t in (0.5, 0.5 + 1e-6, -0.5, 0.5 + 1e-4, 0.0, 1.0):
        add("evolution", f"time {t!r}", lambda t=t: obs_u(D.time_evolution(h, t, "a")))
        add("pev", f"time {t!r}", lambda t=t: obs_u(P.time_evolution(h, -1.0, 1.0, "a").as_unitary([t])))
        add("ham times", f"{t!r}", lambda t=t: [obs_u(ham(2).get_time_evolution_operator(t)), obs_s(ham(2).get_trotter_sequence(t, 2)), obs_s(ham(2).get_ideal_sequence(t, 2))])
    for sfx in ("b", "", "a "):
        add("evolution", f"suffix {sfx!r}", lambda sfx=sfx: obs_u(D.time_evolution(h, 0.5, sfx)))
        add("pev", f"suffix {sfx!r}", lambda sfx=sfx: obs_u(P.time_evolution(h, -1.0, 1.0, sfx).as_unitary([0.5])))
    for lo, hi in ((-1.0, 1.0 + 1e-6), (-1.0, 2.0), (-0.5, 1.0)):
        add("pev range", f"{lo} {hi}", lambda lo=lo, hi=hi: [bool(P.time_evolution(h, lo, hi, "a").get_parameters()[0].is_valid(v)) for v in (-0.8, 1.0 + 5e-7, 1.5)])
        add("draw range", f"{lo} {hi}", lambda lo=lo, hi=hi: float(Par("p", lo, hi, True).random_value()), True)
    for k in range(1, 7):
        for nn in (1, 2, 3):
            add("ham steps", f"{k} {nn}", lambda k=k, nn=nn: obs_s(ham(nn - 1).get_trotter_sequence(0.4, k)) if nn < 3 else obs_s(ham(0).get_ideal_sequence(0.4, k)))
    orders = [[ref.X, 0.5 * ref.Z, ref.Y], [ref.Y, ref.X, 0.5 * ref.Z], [ref.X, 0.5 * ref.Z], [ref.X, 0.5 * ref.Z, -ref.Y], [0.5 * ref.X, ref.Z, ref.Y], [ref.X, ref.X, ref.Y]]
    for k, o in enumerate(orders):
        add("ham terms", k, lambda o=o: [obs_u(Hamiltonian([HamiltonianTerm(t) for t in o]).get_time_evolution_operator(0.4)), obs_s(Hamiltonian([HamiltonianTerm(t) for t in o]).get_trotter_sequence(0.4, 2))])
        add("ham draws", k, lambda o=o: [obs_s(Hamiltonian([HamiltonianTerm(t) for t in o]).get_qdrift_sequence(0.4, 3)), obs_s(Hamiltonian([HamiltonianTerm(t) for t in o]).get_trotter_sequence(0.4, 2, randomize=True))], True)
    sums = [[ref.X, 0.5 * ref.Z], [ref.X + 0.5 * ref.Z], [0.5 * ref.Z, ref.X], [0.5 * ref.X, 0.5 * ref.X, 0.5 * ref.Z], [ref.X, 0.3 * ref.Z, 0.2 * ref.Z], [ref.X, 0.5 * ref.Z + 1e-5 * ref.Y],
            [2 * ref.X, ref.Z], [ref.X, 0.5 * ref.Y]]
    for k, o in enumerate(sums):        # equal sums of other terms
        hk = lambda o=o: Hamiltonian([HamiltonianTerm(t) for t in o])       # noqa: E731
        add("ham sums", k, lambda hk=hk: [obs_u(hk().get_time_evolution_operator(0.4)), obs_s(hk().get_trotter_sequence(0.4, 2)), obs_s(hk().get_ideal_sequence(0.4, 2))])
        add("ham sums drawn", k, lambda hk=hk: [obs_s(hk().get_qdrift_sequence(0.4, 3)), obs_s(hk().get_trotter_sequence(0.4, 2, randomize=True))], True)
        for sim in (False, True):
            add(f"ham sums stoq {sim}", k, lambda hk=hk, sim=sim: obs_r(few(lambda: hk().compile_stoq_sequence(1.0, 0.5, 0.95, sim))), True)
            add(f"ham sums rav {sim}", k, lambda hk=hk, sim=sim: obs_r(few(lambda: hk().compile_rav_sequence(1.0, 0.5, 0.95, sim))), True)
    for time, step, thr, sim in ((1.0, 0.5, 0.95, False), (1.0, 0.5, 0.95, True), (1.0, 0.5 + 1e-6, 0.95, False), (1.0, 1.0, 0.95, False), (1.0 + 1e-6, 0.5, 0.95, False), (2.0, 0.5, 0.95, False),
                                 (1.0, 0.5, 0.6, False), (1.0, 0.5, None, False), (-1.0, 0.5, 0.95, False)):
        add("ham compile", f"{time} {step} {thr} {sim}", lambda a=(time, step, thr, sim): [obs_r(few(lambda: ham(k).compile_stoq_sequence(*a))) for k in (0, 2)], True)
        add("ham rav", f"{time} {step} {thr} {sim}", lambda a=(time, step, thr, sim): [obs_r(few(lambda: ham(k).compile_rav_sequence(*a))) for k in (0, 2)], True)
    # matrices
    m = g(4)
    skew = m @ np.diag(np.exp(1j * np.array([0, 0, 0, 1e-6])))
    mats = {"m": m, "near": skew, "near2": m @ np.diag(np.exp(1j * np.array([0, 0, 0, 1e-4]))), "T": m.T, "conj": m.conj(), "dagger": m.conj().T, "F": np.asfortranarray(m), "neg": -m, "phase": m * np.exp(0.1j),
            "perm": m[[1, 0, 2, 3]], "inverse": m.conj().T, "flat": np.kron(m[:2, :2] * 0 + ref.H, ref.H)}
    for k, a in mats.items():
        add("matrix", k, lambda a=a: obs_u(Unitary(4, a, "A")))
        add("matrix inverse", k, lambda a=a: obs_u(Unitary(4, a, "A").inverse()))
        add("matrix tensor", k, lambda a=a: [obs_u(Unitary(4, a, "A").tensor(D.rx(0.3))), obs_u(D.rx(0.3).tensor(Unitary(4, a, "A")))])
        add("matrix multiply", k, lambda a=a: [obs_u(Unitary(4, a, "A").left_multiply(D.cnot())), obs_u(Unitary(4, a, "A").right_multiply(D.cnot()))])
        add("matrix distance", k, lambda a=a: [float(Unitary(4, a, "A").distance_from(D.cnot())), float(D.cnot().distance_from(a)), float(Unitary(4, m, "A").distance_from(Unitary(4, a, "A")))])
        add("matrix close", k, lambda a=a: [bool(Unitary(4, m, "A").close_to(Unitary(4, a, "A"), t)) for t in (None, 0.5, 0.99, 0.99999)])
        add("matrix entry", k, lambda a=a: [obs_e(UnitarySequenceEntry(Unitary(4, a, "A"), q), 8) for q in ([0, 1], [1, 0], [2, 1])])
        add("matrix sequence", k, lambda a=a: obs_s(seq(2, [(Unitary(4, a, "A"), [1, 0]), (D.rx(0.3), [0])])))
        add("matrix sequence inverse", k, lambda a=a: obs_s(seq(2, [(Unitary(4, a, "A"), [1, 0]), (D.rx(0.3), [0])]).inverse()))
        add("matrix target", k, lambda a=a: obs_r(Compiler(4, prims("fixed")).compile(Unitary(4, a, "A"), 0.9, 4)), True)
    for nm, pd, inv, q in (("A", None, False, None), ("B", None, False, None), ("A", {"p": (0.25, True)}, False, None), ("A", {"p": (0.25 + 1e-7, True)}, False, None), ("A", {"p": (0.25, False)}, False, None),
                           ("A", {"q": (0.25, True)}, False, None), ("A", {"p": (0.25, True), "q": (0.5, True)}, False, None), ("A", {"q": (0.5, True), "p": (0.25, True)}, False, None), ("A", None, True, None),
                           ("A", None, False, [0]), ("A", None, False, [1]), ("A", {"p": (0.25, True)}, True, [1])):
        add("labels", f"{nm} {pd} {inv} {q}", lambda nm=nm, pd=pd, inv=inv, q=q: [obs_u(Unitary(2, g(2), nm, pd, inv, q)), obs_u(Unitary(2, g(2), nm, pd, inv, q).inverse())])
    for q in ((0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)):
        for as_ in (list, tuple, np.array):
            for d in (8, 16):
                add("qubits", f"{q} {as_.__name__} {d}", lambda q=q, as_=as_, d=d: obs_e(UnitarySequenceEntry(Unitary(4, g(4)), as_(q)), d))
    for q in ((0, 1, 2), (2, 1, 0), (1, 0, 2), (0, 2, 1), (1, 2, 0), (2, 0, 1)):
        for d in (8, 16):
            add("permute", f"{q} {d}", lambda q=q, d=d: UnitarySequenceEntry(D.ccnot(), list(q)).get_permute_matrix(d).toarray())
    words = [(0.3, 0.4), (0.4, 0.3), (0.3 + 1e-6, 0.4), (0.3, 0.4 - 1e-6), (0.3,), (0.4,), (0.3, 0.3), (0.3, 0.4, 0.3), ()]
    for w in words:
        for n in (1, 2):
            add("words", f"{w} {n}", lambda w=w, n=n: obs_s(seq(n, [(D.rx(a), [0]) for a in w])))
            add("words inverse", f"{w} {n}", lambda w=w, n=n: obs_s(seq(n, [(D.rx(a), [0]) for a in w]).inverse()))
        for v in words[:5]:
            add("combine", f"{w} {v}", lambda w=w, v=v: obs_s(UnitarySequence.combine(seq(1, [(D.rx(a), [0]) for a in w]), seq(1, [(D.rz(a), [0]) for a in v]))))
    for a, b in ((0.3, 0.3), (0.3, 0.3 + 1e-6), (0.3, 0.31), (0.3, 1.3), (0.31, 0.3)):
        for t in (None, 0.0, 0.999, 0.99999999, 1.0):
            add("close", f"{a} {b} {t}", lambda a=a, b=b, t=t: bool(D.rx(a).close_to(D.rx(b), t)))
    # one and the same argument object, with other contents each time
    for k in range(4):
        hk = [h, h + bump, -h, np.diag([1.0, 2.0, -0.5, 0.0]).astype(complex)][k]
        uk = [g(4), g(4, 2), ref.CNOT, g(4).conj().T][k]
        wk = [(0.3, 0.4), (0.4, 0.3), (0.3,), (0.4, 0.3, 0.5)][k]
        add("same evolution", k, lambda hk=hk: [obs_u(D.time_evolution(same_array("h", hk), t, "a")) for t in (0.5, 0.2)])
        add("same pev", k, lambda hk=hk: obs_u(P.time_evolution(same_array("h", hk), -1.0, 1.0, "a").as_unitary([0.5])))
        add("same term", k, lambda hk=hk: [float(HamiltonianTerm(same_array("h", hk)).get_coefficient()), HamiltonianTerm(same_array("h", hk)).get_normalized_matrix().copy()])
        add("same ham", k, lambda k=k: obs_s(Hamiltonian(same_list("terms", [HamiltonianTerm(x) for x in orders[k]])).get_trotter_sequence(0.4, 2)))
        add("same ham evolution", k, lambda k=k: obs_u(Hamiltonian(same_list("terms", [HamiltonianTerm(x) for x in orders[k]])).get_time_evolution_operator(0.4)))
        add("same unitary", k, lambda uk=uk: obs_u(Unitary(4, same_array("u", uk), "A")))
        add("same distance", k, lambda uk=uk: [float(D.cnot().distance_from(same_array("u", uk))), float(Unitary(4, same_array("u", uk)).distance_from(D.cnot()))])
        add("same parameters", k, lambda k=k: obs_u(Unitary(2, g(2), "B", same_dict("pd", {("p", "q", "p", "r")[k]: (0.25 * k, True)}))))
        add("same values", k, lambda k=k: [obs_u(P.rotation_xy().as_unitary(same_list("v", [0.3 + 0.1 * k, 0.4]))), obs_u(P.rotation_xy().as_unitary(same_array("va", np.array([0.3, 0.1 * k]))))])
        add("same qubits", k, lambda k=k: [obs_e(UnitarySequenceEntry(Unitary(4, g(4)), same_list("q", [[0, 1], [1, 0], [2, 0], [1, 2]][k])), 8),
                                           obs_e(UnitarySequenceEntry(Unitary(4, g(4)), same_array("qa", np.array([[0, 1], [1, 0], [2, 0], [1, 2]][k]))), 8)])
        add("same entries", k, lambda wk=wk: [obs_s(UnitarySequence(2, same_list("es", [UnitarySequenceEntry(D.rx(a), [0]) for a in wk]))),
                                              obs_s(UnitarySequence(2, same_list("es", [UnitarySequenceEntry(D.rx(a), [0]) for a in wk])).inverse())])
        add("same allowed", k, lambda k=k: obs_e(Compiler.create_random_sequence_entry(8, [UnitaryPrimitive(D.rx(0.9), same_list("al", [[[0], [1]], [[1], [0]], [[2]], [[0], [1], [2]]][k]))]), 8), True)
        add("same primitives", k, lambda k=k: [obs_e(Compiler.create_random_sequence_entry(4, same_list("ps", prims(("fixed", "fixed2", "param", "ev")[k]))), 4),
                                               obs_r(Compiler(4, same_list("ps", prims(("fixed", "fixed2", "param", "ev")[k]))).compile(Unitary(4, g(4)), 0.9, 3))], True)
        add("same probabilities", k, lambda k=k: [obs_r(Compiler(4, prims("fixed"), same_list("pr", [[0.8, 0.1, 0.1], [0.1, 0.8, 0.1], [0.2, 0.2, 0.6], [0.0, 1.0, 0.0]][k])).compile(Unitary(4, g(4)), 0.9, 3)),
                                                  obs_e(Compiler.create_random_sequence_entry(4, prims("fixed"), same_array("pra", np.array([[0.8, 0.1, 0.1], [0.1, 0.8, 0.1], [0.2, 0.2, 0.6], [0.0, 1.0, 0.0]][k]))), 4)], True)
        add("same counts", k, lambda k=k: [[obs_e(e, 4) for e in Compiler.create_random_layer(4, same_counts([(1, 1, 1), (2, 0, 1), (0, 1, 0), (1, 2, 1)][k]))],
                                           obs_r(Verification.generate_xeb_sequence(4, same_counts([(1, 1, 1), (2, 0, 1), (0, 1, 0), (1, 2, 1)][k]), 2))], True)
        add("same compiler", k, lambda uk=uk: obs_r(same_compiler().compile(Unitary(4, same_array("u", uk)), 0.95, 4)), True)
        add("same sequence", k, lambda wk=wk: obs_s(same_sequence(wk)))
        add("same Hamiltonian", k, lambda k=k: [obs_s(same_ham().get_trotter_sequence(0.2 * k, 1 + k)), obs_u(same_ham().get_time_evolution_operator(0.3 - 0.2 * k)), obs_s(same_ham().get_ideal_sequence(0.1 * k, 2))])
        add("same gate", k, lambda k=k: [obs_u(same_gate().as_unitary([0.3 * k, 0.2])), obs_u(same_gate().as_unitary([0.2, 0.3 * k]))])
        add("same entry", k, lambda k=k: obs_e(STORE.setdefault("entry", UnitarySequenceEntry(D.cnot(), [1, 0])), (4, 8, 16, 32)[k]))
    # compilation
    two = lambda x=0.9: [UnitaryPrimitive(D.rx(x)), UnitaryPrimitive(D.h())]     # noqa: E731
    settings = [(None, 0.5, 0.1), ([0.5, 0.5], 0.5, 0.1), ([0.5001, 0.4999], 0.5, 0.1), ([0.2, 0.8], 0.5, 0.1), (None, 0.8, 0.1), (None, 0.8001, 0.1), (None, 0.5, 2.0), (None, 0.5, 2.01), (None, 1.0, 0.1)]
    for pr, ap, an in settings:
        add("compile settings", f"{pr} {ap} {an}", lambda pr=pr, ap=ap, an=an: [obs_r(Compiler(2, two(), pr, ap, an).compile(Unitary(2, g(2)), 0.9999, 8)), obs_r(Compiler(2, two(), pr, ap, an).compile(Unitary(2, g(2)), None, 3))], True)
    for x in (0.9, 0.9 + 1e-6, 0.91, -0.9):
        add("compile primitives", f"{x}", lambda x=x: obs_r(Compiler(2, two(x)).compile(Unitary(2, g(2)), 0.9999, 8)), True)
        add("layers of", f"{x}", lambda x=x: obs_r(Compiler(2, two(x)).compile_layered(Unitary(2, g(2)), dict(zip(two(x), (1, 1))), 0.9999, 4)), True)
    for t in (None, 0.0, 0.5, 0.9, 0.9999, 1.0):
        add("compile threshold", f"{t!r}", lambda t=t: obs_r(Compiler(2, two()).compile(Unitary(2, g(2)), t, 8)), True)
        add("rav threshold", f"{t!r}", lambda t=t: obs_r(Verification.generate_rav_sequence(2, two(), 2, t, max_step_count=4)), True)
    for k in (0, 1, 2, 3, 5):
        add("compile limit", k, lambda k=k: obs_r(Compiler(2, two()).compile(Unitary(2, g(2)), 0.9999, k)), True)
        add("xeb layers", k, lambda k=k: obs_r(Verification.generate_xeb_sequence(2, dict(zip(two(), (1, 1))), k)), True)
    for c in ((1, 1), (2, 1), (1, 2), (0, 2), (2, 0), (2, 2)):
        add("layer counts", f"{c}", lambda c=c: [[obs_e(e, 4) for e in Compiler.create_random_layer(4, dict(zip(two(), c)))],
                                                 obs_r(Compiler(2, two()).compile_layered(Unitary(2, g(2)), dict(zip(two(), c)), 0.9999, 4))], True)
    for k in (1, 7, 13, 26, 60):
        many = lambda k=k: [UnitaryPrimitive(D.rx(0.1 * (j + 1))) for j in range(k)]        # noqa: E731
        terms = lambda k=k: [HamiltonianTerm((0.2 + 0.1 * j) * (ref.X, ref.Y, ref.Z)[j % 3]) for j in range(k)]       # noqa: E731
        add("sizes made", k, lambda many=many, terms=terms, k=k: [isinstance(Compiler(2, many()), Compiler), Hamiltonian(terms()).get_dimension(), obs_s(seq(2, [(D.rx(0.1 * j), [j % 2]) for j in range(k)])),
                                                                  obs_s(Hamiltonian(terms()).get_trotter_sequence(0.3, 1)), Unitary.identity(k).get_dimension()])
        add("sizes drawn", k, lambda many=many, k=k: [obs_e(Compiler.create_random_sequence_entry(2, many()), 2) for _ in range(3)]
            + [obs_r(Compiler(2, many()).compile(Unitary(2, g(2)), 0.9999, k)), float(Par("p", -k * 10.0, k * 10.0, True).random_value())], True)
        add("sizes layered", k, lambda many=many, k=k: [[obs_e(e, 2) for e in Compiler.create_random_layer(2, dict(zip(many()[:3], (k, 1, 0))))],
                                                        obs_r(Verification.generate_xeb_sequence(2, {q: 1 for q in many()[:26]}, 2)), obs_r(Verification.generate_rav_sequence(2, many(), k, 0.5, max_step_count=3))], True)
        add("sizes simulated", k, lambda terms=terms, k=k: [obs_s(Hamiltonian(terms()).get_qdrift_sequence(0.3, k)), obs_s(Hamiltonian(terms()).get_trotter_sequence(0.3, 2, randomize=True)),
                                                            obs_r(few(lambda: Hamiltonian(terms()[:26]).compile_stoq_sequence(0.5, 0.3, 0.99)))], True)
    for al in (None, [[0]], [[1]], [[0], [1]], [[1], [0]]):
        add("allowed", f"{al}", lambda al=al: [obs_e(Compiler.create_random_sequence_entry(4, [UnitaryPrimitive(D.rx(0.9), al)]), 4) for _ in range(3)], True)
    return out


def every():
    """[(name, function, draws random numbers)]: the calls, then the families"""
    return calls() + [(n, f, r) for _, n, f, r in families()]


# ---- fresh processes -----------------------------------------------------------------------------

def seed(s):
    np.random.seed(s)
    random.seed(s)


def state():
    a = np.random.get_state()
    return (a[0], a[1].tobytes(), a[2:], random.getstate())


def one(f, s):
    """result of a call under generator state s, the state afterwards, and what was done to the generators"""
    seed(s)
    before = state()
    obj = (np.random.mtrand._rand, random._inst)
    events = []
    saved = (np.random.seed, np.random.set_state, random.seed, random.setstate)

    def spy(name, orig):
        def h(*a, **k):
            events.append(name)
            return orig(*a, **k)
        return h
    np.random.seed, np.random.set_state, random.seed, random.setstate = (spy(n, o) for n, o in zip(("numpy.random.seed", "numpy.random.set_state", "random.seed", "random.setstate"), saved))
    try:
        try:
            r = f()
        except Exception as e:
            r = ("raised", type(e).__name__, re.sub("0x[0-9a-f]+", "", str(e)[:80]))
    finally:
        np.random.seed, np.random.set_state, random.seed, random.setstate = saved
    if (np.random.mtrand._rand, random._inst) != obj:
        events.append("replaced a global generator")
    return r, state(), before, events


def fresh():
    """in a new interpreter: every call in its own fork, under every seed; pickled to stdout"""
    junk = [bytearray(64 + (k * 37) % 4000) for k in range(int(sys.argv[2]) if len(sys.argv) > 2 else 0)]   # another memory layout
    res = {}
    cs = every()
    n = len(calls())
    for i, (name, f, _) in enumerate(cs):
        for s in SEEDS if i < n else SEEDS[:1]:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    obs, st, _, ev = one(f, s)
                    with os.fdopen(w, "wb") as out:
                        pickle.dump((obs, hash_state(st), ev), out)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as inp:
                data = inp.read()
            os.waitpid(pid, 0)
            res[(i, s)] = pickle.loads(data) if data else None
    del junk
    with open(sys.argv[1], "wb") as out:
        pickle.dump(res, out)


def hash_state(st):
    import hashlib
    return hashlib.sha256(repr((st[1], st[2], st[3])).encode()).hexdigest()


BASE = []


def baselines():
    if BASE:
        return BASE
    import tempfile
    with tempfile.TemporaryDirectory(prefix="c25-") as tmp:
        ps = []
        for k, h in enumerate(HASHSEEDS):
            env = dict(os.environ, PYTHONHASHSEED=h)
            path = os.path.join(tmp, str(k))
            ps.append((path, subprocess.Popen([sys.executable, "-c", "from mc.checks import c25; c25.fresh()", path, str(k * 5000)], cwd=boot.VERIF, env=env)))
        for path, p in ps:
            if p.wait(timeout=300) or not os.path.exists(path):
                BASE.append(None)
                continue
            with open(path, "rb") as f:
                BASE.append(pickle.load(f))
    return BASE


def tasks(tier):
    baselines()
    big = tier == "thorough"
    n = len(calls())
    t = [("agree", {}), ("untouched", {})]
    parts = 16
    t += [("pairs", dict(part=p, parts=parts, seeds=3 if big else 2)) for p in range(parts)]
    t += [("triples", dict(part=p, parts=parts, big=big)) for p in range(parts)]
    fams = sorted({f[0] for f in families()})
    t += [("family", dict(fam=f)) for f in fams]
    t += [("outcomes", dict(k=k)) for k in range(len(TREES))]
    t += [("repeat", dict(part=p, parts=parts, times=600 if big else 140)) for p in range(parts)]
    t += [("crowd", dict(fam=f, size=2000 if big else 300)) for f in CROWDS]
    return t if n else []


def base(i, s):
    b = BASE[0]
    if b is None or b[(i, s)] is None:
        raise HarnessError("the fresh interpreter did not answer")
    return b[(i, s)]


def agree(task):
    """fresh interpreters under different hash seeds and memory layouts agree"""
    cs = every()
    n = len(calls())
    for i, (name, f, rand) in enumerate(cs):
        for s in SEEDS if i < n else SEEDS[:1]:
            a = base(i, s)
            for k, b in enumerate(BASE):
                task.transitions += 1
                if b is None or b[(i, s)] is None:
                    raise HarnessError("a fresh interpreter did not answer")
                if not alike(a[0], b[(i, s)][0]) or a[1] != b[(i, s)][1]:
                    task.violation(f"{name!r} under seed {s} differs between two fresh interpreters", case=dict(call=name, seed=s), first=a[0], other=b[(i, s)][0])
            task.outcome((name, s, digest(a[0])))
        task.traces += 1
    task.states += len(cs)


def untouched(task):
    """calls without randomness leave the generators alone; random ones advance them from where they were; nobody reseeds"""
    cs = calls()
    for i, (name, f, rand) in enumerate(cs):
        ends = {}
        for s in list(SEEDS) + [1, 2, 3, 4, 5, 6]:
            r, st, before, ev = one(f, s)
            task.transitions += 1
            if ev:
                task.violation(f"{name!r}: {ev[0]}", case=dict(call=name, seed=s))
            if not rand and st != before:
                task.violation(f"{name!r} changes the state of the random generators", case=dict(call=name, seed=s))
            if rand and st == before:
                task.violation(f"{name!r} under seed {s} does not draw from the global random generators", case=dict(call=name, seed=s))
            if rand:
                if hash_state(st) in ends:
                    task.violation(f"{name!r} leaves the generators in the same state under seeds {ends[hash_state(st)]} and {s}: it reseeds", case=dict(call=name, seed=s))
                ends[hash_state(st)] = s
        task.traces += 1
    task.states += len(cs)


def same(task, i, name, s, got, after):
    want = base(i, s)
    r, st, before, ev = got
    task.transitions += 1
    if ev:
        task.violation(f"{name!r} after {after}: {ev[0]}", case=dict(call=name, seed=s, after=after))
    if not alike(r, want[0]):
        task.violation(f"{name!r} under seed {s} gives another result after {after} than in a fresh process", case=dict(call=name, seed=s, after=after), got=r, fresh=want[0])
    elif hash_state(st) != want[1]:
        task.violation(f"{name!r} under seed {s} leaves the generators in another state after {after} than in a fresh process", case=dict(call=name, seed=s, after=after))


def pairs(task, part, parts, seeds):
    cs = calls()
    for j, ((a, f, _), (i, (b, h, rand))) in enumerate(itertools.product(cs, enumerate(cs))):
        if j % parts != part:
            continue
        for s in SEEDS[:seeds] if rand else SEEDS[:1]:
            one(f, 777)
            same(task, i, b, s, one(h, s), [a])
        task.traces += 1
        task.outcome((a, b))
    task.states += 1


def family(task, fam):
    """all ordered triples within a family"""
    n = len(calls())
    cs = [(n + i, c) for i, c in enumerate(families()) if c[0] == fam]
    slow = sum(1 for c in cs if c[1][3]) > 0
    for a, b in itertools.product(cs, repeat=2):
        one(a[1][2], 777)
        if (len(cs) > 12 or slow) and task.tier == "quick":        # pairs, after whatever went before
            same(task, b[0], b[1][1], SEEDS[0], one(b[1][2], SEEDS[0]), [a[1][1]])
            task.traces += 1
            continue
        for i, c in cs:
            one(a[1][2], 777)
            one(b[1][2], 778)
            same(task, i, c[1], SEEDS[0], one(c[2], SEEDS[0]), [a[1][1], b[1][1]])
            task.traces += 1
    for i, c in cs:
        task.outcome(c[1])
    task.states += len(cs)


def repeat(task, part, parts, times):
    """one call over and over, then the others once more"""
    cs = calls()
    for i, (name, f, rand) in enumerate(cs):
        if i % parts != part:
            continue
        for k in range(times):
            same(task, i, name, SEEDS[k % 3], one(f, SEEDS[k % 3]), [f"{k} times itself"])
        task.traces += 1
        task.outcome((name, times))
    for i, (name, f, rand) in enumerate(cs):
        same(task, i, name, SEEDS[0], one(f, SEEDS[0]), ["many others"])
    task.states += 1


def light(u):
    return [u.get_matrix().copy(), u.get_display_name()]


def perms(i):
    """the i-th list of 1-3 qubits on 5 and the size of the system it is asked for"""
    ls = [q for k in (1, 2, 3) for q in itertools.permutations(range(5), k)]
    q = ls[i % len(ls)]
    return list(q), 32 if (i // len(ls)) % 2 == 0 else 64


CROWDS = {      # the i-th of many calls of one kind, all different
    "rx": lambda i: [light(D.rx(0.01 * i)), light(D.rz(-0.01 * i)), light(D.ry(0.02 * i))],
    "rphi": lambda i: light(D.rphi(0.02 * i, 0.05 * (i % 37))),
    "xx": lambda i: light(D.xx(0.013 * i)),
    "gms": lambda i: light(D.gms(2 + i % 3, 0.01 * i)),
    "evolution": lambda i: [light(D.time_evolution(ref.generic_hermitian(2 + 2 * (i % 2), i % 53), 0.01 * i, str(i % 7)))],
    "pev": lambda i: light(P.time_evolution(ref.generic_hermitian(2, i % 41), -10.0, 10.0, str(i % 5)).as_unitary([0.03 * (i % 301)])),
    "Rxyz": lambda i: [light(P.rotation_xyz().as_unitary([0.02 * (i % 300), 0.02 * (i % 7), 1.0])), light(P.rotation_xy().as_unitary([0.02 * (i % 300), 0.3 + i % 3]))],
    "unitary": lambda i: [light(Unitary(4, g(4, i), f"G{i % 3}")), light(Unitary(4, g(4, i)).inverse())],
    "algebra": lambda i: [light(Unitary(2, g(2, i)).left_multiply(D.rx(0.01 * i))), light(Unitary(2, g(2, i % 9)).tensor(D.rx(0.01 * i))), float(Unitary(2, g(2, i)).distance_from(D.rx(0.01 * i)))],
    "identity": lambda i: light(Unitary.identity(1 + i % 33)),
    "full": lambda i: (lambda q, d: UnitarySequenceEntry(Unitary(2 ** len(q), g(2 ** len(q), i % 3)), q).get_full_unitary(d).get_matrix().copy())(*perms(i)),
    "permute": lambda i: (lambda q, d: UnitarySequenceEntry(Unitary(2 ** len(q)), q).get_permute_matrix(d).toarray())(*perms(i)),
    "sequence": lambda i: (lambda s: [s.product().get_matrix().copy(), s.get_qasm(), s.get_jaqal(), s.get_display_output()])(seq(2, [(D.rx(0.01 * i), [i % 2]), (D.cnot(), [1, 0]), (D.rz(0.02 * (i % 29)), [1])])),
    "long": lambda i: seq(2, [((D.rx if k % 2 else D.rz)(0.1 * ((k * i) % 31)), [(k + i) % 2]) for k in range(20)]).product().get_matrix().copy(),
    "inverse": lambda i: (lambda s: [s.product().get_matrix().copy(), s.get_qasm()])(seq(2, [(D.rx(0.01 * i), [i % 2]), (D.cnot(), [1, 0])]).inverse()),
    "term": lambda i: (lambda t: [float(t.get_coefficient()), t.get_normalized_matrix().copy()])(HamiltonianTerm(0.01 * (i + 1) * ref.generic_hermitian(4, i % 59))),
    "trotter": lambda i: obs_s(ham(i % 3).get_trotter_sequence(0.01 * i, 1 + i % 4))[6],
    "ideal": lambda i: obs_s(ham(i % 3).get_ideal_sequence(0.01 * i, 1 + i % 5))[6],
    "random": lambda i: [light(Unitary.random(2 + 2 * (i % 2))), float(Par("p", -i, i + 1.0, True).random_value())],
    "qdrift": lambda i: obs_s(ham(i % 3).get_qdrift_sequence(0.01 * i, 1 + i % 4))[6],
    "entry": lambda i: obs_e(Compiler.create_random_sequence_entry(4, prims(("fixed", "fixed2", "param", "ev")[i % 4])), 4)[:2],
    "compile": lambda i: short(Compiler(4, prims(("fixed", "fixed2", "param", "ev")[i % 4])).compile(Unitary(4, g(4, i)), 0.9, 1 + i % 5)),
    "xeb": lambda i: short(Verification.generate_xeb_sequence(4, dict(zip(prims("fixed"), (1 + i % 3, 1, 1))), 1 + i % 3)),
    "rav": lambda i: short(Verification.generate_rav_sequence(4, prims(("fixed", "param")[i % 2]), i % 5, 0.9, max_step_count=i % 4)),
}


def crowd(task, fam, size):
    """many different calls of one kind, forwards, backwards and in strides, each order twice in its own process"""
    if fam in ("compile", "rav", "xeb", "trotter", "qdrift", "ideal"):
        size //= 2
    f = CROWDS[fam]
    res = []
    for order in (list(range(size)), list(range(size))[::-1], [(i * 7 + 3) % size for i in range(size)]):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                out = []
                for rnd in range(2):
                    got = {}
                    for i in order:
                        seed(1000 + i)
                        got[i] = f(i)
                    out.append(got)
                with os.fdopen(w, "wb") as fh:
                    pickle.dump(out, fh)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        if not data:
            raise comp.Bad(f"{fam}: a call in a long series of calls fails")
        res += pickle.loads(data)
    for i in range(size):
        for k, other in enumerate(res[1:]):
            if i not in other:
                continue
            task.transitions += 1
            if not alike(res[0][i], other[i]):
                task.violation(f"call {i} of a series of {size} {fam!r} calls gives another result in another order", case=dict(family=fam, call=i, order=k), first=res[0][i], other=other[i])
        task.outcome((fam, i))
    task.traces += len(res)
    task.states += size


CORE = ("rx 0.3", "rx 0.4", "rphi 0.3 0.4", "gms 3 0.3", "evolution 1 0.5 a", "evolution 2 0.5 a", "Rxy", "pGMS", "pev", "pev'", "custom", "draw 0 1", "inverse", "tensor", "close", "distance",
        "entry cnot (1, 0)", "entry gen (2, 0)", "sequence", "sequence inverse", "combine", "edits 1", "refused 5", "ham trotter 0", "ham shuffled 2", "ham qdrift 1", "compile fixed", "compile param",
        "layer fixed", "rav", "xeb")


def triples(task, part, parts, big):
    cs = [(i, c) for i, c in enumerate(calls()) if big or c[0] in CORE]
    if big:     # last call random, or all three from the core
        combos = ((a, b, c) for a, b, c in itertools.product(cs, repeat=3) if c[1][2] or (a[1][0] in CORE and b[1][0] in CORE))
    else:
        combos = itertools.product(cs, repeat=3)
    for j, (a, b, (i, (name, h, rand))) in enumerate(combos):
        if j % parts != part:
            continue
        one(a[1][1], 777)
        one(b[1][1], 778)
        same(task, i, name, SEEDS[0], one(h, SEEDS[0]), [a[1][0], b[1][0]])
        task.traces += 1
    task.states += 1


# every outcome of a random call, after every other call
def tiny(k):
    return {
        "draw": lambda: float(Par("p", -1.0, 2.0, True).random_value()),
        "entry": lambda: obs_e(Compiler.create_random_sequence_entry(4, prims("fixed")), 4)[:2],
        "entry2": lambda: obs_e(Compiler.create_random_sequence_entry(4, prims("fixed2")), 4)[:2],
        "entryp": lambda: obs_e(Compiler.create_random_sequence_entry(2, [UnitaryPrimitive(P.xx()), UnitaryPrimitive(D.h())][1:]), 2),
        "entryw": lambda: obs_e(Compiler.create_random_sequence_entry(4, prims("fixed"), [0.5, 0.2, 0.3]), 4)[:2],
        "entryxy": lambda: obs_e(Compiler.create_random_sequence_entry(2, [UnitaryPrimitive(P.rotation_xy())]), 2),
        "layer": lambda: [obs_e(e, 2)[2][2] for e in Compiler.create_random_layer(2, dict(zip([UnitaryPrimitive(D.h()), UnitaryPrimitive(D.t())], (1, 2))))],
        "step": lambda: short(Compiler(2, [UnitaryPrimitive(D.rx(0.9)), UnitaryPrimitive(D.h())]).compile(Unitary(2, g(2)), 0.99, 1)),
        "steps": lambda: short(Compiler(2, [UnitaryPrimitive(D.rx(0.9))], None, 0.7, 2.0).compile(Unitary(2, g(2)), None, 2)),
        "layered": lambda: short(Compiler(2, [UnitaryPrimitive(D.rx(0.9))]).compile_layered(Unitary(2, g(2)), {UnitaryPrimitive(D.rx(0.9)): 1, UnitaryPrimitive(D.h()): 1}, 0.99, 1)),
        "shuffled": lambda: ham(2).get_trotter_sequence(0.4, 1, randomize=True).get_qasm(),
        "qdrift": lambda: ham(0).get_qdrift_sequence(0.4, 2).get_qasm(),
        "rav": lambda: short(Verification.generate_rav_sequence(2, [UnitaryPrimitive(D.rx(0.9)), UnitaryPrimitive(D.t())], 1, 0.9, max_step_count=1)),
        "rav0": lambda: short(Verification.generate_rav_sequence(2, [UnitaryPrimitive(D.rx(0.9)), UnitaryPrimitive(D.t())], 2, 0.0)),
        "lrav": lambda: short(Verification.generate_layered_rav_sequence(2, {UnitaryPrimitive(D.rx(0.9)): 1, UnitaryPrimitive(D.t()): 1}, 1, 0.9, max_step_count=1)),
        "xeb": lambda: short(Verification.generate_xeb_sequence(2, {UnitaryPrimitive(D.rx(0.9)): 1, UnitaryPrimitive(D.t()): 1}, 1)),
    }[k]


def short(r):
    return (r.compiled_sequence.get_qasm(), [float(c) for c in r.cost_by_step])


TREES = ("draw", "entry", "entry2", "entryp", "entryw", "entryxy", "layer", "step", "steps", "layered", "shuffled", "qdrift", "rav", "rav0", "lrav", "xeb")


def dist(f, task, before=None):
    out = {}

    def run(path):
        if before:
            before()
        with rng.controlled(path):
            return f()
    for path, r in explore(run, max_leaves=20000):
        k = digest(r)
        out[k] = out.get(k, 0.0) + path.weight
        task.transitions += len(path.points)
    return out


def outcomes(task, k):
    f = tiny(TREES[k])
    want = dist(f, task)
    for name, h, rand in [("nothing", None, False)] + calls() + [(t, tiny(t), True) for t in TREES]:
        if h is not None and name.startswith(("compile", "ham stoq", "ham rav", "rav", "layered rav")) and len(want) > 40 and name not in TREES:
            seed(5)
            h()                      # once; the cheaper calls are repeated before every outcome
            before = None
        else:
            before = None
            if h is not None:
                def before(h=h):
                    seed(7)
                    h()
        if len(want) > 40 and before:
            before()
            before = None
        got = dist(f, task, before)
        task.traces += 1
        bad = [x for x in set(got) | set(want) if abs(got.get(x, 0) - want.get(x, 0)) > 1e-9]
        if bad:
            task.violation(f"the outcomes of {TREES[k]!r} have other probabilities after {name!r}", case=dict(call=TREES[k], after=name, outcome=bad[0], got=got.get(bad[0], 0), want=want.get(bad[0], 0)))
        task.outcome((TREES[k], name))
    task.states += len(want)
