"""C26 refusal: exhaustive tables of malformed and well-formed arguments, and every refusal in every reachable receiver state."""
import itertools

import numpy as np

from mc import bfs, comp, lib, ref, rng
from mc.checks import c05
from mc.checks.c01 import A1, A2, B1, B2, B3, C1
from mc.choice import Path
from mc.seqspec import SeqSpec
from stoqcompiler.compiler import Compiler
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm
from stoqcompiler.unitary import (ParameterizedUnitary, ParameterizedUnitaryDefinitions as PD, ParameterizedUnitaryParameter as Par, Unitary,
                                  UnitaryDefinitions as D, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry)
from stoqcompiler.verification import Verification

BOUND = {
    "quick": "matrices: 20 ways to be malformed at every entry (pair of entries) of unitaries and Hermitians of dimension 1-8; every qubit list of length <= 4 over "
             "{-1..3} for operations on 1-3 qubits and every system of 1-4 qubits; every pair of dimensions 1-8 at each two-operand call; every combination of "
             "1-3 terms/sequences/primitives of fitting and unfitting size; one malformed item at each place of lists of 1-257; one wrong entry anywhere in matrices of "
             "dimension 16, 32, 64; operations on up to 7 qubits; every refused call (56) on the world of 33 objects of C05, followed by each "
             "operation on it; every reachable state (<= 2-3 entries) of 6 sequence configurations x 24 refused calls",
    "thorough": "as quick with qubit lists over {-2..4}, dimension 16, <= 3-4 entries, more gates, and pairs of refused calls",
}


def mixed_rng(f):
    with rng.controlled(Path((), comp.mixed(3, 3))):
        return f()


def refused(f):
    """whether the call raises; random numbers, should any be drawn, are controlled"""
    try:
        mixed_rng(f)
    except Exception:
        return True
    return False


def expect(task, case, f, ok):
    """ok: whether the input is well formed"""
    task.traces += 1
    task.states += 1
    task.case = case
    if ok:
        try:
            mixed_rng(f)
        except Exception as e:
            task.violation(f"well-formed input is refused: {type(e).__name__} {str(e)[:200]}", case=case)
    else:
        task.check(refused(f), "malformed input is accepted", case=case)
    task.transitions += 1
    task.outcome((str(case), ok))


def tasks(tier):
    big = tier == "thorough"
    t = [("matrices", dict(dim=d)) for d in range(1, 9)] + [("hermitian", dict(dim=d)) for d in range(1, 9)]
    if big:
        t += [("matrices", dict(dim=16)), ("hermitian", dict(dim=16))]
    for k in (1, 2, 3):
        t += [("qubits", dict(k=k, lo=-2 if big else -1, hi=4 if big else 3, m=m)) for m in range(5)]
        t += [("systems", dict(k=k, n=n)) for n in range(1, 6 if big else 5)]
    t += [("dimensions", {}), ("collections", {}), ("ranges", {}), ("targets", {})]
    for size in (1, 2, 3, 5, 8, 9, 12, 16, 17, 24, 25, 26, 31, 32, 33, 48, 64, 65) + ((100, 128, 129, 200, 256, 257) if big else (101, 129, 257)):
        t.append(("long_lists", dict(size=size)))
    t += [("large_matrices", dict(dim=d, part=p, parts=q)) for d, q in ((16, 1), (32, 4), (64, 12)) for p in range(q)]
    t += [("wide_qubits", dict(k=k)) for k in (4, 5, 6, 7)]
    n = len(bad_calls())
    t += [("world", dict(i=i)) for i in range(n)]
    if big:
        t += [("world2", dict(i=i)) for i in range(n)]
    t += [("receiver", dict(spec=s)) for s in receivers(big)]
    t += [("recompile", dict(i=i)) for i in range(len(BAD_COMPILE))]
    return t


# ---- matrices ------------------------------------------------------------------------------------

def forms(m):
    """the same matrix as other kinds of array"""
    out = [m, np.asfortranarray(m), np.array(m[::-1])[::-1], m.view(np.ndarray)]
    if np.all(np.isreal(m)):
        out.append(m.real.copy())
        if np.all(m.real == np.round(m.real)):
            out.append(m.real.astype(int))
            out.append(m.real.astype(float))
    return out


def good_unitaries(d):
    out = [ref.generic_unitary(d, k) for k in range(3)]
    out += [np.eye(d, dtype=complex), -1j * np.eye(d), np.roll(np.eye(d), 1, axis=0).astype(complex), np.diag(np.exp(1j * np.arange(d)))]
    if d > 1:
        out.append(np.array([[np.exp(2j * np.pi * i * j / d) for i in range(d)] for j in range(d)]) / np.sqrt(d))
    return out


def matrices(task, dim):
    for i, g in enumerate(good_unitaries(dim)):
        for j, m in enumerate(forms(g)):
            expect(task, dict(good=i, form=j, dim=dim), lambda: Unitary(dim, m), True)
        expect(task, dict(good=i, rounded=True, dim=dim), lambda: Unitary(dim, np.round(g, 10)), True)
        expect(task, dict(good=i, named=True, dim=dim), lambda: Unitary(dim, g, "N", {"a": (0.1, True)}, True, [0]), True)
        # sizes: every other stated dimension
        for d2 in range(-1, 10):
            if d2 != dim:
                expect(task, dict(good=i, dim=dim, stated=d2), lambda: Unitary(d2, g), False)
        for name, m in shapes(g):
            expect(task, dict(good=i, shape=name, dim=dim), lambda: Unitary(dim, m), False)
        for name, m in ruined(g):
            if np.max(np.abs(m @ m.conj().T - np.eye(dim))) < 1e-3:
                continue
            expect(task, dict(good=i, ruined=name, dim=dim), lambda: Unitary(dim, m), False)
            task.count("ruined")
        for v in (np.nan, np.inf, -np.inf, 1j * np.nan):
            for a, b in itertools.product(range(dim), repeat=2):
                m = g.copy()
                m[a, b] = v
                expect(task, dict(good=i, value=str(v), at=[a, b], dim=dim), lambda: Unitary(dim, m), False)
    for name, m in special(dim):
        if np.max(np.abs(m @ m.conj().T - np.eye(dim))) < 1e-3:
            continue
        expect(task, dict(special=name, dim=dim), lambda: Unitary(dim, m), False)


def shapes(g):
    d = len(g)
    out = [("flat", g.reshape(-1)), ("3d", g.reshape(1, d, d)), ("3d-last", g.reshape(d, d, 1)), ("empty", np.zeros((0, 0)))]
    out.append(("extra row", np.vstack([g, g[:1]])))
    out.append(("extra column", np.hstack([g, g[:, :1]])))
    if d > 1:
        out += [("missing row", g[:-1]), ("missing column", g[:, :-1]), ("row", g[0]), ("0d", g[0, 0].reshape(()))]
    if d > 2:
        out.append(("two rows", g[:2]))
    return out


def ruined(g):
    """changes of a unitary that make it not unitary"""
    d = len(g)
    for s in (0.0, 0.5, 0.999, 1.001, 2.0, -1.5, 1.01j):
        yield f"all*{s}", g * s
    for a in range(d):
        for s in (0.0, 0.99, 1.01, 2.0):
            m = g.copy()
            m[a] *= s
            yield f"row{a}*{s}", m
            m = g.copy()
            m[:, a] *= s
            yield f"col{a}*{s}", m
        for b in range(d):
            for e in (0.01, 0.01j, -0.01 + 0.01j, 0.5):
                m = g.copy()
                m[a, b] += e
                yield f"entry{a},{b}+{e}", m
            if a != b:
                m = g.copy()
                m[a] += 0.1 * m[b]
                yield f"row{a}+=0.1*row{b}", m          # determinant kept
                m = g.copy()
                m[a] *= 2
                m[b] /= 2
                yield f"row{a}*2,row{b}/2", m           # determinant kept
                m = g.copy()
                m[a] = m[b]
                yield f"row{a}=row{b}", m               # rows normalised, not orthogonal
                m = g.copy()
                m[a] = (m[a] + m[b]) / np.sqrt(2)
                yield f"row{a} halfway to row{b}", m    # rows normalised, not orthogonal
                m = g.copy()
                m[a, b] = -m[a, b]
                yield f"sign{a},{b}", m
                m = g.copy()
                m[a, b] = m[a, b].conj()
                yield f"conj{a},{b}", m
                m = g.copy()
                m[a, b] *= 1j
                yield f"phase{a},{b}", m


def special(d):
    z = np.zeros((d, d), dtype=complex)
    yield "zeros", z
    yield "ones", z + 1
    yield "ones normalised", (z + 1) / np.sqrt(d)
    if d == 1:
        return
    for a, b in itertools.permutations(range(d), 2):
        m = np.eye(d, dtype=complex)
        m[a, b] = 1
        yield f"shear{a},{b}", m
        m = np.eye(d, dtype=complex)
        m[a, a], m[b, b] = 2, 0.5
        yield f"squeeze{a},{b}", m
        m = np.eye(d, dtype=complex)                   # M M^T = 1, not unitary
        m[a, a] = m[b, b] = np.cosh(0.5)
        m[a, b], m[b, a] = 1j * np.sinh(0.5), -1j * np.sinh(0.5)
        yield f"complex orthogonal{a},{b}", m
        m = np.eye(d, dtype=complex)                   # M M = 1, not unitary
        m[a, a], m[b, b], m[a, b] = 1, -1, 1
        yield f"involution{a},{b}", m
        m = np.eye(d, dtype=complex)                   # M M = 1 and real, permutation-like magnitude
        m[a, a] = m[b, b] = 0
        m[a, b], m[b, a] = 2, 0.5
        yield f"unbalanced swap{a},{b}", m
        m = np.eye(d, dtype=complex)
        m[b, b] = 0
        yield f"projector{a},{b}", m


def good_hermitians(d):
    out = [ref.generic_hermitian(d, k) for k in range(3)]
    out += [np.eye(d, dtype=complex), -0.5 * np.eye(d, dtype=complex), np.ones((d, d), dtype=complex), np.diag(np.arange(d) - 0.5).astype(complex)]
    if d > 1:
        m = np.zeros((d, d), dtype=complex)
        m[0, d - 1], m[d - 1, 0] = -1j, 1j
        out += [m, ref.generic_hermitian(d, 5) * 1e-2, ref.generic_hermitian(d, 5) * 10]
    return out


def not_hermitian(h):
    d = len(h)
    for a, b in itertools.product(range(d), repeat=2):
        for e in (0.01, 0.01j, -0.3 - 0.2j, 1.0):
            m = h.copy()
            m[a, b] += e
            yield f"entry{a},{b}+{e}", m
        if a < b:
            m = h.copy()
            m[b, a] = h[a, b] + 0.7j        # symmetric rather than Hermitian
            m[a, b] = h[a, b] + 0.7j
            yield f"symmetric{a},{b}", m
            m = h.copy()
            m[a, b] = -np.conj(h[b, a]) + 0.01
            yield f"skew{a},{b}", m
    yield "i*H", 1j * h
    yield "i*H+1", 1j * h + np.eye(d)
    yield "(1+0.01i)H", (1 + 0.01j) * h
    yield "upper", np.triu(h) + 0.5 * np.triu(np.ones((d, d)), 1)
    yield "lower", np.tril(h) + 0.5j * np.tril(np.ones((d, d)), -1)
    yield "unitary", ref.generic_unitary(d, 3) if d > 1 else np.array([[1j]])
    for v in (np.nan, np.inf):
        m = h.copy()
        m[0, d - 1] = v
        m[d - 1, 0] = v
        yield f"{v}", m


def hermitian(task, dim):
    """Hamiltonian terms and the generators of evolutions (fixed and parameterized)"""
    def uses(m):
        yield "term", lambda: HamiltonianTerm(m)
        yield "evolution", lambda: D.time_evolution(m, 0.3)
        yield "parameterized evolution", lambda: PD.time_evolution(m, -1.0, 1.0)
    pow2 = dim in (1, 2, 4, 8, 16)
    for i, h in enumerate(good_hermitians(dim)):
        for j, m in enumerate(forms(h)):
            for name, f in uses(m):
                expect(task, dict(good=i, form=j, call=name, dim=dim), f, True)
        if pow2:
            expect(task, dict(good=i, call="Hamiltonian", dim=dim), lambda: Hamiltonian([HamiltonianTerm(h)]), True)
        for shape, m in shapes(h):
            for name, f in uses(m):
                if name != "term" and shape == "empty":
                    continue
                expect(task, dict(good=i, shape=shape, call=name, dim=dim), f, False)
        for how, m in not_hermitian(h):
            with np.errstate(invalid="ignore"):
                if np.max(np.abs(m - m.conj().T)) < 5e-3:
                    continue
            for name, f in uses(m):
                if how == "inf" and name != "term":
                    continue
                expect(task, dict(good=i, changed=how, call=name, dim=dim), f, False)


# ---- qubits --------------------------------------------------------------------------------------

GATE = {1: ("gen", 2, 1), 2: ("gen", 4, 2), 3: ("gen", 8, 3)}
PGATE = {1: PD.rotation_xy, 2: PD.xx, 3: lambda: PD.gms(3)}


def qubit_forms(q):
    yield "list", list(q)
    yield "tuple", tuple(q)
    yield "array", np.array(q, dtype=int)
    yield "numpy ints", [np.int64(x) for x in q]


def qubits(task, k, lo, hi, m):
    """every list of m qubits for an operation on k"""
    u, p = lib.lib_gate(GATE[k]), PGATE[k]()
    ok0 = tuple(range(k))
    for q in itertools.product(range(lo, hi + 1), repeat=m):
        ok = len(q) == k and len(set(q)) == k and min(q, default=-1) >= 0
        for form, v in qubit_forms(q):
            expect(task, dict(call="entry", qubits=q, form=form, k=k), lambda: UnitarySequenceEntry(u, v), ok)
            expect(task, dict(call="primitive", qubits=q, form=form, k=k), lambda: UnitaryPrimitive(u, [v]), ok)
        v = list(q)
        expect(task, dict(call="parameterized primitive", qubits=q, k=k), lambda: UnitaryPrimitive(p, [v]), ok)
        for i in range(3):      # one list among good ones
            lists = [list(ok0), list(ok0)[::-1]]
            lists.insert(i, v)
            expect(task, dict(call="primitive", lists=lists, k=k), lambda: UnitaryPrimitive(u, lists), ok)
        expect(task, dict(call="primitive tuple of lists", lists=lists, k=k), lambda: UnitaryPrimitive(u, tuple(lists)), ok)
    expect(task, dict(call="primitive anywhere", k=k), lambda: UnitaryPrimitive(u), True)
    expect(task, dict(call="primitive nowhere", k=k), lambda: UnitaryPrimitive(u, []), True)


def systems(task, k, n):
    """every valid qubit list, on a system it may or may not fit"""
    g, dim = GATE[k], 2 ** n
    u = lib.lib_gate(g)
    h = UnitarySequenceEntry(D.h(), [0])
    x = UnitaryPrimitive(D.sigmax())
    target = Unitary(dim, ref.generic_unitary(dim, 4))
    for q in itertools.permutations(range(5), k):
        ok = max(q) < n
        e = lambda: UnitarySequenceEntry(u, list(q))    # noqa: E731
        prim = UnitaryPrimitive(u, [list(q)])
        two = UnitaryPrimitive(u, [list(range(k)), np.array(q)])
        calls = [("sequence", lambda: UnitarySequence(dim, [e()])), ("sequence second", lambda: UnitarySequence(dim, [h, e(), h])),
                 ("sequence array", lambda: UnitarySequence(dim, np.array([h, e()], dtype=object))),
                 ("append_last", lambda: UnitarySequence(dim).append_last(e())), ("append_first", lambda: UnitarySequence(dim).append_first(e())),
                 ("append_last unsaved", lambda: UnitarySequence(dim, [h]).append_last(e(), save_undo=False)),
                 ("append_first unsaved", lambda: UnitarySequence(dim, [h]).append_first(e(), False)),
                 ("full unitary", lambda: e().get_full_unitary(dim))]
        for pname, p in (("one", prim), ("two", two)):
            calls += [("compiler " + pname, lambda p=p: Compiler(dim, [p])), ("compiler second " + pname, lambda p=p: Compiler(dim, [x, p], [0.5, 0.5])),
                      ("compiler array " + pname, lambda p=p: Compiler(dim, np.array([p, x], dtype=object))),
                      ("layered " + pname, lambda p=p: Compiler(dim, [x]).compile_layered(target, {x: 1, p: 1}, 0.9, 2)),
                      ("rav " + pname, lambda p=p: Verification.generate_rav_sequence(dim, [x, p], 2, 0.9, max_step_count=2)),
                      ("layered rav " + pname, lambda p=p: Verification.generate_layered_rav_sequence(dim, {p: 1, x: 1}, 1, 0.9, max_step_count=2)),
                      ("xeb " + pname, lambda p=p: Verification.generate_xeb_sequence(dim, {p: 1, x: 1}, 1))]
        for name, f in calls:
            expect(task, dict(call=name, qubits=q, n=n, gate=g), f, ok)
        e2 = e()
        e2.get_full_unitary(32)         # asked for a larger system before
        expect(task, dict(call="append after larger", qubits=q, n=n), lambda: UnitarySequence(dim).append_last(e2), ok)
    anyq = UnitaryPrimitive(u)
    ok = k <= n
    for name, f in [("compiler", lambda: Compiler(dim, [anyq])), ("compiler second", lambda: Compiler(dim, [x, anyq])),
                    ("compiler parameterized", lambda: Compiler(dim, [UnitaryPrimitive(PGATE[k]())])),
                    ("layered", lambda: Compiler(dim, [x]).compile_layered(target, {x: 1, anyq: 1}, 0.9, 2)),
                    ("rav", lambda: Verification.generate_rav_sequence(dim, [x, anyq], 2, 0.9, max_step_count=2)),
                    ("rav zero", lambda: Verification.generate_rav_sequence(dim, [x, anyq], 1, 0.0)),
                    ("layered rav", lambda: Verification.generate_layered_rav_sequence(dim, {anyq: 1, x: 1}, 1, 0.9, max_step_count=2)),
                    ("xeb", lambda: Verification.generate_xeb_sequence(dim, {x: 1, anyq: 1}, 1))]:
        expect(task, dict(call=name + " anywhere", n=n, gate=g), f, ok)


# ---- dimensions, collections, ranges, targets ----------------------------------------------------

def dimensions(task):
    dims = list(range(1, 9))
    for a, b in itertools.product(dims, repeat=2):
        u, v, ok = Unitary(a, ref.generic_unitary(a, 1)), Unitary(b, ref.generic_unitary(b, 2)), a == b
        r = ref.generic_unitary(b, 3)
        for name, f in [("left_multiply", lambda: u.left_multiply(v)), ("right_multiply", lambda: u.right_multiply(v)),
                        ("distance_from", lambda: u.distance_from(v)), ("distance_from raw", lambda: u.distance_from(r)),
                        ("close_to", lambda: u.close_to(v)), ("close_to raw", lambda: u.close_to(r)), ("close_to 0", lambda: u.close_to(v, 0.0)),
                        ("close_to 0.5 raw", lambda: u.close_to(r, 0.5))]:
            expect(task, dict(call=name, dims=[a, b]), f, ok)
        for shape, m in shapes(r):
            if a == b:
                expect(task, dict(call="distance_from", shape=shape, dims=[a, b]), lambda: u.distance_from(m), False)
                expect(task, dict(call="close_to", shape=shape, dims=[a, b]), lambda: u.close_to(m, 0.3), False)
        expect(task, dict(call="tensor", dims=[a, b]), lambda: u.tensor(v), True)
    for n1, n2 in itertools.product(range(1, 5), repeat=2):
        d1, d2 = 2 ** n1, 2 ** n2
        for filled, other in itertools.product((0, 1, 2), repeat=2):
            a, b = some_sequence(n1, filled), some_sequence(n2, other)
            expect(task, dict(call="combine", qubits=[n1, n2], filled=filled, other=other), lambda: UnitarySequence.combine(a, b), n1 == n2)
            expect(task, dict(call="combine", qubits=[n1, n1, n2], filled=filled, other=other), lambda: UnitarySequence.combine(a, a, b), n1 == n2)
            expect(task, dict(call="combine", qubits=[n2, n1, n1], filled=filled, other=other), lambda: UnitarySequence.combine(b, a, a), n1 == n2)
            expect(task, dict(call="combine", qubits=[n1, n2, n1], filled=filled, other=other), lambda: UnitarySequence.combine(a, b, a), n1 == n2)
        c = Compiler(d1, [UnitaryPrimitive(D.h())])
        h = UnitaryPrimitive(D.h())
        for t in (Unitary.identity(d2), Unitary(d2, ref.generic_unitary(d2, 4))):
            for th in (None, 0.0, 0.5, 1.0):
                expect(task, dict(call="compile", qubits=[n1, n2], threshold=th), lambda: c.compile(t, th, 3), n1 == n2)
                expect(task, dict(call="compile_layered", qubits=[n1, n2], threshold=th), lambda: c.compile_layered(t, {h: 1}, th, 3), n1 == n2)
    for d in (0, -1, -2):
        for name, f in [("Unitary", lambda: Unitary(d)), ("identity", lambda: Unitary.identity(d)), ("Compiler", lambda: Compiler(d, [UnitaryPrimitive(D.h())]))]:
            expect(task, dict(call=name, dim=d), f, False)
    for d in range(1, 17):
        expect(task, dict(call="Unitary", dim=d), lambda: Unitary(d), True)
        expect(task, dict(call="identity", dim=d), lambda: Unitary.identity(d), True)


def some_sequence(n, k):
    s = UnitarySequence(2 ** n, [UnitarySequenceEntry(D.h(), [0])] * min(k, 1))
    if k == 2:
        s.product()
        s.append_last(UnitarySequenceEntry(D.rx(0.3), [n - 1]))
    return s


def collections(task):
    h = UnitaryPrimitive(D.h())
    cn = UnitaryPrimitive(D.cnot(), [[0, 1]])
    cc = UnitaryPrimitive(D.ccnot())
    far = UnitaryPrimitive(D.h(), [[0], [2]])
    rot = UnitaryPrimitive(PD.rotation_xy(), [[1]])
    none = UnitaryPrimitive(D.h(), [])
    items = dict(h=(h, True), cnot=(cn, True), ccnot=(cc, False), far=(far, False), rot=(rot, True), nowhere=(none, True), missing=(None, False))
    for r in (1, 2, 3):
        for names in itertools.permutations(items, r):
            ps, ok = [items[x][0] for x in names], all(items[x][1] for x in names)
            arr = np.empty(len(ps), dtype=object)
            arr[:] = ps
            expect(task, dict(call="Compiler", primitives=names), lambda: Compiler(4, list(ps)), ok)
            expect(task, dict(call="Compiler array", primitives=names), lambda: Compiler(4, arr), ok)
            if names == ("nowhere",):
                continue
            expect(task, dict(call="rav", primitives=names), lambda: Verification.generate_rav_sequence(4, list(ps), 2, 0.3, max_step_count=2), ok)
            expect(task, dict(call="rav array", primitives=names), lambda: Verification.generate_rav_sequence(4, arr, 0, 0.3, max_step_count=2), ok)
            if "nowhere" in names:
                continue
            d = {p: 1 + i for i, p in enumerate(ps)}
            expect(task, dict(call="layered rav", primitives=names), lambda: Verification.generate_layered_rav_sequence(4, d, 2, 0.3, max_step_count=2), ok)
            expect(task, dict(call="xeb", primitives=names), lambda: Verification.generate_xeb_sequence(4, d, 2), ok)
            t = Unitary(4, ref.generic_unitary(4, 4))
            expect(task, dict(call="layered", primitives=names), lambda: Compiler(4, [h]).compile_layered(t, d, 0.99, 2), ok)
    t = Unitary(4, ref.generic_unitary(4, 4))
    for name, f in [("compile", lambda: Compiler(4, []).compile(t, 0.99, 3)), ("compile identity", lambda: Compiler(4, []).compile(Unitary(4), 0.9, 3)),
                    ("layered", lambda: Compiler(4, [h]).compile_layered(t, {}, 0.99, 3)), ("layered none", lambda: Compiler(4, [h]).compile_layered(t, None, 0.99, 3)),
                    ("Compiler none", lambda: Compiler(4, None)), ("rav", lambda: Verification.generate_rav_sequence(4, [], 2, 0.9, max_step_count=3)),
                    ("rav none", lambda: Verification.generate_rav_sequence(4, None, 2, 0.9, max_step_count=3)),
                    ("layered rav none", lambda: Verification.generate_layered_rav_sequence(4, None, 2, 0.9, max_step_count=3)),
                    ("xeb none", lambda: Verification.generate_xeb_sequence(4, None, 2)),
                    ("rav length", lambda: Verification.generate_rav_sequence(4, [h], -1, 0.9, max_step_count=3)),
                    ("layered rav length", lambda: Verification.generate_layered_rav_sequence(4, {h: 1}, -1, 0.9, max_step_count=3)),
                    ("xeb length", lambda: Verification.generate_xeb_sequence(4, {h: 1}, -1)),
                    ("combine nothing", lambda: UnitarySequence.combine())]:
        expect(task, dict(call="no primitives: " + name), f, False)
    # terms and sequences
    t2, t4, t8 = (HamiltonianTerm(ref.generic_hermitian(d, 1)) for d in (2, 4, 8))
    terms = dict(a=t2, b=t4, c=t8, none=None)
    for r in (0, 1, 2, 3):
        for names in itertools.product(terms, repeat=r):
            ts = [terms[x] for x in names]
            ok = r > 0 and None not in ts and len({x.get_dimension() for x in ts}) == 1
            expect(task, dict(call="Hamiltonian", terms=names), lambda: Hamiltonian(ts), ok)
    expect(task, dict(call="Hamiltonian none"), lambda: Hamiltonian(None), False)
    expect(task, dict(call="HamiltonianTerm none"), lambda: HamiltonianTerm(None), False)
    es = dict(a=(UnitarySequenceEntry(D.h(), [0]), True), b=(UnitarySequenceEntry(D.cnot(), [1, 0]), True), c=(UnitarySequenceEntry(D.h(), [2]), False),
              d=(UnitarySequenceEntry(D.ccnot(), [1, 0, 2]), False), none=(None, False))
    for r in (0, 1, 2, 3):
        for names in itertools.product(es, repeat=r):
            xs, ok = [es[x][0] for x in names], all(es[x][1] for x in names)
            arr = np.empty(len(xs), dtype=object)
            arr[:] = xs
            expect(task, dict(call="UnitarySequence", entries=names), lambda: UnitarySequence(4, xs), ok)
            expect(task, dict(call="UnitarySequence array", entries=names), lambda: UnitarySequence(4, arr), ok)
    ss = dict(a=some_sequence(2, 0), b=some_sequence(2, 2), c=some_sequence(1, 1), d=some_sequence(3, 2), none=None)
    for r in (1, 2, 3):
        for names in itertools.product(ss, repeat=r):
            xs = [ss[x] for x in names]
            ok = None not in xs and len({x.get_dimension() for x in xs}) == 1
            expect(task, dict(call="combine", sequences=names), lambda: UnitarySequence.combine(*xs), ok)


def places(size):
    return range(size) if size <= 33 else sorted({0, 1, 2, 7, 8, 9, 15, 16, 23, 24, 25, 31, 32, 33, 49, 50, 63, 64, 65, 99, 100, 127, 128, 255, 256, size // 2, size - 3,
                                                  size - 2, size - 1} & set(range(size)))


def long_lists(task, size):
    """one malformed item at each place of a list of `size` items"""
    entry = lambda q=0: UnitarySequenceEntry(D.h(), [q])        # noqa: E731
    shared, prim = entry(), UnitaryPrimitive(D.h(), [[1], [0]])
    bad_entries_ = [("far", entry(2)), ("large", UnitarySequenceEntry(D.ccnot(), [0, 1, 2])), ("high", UnitarySequenceEntry(D.cnot(), [2, 0])), ("none", None), ("unitary", D.h())]
    bad_prims = [("far", UnitaryPrimitive(D.h(), [[0], [2]])), ("ccnot", UnitaryPrimitive(D.ccnot())), ("none", None), ("unitary", D.h()),
                 ("high", UnitaryPrimitive(D.cnot(), [[0, 1], [1, 2]]))]
    term, bad_terms = HamiltonianTerm(ref.generic_hermitian(4, 1)), [("small", HamiltonianTerm(ref.X)), ("large", HamiltonianTerm(ref.generic_hermitian(8, 1))), ("none", None)]
    one, bad_seqs = some_sequence(2, 2), [("small", some_sequence(1, 1)), ("large", some_sequence(3, 1)), ("empty large", some_sequence(3, 0)), ("none", None)]
    bad_lists = [("far", [-1]), ("two", [0, 1]), ("empty", []), ("repeated", [1, 1])]
    t = Unitary(4, ref.generic_unitary(4, 4))

    def entries():
        return [shared if i % 3 else entry(i % 2) for i in range(size)]

    def array(xs):
        a = np.empty(len(xs), dtype=object)
        a[:] = xs
        return a

    def primitives():
        return [prim if i % 3 == 1 else UnitaryPrimitive(D.h(), [[i % 2]]) for i in range(size)]

    def counts(ps):
        out = {}
        for p in ps:
            out[UnitaryPrimitive(D.h(), [[0]]) if p in out else p] = 1
        return out
    users = [
        ("UnitarySequence", entries, bad_entries_, [lambda xs: UnitarySequence(4, xs), lambda xs: UnitarySequence(4, array(xs))]),
        ("Compiler", primitives, bad_prims, [lambda xs: Compiler(4, xs), lambda xs: Compiler(4, array(xs)), lambda xs: Compiler(4, xs, [1 / len(xs)] * len(xs)),
                                             lambda xs: Verification.generate_rav_sequence(4, xs, 1, 0.0), lambda xs: Verification.generate_rav_sequence(4, xs, 0, 0.3, max_step_count=1),
                                             lambda xs: Verification.generate_xeb_sequence(4, counts(xs), 1),
                                             lambda xs: Verification.generate_layered_rav_sequence(4, counts(xs), 0, 0.3, max_step_count=1),
                                             lambda xs: Compiler(4, [prim]).compile_layered(t, counts(xs), 0.0, 1)]),
        ("Hamiltonian", lambda: [term if i % 3 else HamiltonianTerm(ref.generic_hermitian(4, 2)) for i in range(size)], bad_terms, [Hamiltonian]),
        ("combine", lambda: [one if i % 3 else some_sequence(2, i % 2) for i in range(size)], bad_seqs, [lambda xs: UnitarySequence.combine(*xs)]),
        ("allowed", lambda: [[i % 5] for i in range(size)], bad_lists, [lambda xs: UnitaryPrimitive(D.h(), xs), lambda xs: UnitaryPrimitive(PD.rotation_xy(), tuple(xs))]),
    ]
    for name, make, bads, fs in users:
        for j, f in enumerate(fs):
            expect(task, dict(call=name, use=j, size=size), lambda: f(make()), True)
            for bname, b in bads:
                for i in places(size):
                    if j > 1 and size > 33 and i not in (0, 1, size // 2, size - 2, size - 1):
                        continue
                    if size == 1 and name in ("Hamiltonian", "combine") and b is not None:
                        continue        # alone they are well formed
                    xs = make()
                    xs[i] = b
                    expect(task, dict(call=name, use=j, size=size, bad=bname, at=i), lambda: f(xs), False)
    # in a sequence that is edited afterwards
    s = UnitarySequence(4, entries())
    for bname, b in bad_entries_:
        for f in (s.append_last, s.append_first):
            expect(task, dict(call="append", size=size, bad=bname), lambda: f(b), False)
        task.check(s.get_length() == size, "a refused append changed the sequence", case=dict(size=size, bad=bname))
    # primitives with many qubit lists, one of them outside the system
    for i in places(size):
        lists = [[k % 2] for k in range(size)]
        lists[i] = [2]
        p = UnitaryPrimitive(D.h(), lists)
        for j, f in enumerate([lambda: Compiler(4, [p]), lambda: Verification.generate_xeb_sequence(4, {p: 1}, 1), lambda: Verification.generate_rav_sequence(4, [p], 1, 0.0),
                               lambda: Compiler(4, [prim]).compile_layered(t, {p: 1}, 0.0, 1)]):
            expect(task, dict(call="lists of a primitive", use=j, size=size, at=i), f, False)
        expect(task, dict(call="lists of a primitive", size=size, at=i, system=8), lambda: Compiler(8, [p]), True)


def large_matrices(task, dim, part, parts):
    """one wrong entry anywhere in a large matrix"""
    g, h = ref.generic_unitary(dim, 2), ref.generic_hermitian(dim, 2)
    ident = np.eye(dim, dtype=complex)
    u = Unitary(dim, g)
    for j, (a, b) in enumerate(itertools.product(range(dim), repeat=2)):
        if j % parts != part:
            continue
        for name, m0 in (("generic", g), ("identity", ident)) if dim < 64 or (a + b) % 2 else (("identity", ident),):
            m = m0.copy()
            m[a, b] += 0.05 if a != b or name == "identity" else 0.05 * m[a, b] / abs(m[a, b])
            expect(task, dict(call="Unitary", matrix=name, at=[a, b], dim=dim), lambda: Unitary(dim, m), False)
        m = g.copy()
        m[a, b] = np.nan
        expect(task, dict(call="Unitary", value="nan", at=[a, b], dim=dim), lambda: Unitary(dim, m), False)
        for name, f in (("term", HamiltonianTerm), ("evolution", lambda m: D.time_evolution(m, 0.3)), ("parameterized evolution", lambda m: PD.time_evolution(m, -1.0, 1.0))):
            m = h.copy()
            m[a, b] += 0.05 * (1j if a == b else 1)
            expect(task, dict(call=name, at=[a, b], dim=dim), lambda: f(m), False)
    if part:
        return
    for d2 in (dim // 2, dim - 1, dim + 1, dim * 2):
        v = Unitary(d2, ref.generic_unitary(d2, 1))
        for name, f in (("Unitary", lambda: Unitary(d2, g)), ("left", lambda: u.left_multiply(v)), ("right", lambda: v.right_multiply(u)), ("distance", lambda: u.distance_from(v)),
                        ("distance raw", lambda: u.distance_from(v.get_matrix())), ("close", lambda: v.close_to(u)), ("close raw", lambda: u.close_to(v.get_matrix(), 0.5))):
            expect(task, dict(call=name, dims=[dim, d2]), f, False)
    for name, f in (("Unitary", lambda: Unitary(dim, g)), ("term", lambda: HamiltonianTerm(h)), ("evolution", lambda: D.time_evolution(h, 0.3)),
                    ("parameterized evolution", lambda: PD.time_evolution(h, -1.0, 1.0)), ("distance", lambda: u.distance_from(u)), ("left", lambda: u.left_multiply(u)),
                    ("fortran", lambda: Unitary(dim, np.asfortranarray(g)))):
        expect(task, dict(call=name, dim=dim), f, True)


def wide_qubits(task, k):
    """operations on many qubits: every place may hold a repeated, negative or too high qubit"""
    u = Unitary(2 ** k, ref.generic_unitary(2 ** k, 1))
    good = [(3 * i) % 7 if k == 7 else k - 1 - i for i in range(k)]
    h = UnitaryPrimitive(D.h(), [[0]])

    def both(name, q, ok, form):
        expect(task, dict(call="entry", how=name, qubits=q, form=form), lambda: UnitarySequenceEntry(u, FORMS[form](q)), ok)
        expect(task, dict(call="primitive", how=name, qubits=q, form=form), lambda: UnitaryPrimitive(u, [FORMS[form](good), FORMS[form](q)]), ok)
    for form in FORMS:
        both("good", good, True, form)
        both("spread", [3 * x for x in good], True, form)
        for a, b in itertools.permutations(range(k), 2):
            q = list(good)
            q[a] = q[b]
            both("repeated", q, False, form)
        for a in range(k):
            for v in (-1, -2, -k, -100):
                q = list(good)
                q[a] = v
                both("negative", q, False, form)
        both("short", good[:-1], False, form)
        both("long", good + [k], False, form)
    dim = 2 ** k
    for a in range(k):
        for v in (k, k + 1, 2 * k, 20):
            q = [v if i == a else x for i, x in enumerate(good)]
            e = UnitarySequenceEntry(u, q)
            p = UnitaryPrimitive(u, [good, q])
            for name, f in [("sequence", lambda: UnitarySequence(dim, [e])), ("append", lambda: UnitarySequence(dim).append_last(e)), ("prepend", lambda: UnitarySequence(dim).append_first(e)),
                            ("full unitary", lambda: e.get_full_unitary(dim)), ("compiler", lambda: Compiler(dim, [h, p])), ("rav", lambda: Verification.generate_rav_sequence(dim, [p], 1, 0.0)),
                            ("xeb", lambda: Verification.generate_xeb_sequence(dim, {h: 1, p: 1}, 0))]:
                expect(task, dict(call=name, qubits=q, n=k), f, False)
            if v == k and k < 7:
                expect(task, dict(call="sequence", qubits=q, n=v + 1), lambda: UnitarySequence(2 ** (v + 1), [e]), True)
    for n in range(1, k):
        for name, f in [("sequence", lambda: UnitarySequence(2 ** n, [UnitarySequenceEntry(u, good)])), ("compiler", lambda: Compiler(2 ** n, [UnitaryPrimitive(u)]))]:
            expect(task, dict(call=name, n=n, k=k), f, False)


FORMS = dict(list=list, tuple=tuple, array=np.array, int8=lambda q: np.array(q, dtype=np.int8))


def ranges(task):
    vals = (-7.5, -1, -1e-3, 0, 0.0, 1e-3, 0.5, 1, 3, 6.25, 100.0)
    h = ref.generic_hermitian(2, 1)
    for lo, hi in itertools.product(vals, repeat=2):
        ok = lo <= hi
        for a in (True, False):
            expect(task, dict(call="parameter", lo=lo, hi=hi, angle=a), lambda: Par("a", lo, hi, a), ok)
        expect(task, dict(call="evolution", lo=lo, hi=hi), lambda: PD.time_evolution(h, lo, hi), ok)
        expect(task, dict(call="evolution suffix", lo=lo, hi=hi), lambda: PD.time_evolution(h, lo, hi, "0+1"), ok)
    p = Par("a", 0, 1, False)
    f = lambda a: ref.rz(a)     # noqa: E731
    for name, g, ok in [("list", lambda: ParameterizedUnitary(2, f, [p], "N"), True), ("array", lambda: ParameterizedUnitary(2, f, np.array([p]), "N"), True),
                        ("none", lambda: ParameterizedUnitary(2, f, None), False),
                        ("missing parameter", lambda: ParameterizedUnitary(2, f, [None]), False), ("dimension", lambda: ParameterizedUnitary(0, f, [p]), False),
                        ("no function", lambda: ParameterizedUnitary(2, None, [p]), False)]:
        expect(task, dict(call="parameterized unitary", how=name), g, ok)
    # a matrix function of the wrong size, or not unitary, shows when values are given
    for name, fn in [("size", lambda a: ref.generic_unitary(4, 1)), ("scaled", lambda a: (1 + a) * ref.H), ("non-square", lambda a: ref.H[:1]), ("flat", lambda a: ref.H.reshape(-1))]:
        expect(task, dict(call="as_unitary", function=name), lambda: ParameterizedUnitary(2, fn, [p], "N").as_unitary([0.5]), False)
    expect(task, dict(call="as_unitary", function="good"), lambda: ParameterizedUnitary(2, f, [p], "N").as_unitary([0.5]), True)
    for t in (-3.0, -0.5):
        hh = Hamiltonian([HamiltonianTerm(h)])
        expect(task, dict(call="compile_stoq_sequence", max_t_step=t), lambda: hh.compile_stoq_sequence(0.5, t, 0.5), False)
        expect(task, dict(call="compile_rav_sequence", max_t_step=t), lambda: hh.compile_rav_sequence(0.5, t, 0.5), False)


def targets(task):
    h, hs = UnitaryPrimitive(D.h()), UnitaryPrimitive(D.t())
    t = Unitary(4, ref.generic_unitary(4, 4))
    for prims in ([h], [h, hs]):
        for th in (None, 0.0, 0.5, 1.0):
            for steps in (1, 4):
                c = Compiler(4, prims)
                for k in (0, 1):
                    if k:
                        mixed_rng(lambda: c.compile(t, 0.9, 3))
                    expect(task, dict(call="compile", target=None, threshold=th, used=k), lambda: c.compile(None, th, steps), False)
                    expect(task, dict(call="compile_layered", target=None, threshold=th, used=k), lambda: c.compile_layered(None, {h: 1}, th, steps), False)
                    expect(task, dict(call="compile", target="matrix", threshold=th, used=k), lambda: c.compile(t.get_matrix(), th, steps), False)
                    expect(task, dict(call="compile", target="good", threshold=th, used=k), lambda: c.compile(t, th, steps), True)
                    expect(task, dict(call="compile_layered", target="good", threshold=th, used=k), lambda: c.compile_layered(t, {hs: 2, h: 1}, th, steps), True)


# ---- refused calls leave everything as it was ----------------------------------------------------

def bad_calls():
    """(name, function of the C05 world): every one must be refused"""
    o = []

    def add(name, f):
        o.append((name, f))
    far = lambda: UnitarySequenceEntry(D.h(), [2])                  # noqa: E731
    big = lambda: UnitarySequenceEntry(D.ccnot(), [1, 0, 2])        # noqa: E731
    for s in c05.SEQS:
        for bname, b in (("far", far), ("big", big), ("none", lambda: None)):
            add(f"{s}.append_last({bname})", lambda w, s=s, b=b: w[s].append_last(b()))
            add(f"{s}.append_first({bname})", lambda w, s=s, b=b: w[s].append_first(b(), save_undo=False))
        add(f"combine({s},small)", lambda w, s=s: UnitarySequence.combine(w[s], some_sequence(1, 1)))
        add(f"combine(large,{s})", lambda w, s=s: UnitarySequence.combine(some_sequence(3, 1), w[s]))
        if s != "s3":
            add(f"{s}.undo", lambda w, s=s: w[s].undo())
    add("entry(u2,[0,1])", lambda w: UnitarySequenceEntry(w["u2"], [0, 1]))
    add("entry(u4,[1,1])", lambda w: UnitarySequenceEntry(w["u4"], [1, 1]))
    add("entry(u4,[-1,0])", lambda w: UnitarySequenceEntry(w["u4"], [-1, 0]))
    add("e2.full2", lambda w: w["e2"].get_full_unitary(2))
    add("e1.full2", lambda w: w["e1"].get_full_unitary(2))
    add("e1.perm2", lambda w: w["e1"].get_permute_matrix(2))
    add("UnitarySequence(2,es)", lambda w: UnitarySequence(2, w["raw"]["es"]))
    add("UnitarySequence(2,ea)", lambda w: UnitarySequence(2, w["raw"]["ea"]))
    add("u2.left(u4)", lambda w: w["u2"].left_multiply(w["u4"]))
    add("u4.right(ux)", lambda w: w["u4"].right_multiply(w["ux"]))
    add("u4.dist(u2)", lambda w: w["u4"].distance_from(w["u2"]))
    add("u2.dist(m4)", lambda w: w["u2"].distance_from(w["raw"]["m4"]))
    add("ux.close(u4)", lambda w: w["ux"].close_to(w["u4"]))
    add("Unitary(2,m4)", lambda w: Unitary(2, w["raw"]["m4"]))
    add("Unitary(2,h2)", lambda w: Unitary(2, w["raw"]["h2"] * 3))
    add("term(m4)", lambda w: HamiltonianTerm(w["raw"]["m4"]))
    add("Hamiltonian mixed", lambda w: Hamiltonian([w["t1"], HamiltonianTerm(ref.generic_hermitian(4, 1))]))
    add("Hamiltonian(terms+none)", lambda w: Hamiltonian(w["raw"]["terms"] + [None]))
    add("primitive(cnot,[[0]])", lambda w: UnitaryPrimitive(w["cnot"], [[0, 1], [0]]))
    add("primitive(pu,[[-1]])", lambda w: UnitaryPrimitive(w["pu"], [[0], [-1]]))
    add("Compiler(2,prims)", lambda w: Compiler(2, w["raw"]["prims"], w["raw"]["probs"]))
    add("Compiler(4,prims+none)", lambda w: Compiler(4, w["raw"]["prims"] + [None]))
    add("c1.compile(none)", lambda w: w["c1"].compile(None, 0.9, 3))
    add("c1.compile(u2)", lambda w: w["c1"].compile(w["u2"], 0.9, 3))
    add("c2.layered(u2)", lambda w: w["c2"].compile_layered(w["u2"], w["raw"]["counts"], 0.9, 3))
    add("c1.layered(none)", lambda w: w["c1"].compile_layered(None, w["raw"]["counts"], 0.9, 3))
    add("c2.layered({})", lambda w: w["c2"].compile_layered(w["tgt"], {}, 0.9, 3))
    add("c1.layered(far)", lambda w: w["c1"].compile_layered(w["tgt"], {w["p4"]: 1, UnitaryPrimitive(w["rx"], [[0], [2]]): 1}, 0.9, 3))
    add("rav(2,prims)", lambda w: Verification.generate_rav_sequence(2, w["raw"]["prims"], 2, 0.9, max_step_count=3))
    add("layered_rav(2,counts)", lambda w: Verification.generate_layered_rav_sequence(2, w["raw"]["counts"], 2, 0.9, max_step_count=3))
    add("pu.out of range", lambda w: w["pu"].as_unitary([0.5, 7.5]))
    add("pc.out of range", lambda w: w["pc"].as_unitary([-1.5, 0.5]))
    add("pu.too many", lambda w: w["pu"].as_unitary([0.5, 0.5, 0.5]))
    add("evolution(m4)", lambda w: D.time_evolution(w["raw"]["m4"], 0.3))
    add("PD.evolution inverted", lambda w: PD.time_evolution(w["raw"]["h2"], 1.0, -1.0))
    add("ham.rav zero step", lambda w: w["ham"].compile_rav_sequence(0.5, 0.0, 0.5))
    add("ham.stoq inverted", lambda w: w["ham"].compile_stoq_sequence(0.5, -0.5, 0.5))
    return o


def do_bad(task, w, bad):
    name, f = bad
    task.check(refused(lambda: f(w)), f"{name} is accepted", case=task.case)


def world(task, i):
    """one refused call; then each operation of C05, which must do what it does alone"""
    bad, o = bad_calls()[i], c05.ops()
    w, keep = c05.fresh()
    task.case = dict(calls=[bad[0]])
    do_bad(task, w, bad)
    w["keep"] = keep
    m = c05.compare_raw(w, (), "the refused call " + bad[0])
    del w["keep"]
    m = m or c05.compare(w, (), "the refused call " + bad[0])
    if m:
        task.violation(m, case=task.case)
    task.traces += 1
    for j, (name, f, edits) in enumerate(o):
        w, _ = c05.fresh()
        task.case = dict(calls=[bad[0], name])
        do_bad(task, w, bad)
        try:
            r = f(w)
        except Exception as e:
            r = "raised " + type(e).__name__
        s = c05.solo_obs(j, o)
        if isinstance(r, str) or isinstance(s, str):
            d = None if isinstance(r, str) and isinstance(s, str) and r == s else "whether it fails"
        else:
            d = c05.diff(s, c05.obs(r), "the result")
        if d:
            task.violation(f"after the refused call {bad[0]}, {d} of {name} is not what it is without", case=task.case)
        d = same_edited(j, o, w, edits)
        if d:
            task.violation(f"after the refused call {bad[0]}, {name} leaves {d}", case=task.case)
        task.traces += 1
        task.transitions += 2
        task.outcome((bad[0], name))
    task.states += 1


_edited = {}


def same_edited(j, o, w, edits):
    """the edited objects after the operation, against the operation alone"""
    if not edits:
        return None
    if j not in _edited:
        w0, _, _, _ = c05.run([j], o)
        _edited[j] = {k: c05.obs(w0[k]) for k in edits}
    for k in edits:
        d = c05.diff(_edited[j][k], c05.obs(w[k]), k)
        if d:
            return d
    return None


def world2(task, i):
    """two refused calls"""
    bads = bad_calls()
    for b in bads:
        w, _ = c05.fresh()
        task.case = dict(calls=[bads[i][0], b[0]])
        do_bad(task, w, bads[i])
        do_bad(task, w, b)
        m = c05.compare(w, (), f"the refused calls {bads[i][0]}, {b[0]}")
        if m:
            task.violation(m, case=task.case)
        task.traces += 1
        task.transitions += 2
    task.states += 1


# ---- refused calls in every reachable state of a sequence ----------------------------------------

def bad_entries(n):
    return [("far", lambda: UnitarySequenceEntry(D.rx(0.4), [n])), ("large", lambda: UnitarySequenceEntry(Unitary(2 ** (n + 1)), list(range(n + 1)))),
            ("high", lambda: UnitarySequenceEntry(D.cnot(), [n, 0])), ("missing", lambda: None), ("unitary", lambda: D.h())]


class RefuseSpec(SeqSpec):
    def ops(self, w):
        out = super().ops(w)
        for i in range(len(bad_entries(self.n))):
            for s in (True, False):
                out.append(("bad_first", i, s))
                out.append(("bad_last", i, s))
        out += [("bad_combine", 0), ("bad_combine", 1), ("bad_combine", 2), ("bad_sequence",)]
        return out

    def apply(self, w, op):
        if not op[0].startswith("bad"):
            return super().apply(w, op)
        seq = w.live["seq"]
        if op[0] in ("bad_first", "bad_last"):
            e = bad_entries(self.n)[op[1]][1]()
            f = seq.append_first if op[0] == "bad_first" else seq.append_last
            ok = refused(lambda: f(e) if op[2] else f(e, save_undo=False))
        elif op[0] == "bad_combine":
            small, large = UnitarySequence(2 ** (self.n + 1)), some_sequence(self.n + 1, 2)
            args = [(seq, small), (large, seq), (seq, None)][op[1]]
            ok = refused(lambda: UnitarySequence.combine(*args))
        else:       # a smaller system cannot hold the entries once they use its last qubit
            es = seq.get_sequence_entries()
            ok = refused(lambda: UnitarySequence(2 ** self.n, es + [bad_entries(self.n)[0][1]()]))
        return None if ok else f"{op} is accepted"


def receivers(big):
    r = [dict(n=1, gates=[A1, A2], max_len=2, saves=(True, False), ops=("product", "undo")),
         dict(n=2, gates=[B1], max_len=3, saves=(True, False), ops=("product", "undo")),
         dict(n=2, gates=[B2, B3], max_len=2, saves=(True, False), ops=("product", "undo")),
         dict(n=2, gates=[B3], max_len=2, saves=(True,), ops=("product", "undo", "inverse", "combine"), other=[B1]),
         dict(n=2, gates=[B3], max_len=3, saves=(True,), start=[B1, B2], how="sharedarray", ops=("product", "undo")),
         dict(n=3, gates=[C1], max_len=2, saves=(True, False), ops=("product", "undo"))]
    if big:
        r += [dict(n=1, gates=[A1, A2], max_len=3, saves=(True, False), ops=("product", "undo")),
              dict(n=2, gates=[B1, B2, B3], max_len=2, saves=(True, False), ops=("product", "undo")),
              dict(n=2, gates=[B3], max_len=4, saves=(True, False), ops=("product", "undo", "text"))]
    return r


def receiver(task, spec):
    bfs.search(task, RefuseSpec(**spec), case=dict(spec=spec))


# ---- a refused compilation, then a normal one ----------------------------------------------------

BAD_COMPILE = [("compile(none)", lambda c, p: c.compile(None, 0.9, 3)), ("compile(matrix)", lambda c, p: c.compile(ref.generic_unitary(4, 4), 0.9, 3)),
               ("compile(small)", lambda c, p: c.compile(Unitary(2), 0.9, 3)), ("compile(large)", lambda c, p: c.compile(Unitary(8), 0.0, 3)),
               ("layered(none)", lambda c, p: c.compile_layered(None, {p: 1}, 0.9, 3)), ("layered(small)", lambda c, p: c.compile_layered(Unitary(2), {p: 1}, 0.9, 3)),
               ("layered(no counts)", lambda c, p: c.compile_layered(Unitary(4), None, 0.9, 3)),
               ("layered(far)", lambda c, p: c.compile_layered(Unitary(4, ref.generic_unitary(4, 4)), {p: 1, UnitaryPrimitive(D.h(), [[3]]): 1}, 0.9, 3)),
               ("layered(large)", lambda c, p: c.compile_layered(Unitary(4, ref.generic_unitary(4, 4)), {UnitaryPrimitive(D.ccnot()): 1}, 0.9, 3))]


def recompile(task, i):
    name, f = BAD_COMPILE[i]
    for probs in (None, [0.25, 0.75]):
        for before in range(3):
            for k in range(6):
                outs = []
                for bad in (False, True):
                    p = UnitaryPrimitive(D.h(), [[0], [1]])
                    c = Compiler(4, [p, UnitaryPrimitive(PD.rotation_xy())], probs, 0.6, 0.5)
                    t = Unitary(4, ref.generic_unitary(4, 6))

                    def go(j):
                        with rng.controlled(Path((), comp.mixed(j, 3))):
                            r = c.compile(t, 0.98, 6) if j % 2 else c.compile_layered(t, {p: 2}, 0.98, 6)
                        return c05.obs(r)
                    for b in range(before):
                        go(b + 1)
                    if bad:
                        task.case = dict(call=name, before=before, policy=k)
                        task.check(refused(lambda: f(c, p)), f"{name} is accepted", case=task.case)
                    outs.append([go(k), go(k + 1)])
                    task.traces += 1
                    task.transitions += before + 3
                for a, b in zip(*outs):
                    d = c05.diff(a, b, "the result")
                    if d:
                        task.violation(f"after the refused {name} a compilation differs in {d}", case=task.case)
                task.outcome((name, before, k))
    task.states += 1
