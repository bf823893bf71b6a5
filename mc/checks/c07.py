"""C07 unitary algebra: state search over finite groups generated by the library's own products, and all short generic chains."""
import itertools
import math

import numpy as np

from mc import lib, ref
from stoqcompiler.unitary import Unitary, UnitaryDefinitions as D

TOL = 1e-9
BOUND = {"quick": "all reachable elements of the 1- and 2-qubit Clifford groups (24 and 11520) by left and by right multiplication, each edge checked; "
                  "their inverses; all 24 x 24 tensor products; all chains of length <= 3 of 5 operations over 3 structureless unitaries in "
                  "dimensions 1-8; 17 telling names on structureless matrices; near-identities; 5 matrix types and layouts; 2000 global phases; chains of 3000 products",
         "thorough": "chains of length <= 5 in dimensions 1-8, and length <= 3 in dimensions 9, 12, 16, 32; chains of 20000 products"}


def tasks(tier):
    big = tier == "thorough"
    t = [("clifford2", dict(side=s)) for s in ("left", "right")]
    t += [("clifford1", {}), ("layout", {}), ("phases", dict(count=20000 if big else 2000))]
    for d in range(1, 9):
        for c in range(8 if big else 1):
            t.append(("chains", dict(d=d, length=5 if big else 3, part=c, parts=8 if big else 1)))
    for d in (9, 12, 16, 32):
        t.append(("chains", dict(d=d, length=3 if big else 2, part=0, parts=1)))
    for d in (1, 2, 3, 4, 8):
        t.append(("drift", dict(d=d, steps=20000 if big else 3000)))
    t.append(("display", {}))
    for name in NAMES:
        for d in (2, 4, 3):
            t.append(("chains", dict(d=d, length=3 if big else 2, part=0, parts=1, name=name)))
    t.append(("tensors", {}))
    return t


def canon(m):
    """a phase-free key of a matrix"""
    f = m.reshape(-1)
    k = int(np.argmax(np.abs(f) > 0.2))
    v = np.round(m * (abs(f[k]) / f[k]), 6) + 0.0
    v = v + (0.0 + 0.0j)
    return v.tobytes()


def near(u, want):
    """None or message: u represents `want` up to phase and has determinant one"""
    m = u.get_matrix()
    if m.shape != want.shape or u.get_dimension() != want.shape[0]:
        return f"shape {m.shape} instead of {want.shape}"
    d = ref.phase_diff(m, want)
    if not d < TOL:
        return f"off by {d:.3g}"
    det = np.linalg.det(m)
    if not abs(det - 1) < 1e-7:
        return f"determinant {det:.6g}"
    return None


def search(task, gens, side):
    """every element reachable from the identity, one library multiplication per edge; returns {key: (unitary, reference)}"""
    d = gens[0].get_dimension()
    refs = [g.get_matrix().copy() for g in gens]
    start = Unitary.identity(d)
    seen = {canon(np.eye(d, dtype=complex)): (start, np.eye(d, dtype=complex), ())}
    level = list(seen.values())
    while level:
        nxt = []
        for u, r, word in level:
            for i, g in enumerate(gens):
                v = u.left_multiply(g) if side == "left" else u.right_multiply(g)
                w = refs[i] @ r if side == "left" else r @ refs[i]
                task.transitions += 1
                e = near(v, w)
                if e:
                    task.violation(f"product after {side} multiplications {word + (i,)}: {e}", case=dict(side=side, word=word + (i,), dim=d))
                k = canon(w)
                if k not in seen:
                    seen[k] = (v, w, word + (i,))
                    nxt.append(seen[k])
        level = nxt
    task.states += len(seen)
    task.traces += len(seen)
    task.outcomes.update(hash(k) for k in seen)
    return seen


def clifford2(task, side):
    h, s, c = ref.H, ref.S, ref.CNOT
    gens = [Unitary(4, np.kron(h, ref.I2)), Unitary(4, np.kron(ref.I2, h)), Unitary(4, np.kron(s, ref.I2)), Unitary(4, np.kron(ref.I2, s)), Unitary(4, c)]
    seen = search(task, gens, side)
    if len(seen) != 11520:
        task.violation(f"{len(seen)} elements reached instead of 11520", case=dict(side=side))
    for i, (u, r, word) in enumerate(seen.values()):
        e = near(u.inverse(), r.conj().T)
        task.transitions += 1
        if e:
            task.violation(f"inverse of the product of {word}: {e}", case=dict(word=word))


def clifford1(task):
    gens = [D.h(), Unitary(2, ref.S)]
    els = {}
    for side in ("left", "right"):
        seen = search(task, gens, side)
        if len(seen) != 24:
            task.violation(f"{len(seen)} elements reached instead of 24", case=dict(side=side))
        els = seen
    els = list(els.values())
    for (a, ra, wa), (b, rb, wb) in itertools.product(els, els):
        for what, got, want in (("tensor", a.tensor(b), np.kron(ra, rb)), ("left product", a.left_multiply(b), rb @ ra), ("right product", a.right_multiply(b), ra @ rb),
                                ("inverse of the product", a.left_multiply(b).inverse(), (rb @ ra).conj().T)):
            e = near(got, want)
            task.transitions += 1
            if e:
                task.violation(f"{what} of {wa} and {wb}: {e}", case=dict(a=wa, b=wb))
    task.traces += len(els) ** 2


NAMES = ("I", "H", "X", "Y", "Z", "T", "CNOT", "CCNOT", "U", "P", "", "identity", "R", "XX", "GMS", "Rx", "rx")


def chains(task, d, length, part, parts, name=None):
    """all words over: multiply left/right by each of 3 unitaries, invert; the result does not depend on the names"""
    us = [Unitary(d, ref.generic_unitary(d, k) if d > 1 else np.array([[np.exp(1j * (k + 0.3))]]), *([] if name is None or k == 3 and name != "I" else [name]))
          for k in (0, 3, 7)]
    rs = [u.get_matrix().copy() for u in us]
    ops = [(f, i) for f in "LR" for i in (1, 2)] + [("I", 0), ("S", 0)]
    for n in range(1, length + 1):
        for j, word in enumerate(itertools.product(ops, repeat=n)):
            if j % parts != part:
                continue
            u, r = us[0], rs[0]
            for f, i in word:
                if f == "L":
                    u, r = u.left_multiply(us[i]), rs[i] @ r
                elif f == "R":
                    u, r = u.right_multiply(us[i]), r @ rs[i]
                elif f == "I":
                    u, r = u.inverse(), r.conj().T
                else:
                    u, r = u.left_multiply(u), r @ r
            e = near(u, r)
            task.traces += 1
            task.transitions += n
            if e:
                task.violation(f"dimension {d}, {word}: {e}", case=dict(d=d, word=word, name=name))
            task.outcome((d, word, name))
            if name is not None and n == 1 and d < 4:
                for what, got, want in (("tensor", u.tensor(us[1]), np.kron(r, rs[1])), ("tensor", us[1].tensor(u), np.kron(rs[1], r)),
                                        ("tensor with itself", u.tensor(u), np.kron(r, r))):
                    e = near(got, want)
                    if e:
                        task.violation(f"{what}, dimension {d}, {word}, names {name!r}: {e}", case=dict(d=d, word=word, name=name))
                if abs(u.distance_from(us[1]) - ref.distance(r, rs[1])) > 1e-9:
                    task.violation(f"distance of operations named {name!r} is off", case=dict(d=d, word=word, name=name))
    task.states += 1


def tensors(task):
    for a, b in itertools.product(range(1, 9), repeat=2):
        if a * b > 32:
            continue
        for k in (1, 2):
            ra, rb = [ref.generic_unitary(x, k + y) if x > 1 else np.array([[1j ** k]]) for x, y in ((a, 0), (b, 2))]
            ua, ub = Unitary(a, ra, "A"), Unitary(b, rb, "B")
            for what, got, want in (("A x B", ua.tensor(ub), np.kron(ra, rb)), ("B x A", ub.tensor(ua), np.kron(rb, ra)),
                                    ("A^-1 x B", ua.inverse().tensor(ub), np.kron(ra.conj().T, rb)), ("A x A", ua.tensor(ua), np.kron(ra, ra)),
                                    ("(A x B)^-1", ua.tensor(ub).inverse(), np.kron(ra, rb).conj().T),
                                    ("A x I", ua.tensor(Unitary.identity(b)), np.kron(ra, np.eye(b))), ("I x A", Unitary.identity(b).tensor(ua), np.kron(np.eye(b), ra))):
                e = near(got, want)
                task.transitions += 1
                if e:
                    task.violation(f"{what} of dimensions {a}, {b}: {e}", case=dict(a=a, b=b))
            task.traces += 1
            task.outcome((a, b, k))
            if a * b <= 8:
                for c in (2, 3):
                    rc = ref.generic_unitary(c, 4)
                    for got in (ua.tensor(ub).tensor(Unitary(c, rc)), ua.tensor(ub.tensor(Unitary(c, rc)))):
                        e = near(got, np.kron(np.kron(ra, rb), rc))
                        if e:
                            task.violation(f"three-fold tensor product {a}, {b}, {c}: {e}", case=dict(a=a, b=b, c=c))
    task.states += 1


def layout(task):
    """matrix types and memory layouts"""
    for d in range(1, 9):
        mats = {"gen": ref.generic_unitary(d, 2), "perm": np.eye(d)[::-1].copy(), "eye": np.eye(d), "minus": -np.eye(d), "i": 1j * np.eye(d)}
        if d in (2, 4, 8):
            mats["had"] = ref.embed(ref.H, [0], int(math.log2(d)))
        for name, m in mats.items():
            forms = {"c": m, "F": np.asfortranarray(m), "view": np.kron(m, np.ones((2, 2)))[::2, ::2], "T": m.T.copy().T,
                     "clong": m.astype(np.clongdouble)}
            if np.allclose(m.imag, 0):
                forms["real"] = m.real.copy()
                if np.allclose(m.real, np.round(m.real)):
                    forms["int"] = np.round(m.real).astype(int)
                    forms["int8"] = np.round(m.real).astype(np.int8)
            for f, x in forms.items():
                before = np.array(x, copy=True)
                u = Unitary(d, x)
                dd = ref.phase_diff(u.get_matrix(), m)
                task.traces += 1
                task.transitions += 1
                task.outcome((d, name, f))
                if not dd < TOL:
                    task.violation(f"matrix {name} given as {f} in dimension {d}: off by {dd:.3g}", case=dict(d=d, name=name, form=f))
                if not np.array_equal(before, x):
                    task.violation("the matrix given was changed", case=dict(d=d, name=name, form=f))
    # entries of every size survive
    for k in range(1, 12):
        a = 10.0 ** -k
        for g in (ref.rx(a), ref.ry(a), ref.rz(a), ref.rphi(a, 0.4)):
            dd = ref.phase_diff(Unitary(2, g).get_matrix(), g)
            task.transitions += 1
            if not dd < 1e-11:
                task.violation(f"small entries of {a:g} are lost: off by {dd:.3g}", case=dict(angle=a))
    task.states += 1


OFFSETS = (0,) + tuple(s * 10.0 ** -k for k in (15, 12, 10, 9, 8, 7, 6, 5, 4, 3, 2) for s in (1, -1)) + (5e-5, -5e-5, 5e-7, 3e-4)


def phases(task, count):
    """the represented operator does not depend on the phase given; determinants near the branch cut included"""
    for d in (1, 2, 3, 4, 5, 8):
        m = ref.generic_unitary(d, 1) if d > 1 else np.eye(1, dtype=complex)
        det = np.angle(np.linalg.det(m))
        # phases that bring the determinant to -1 +- tiny, 1 +- tiny
        special = [((math.pi * s - det) + e) / d + 2 * math.pi * j / d for s in (0, 1) for e in OFFSETS for j in range(d)]
        for k, p in enumerate(special + [2 * math.pi * k / count for k in range(count // d)]):
            u = Unitary(d, np.exp(1j * p) * m)
            e = near(u, m) or near(u.inverse(), m.conj().T) or near(u.left_multiply(u), m @ m)
            task.traces += 1
            task.transitions += 3
            if e:
                task.violation(f"phase {p} in dimension {d}: {e}", case=dict(d=d, phase=p))
            if k < len(special):
                task.outcome((d, k))
    task.states += 1


def drift(task, d, steps):
    """long chains stay exact"""
    g = Unitary(d, ref.generic_unitary(d, 1) if d > 1 else np.array([[np.exp(0.3j)]]))
    u, r = Unitary.identity(d), np.eye(d, dtype=complex)
    m = g.get_matrix().copy()
    for i in range(1, steps + 1):
        u = u.left_multiply(g) if i % 2 else u.right_multiply(g)
        r = r @ m
        if i % 100 == 0:
            q, t = np.linalg.qr(r)
            r = q * (np.diag(t) / np.abs(np.diag(t)))
            e = ref.phase_diff(u.get_matrix(), r)
            if not e < 1e-7:
                task.violation(f"after {i} products in dimension {d}: off by {e:.3g}", case=dict(d=d, steps=i))
    task.traces += 1
    task.transitions += steps
    task.outcome((d, steps))
    task.states += 1


def display(task):
    """inverse flag, names, parameters and qubits through chains of inversions"""
    us = [lambda: D.rx(0.4), lambda: D.rphi(0.4, 1.2), lambda: D.cnot(), lambda: D.time_evolution(ref.Z, 0.3, "z"),
          lambda: Unitary(4, ref.generic_unitary(4, 2), "Q", {"a": (0.5, True), "b": (2.5, False)}, False, [2, 0]),
          lambda: Unitary(2, ref.generic_unitary(2, 2), "R", {}, True, [1]), lambda: Unitary.identity(8)]
    for i, f in enumerate(us):
        u = f()
        base, m = u.get_display_name(), u.get_matrix().copy()
        start = base.endswith("†")
        bare = base.removesuffix("†")
        v = u
        for k in range(1, 7):
            v = v.inverse()
            want = bare + ("†" if start != (k % 2 == 1) else "")
            task.transitions += 1
            if v.get_display_name() != want:
                task.violation(f"inverted {k} times, {base!r} is displayed as {v.get_display_name()!r}", case=dict(unitary=i, times=k))
            if v.get_operation_name() != u.get_operation_name() or v.get_qasm() .split("\t")[1:] != u.get_qasm().split("\t")[1:]:
                task.violation(f"inverted {k} times, name or qubits of {base!r} change", case=dict(unitary=i, times=k))
            e = near(v, m if k % 2 == 0 else m.conj().T)
            if e:
                task.violation(f"inverted {k} times: {e}", case=dict(unitary=i, times=k))
        task.traces += 1
        task.outcome(i)
    task.states += 1
