"""Labels for operations, and the two things each label means: a library object and a reference matrix."""
import numpy as np

from . import boot  # noqa: F401
from . import ref
from stoqcompiler.unitary import (Unitary, UnitaryDefinitions as D, UnitarySequence,
                                  UnitarySequenceEntry)


def lib_gate(g):
    k = g[0]
    if k == "inv":
        return lib_gate(g[1]).inverse()
    if k == "gen":
        return Unitary(g[1], ref.generic_unitary(g[1], g[2]))
    if k == "near":          # ("near", dimension, index, size): close to the identity
        return Unitary(g[1], ref_gate(g))
    if k == "named":         # ("named", name, dimension, index): a structureless matrix under a telling name
        return Unitary(g[2], ref.generic_unitary(g[2], g[3]), g[1])
    return dict(rx=D.rx, ry=D.ry, rz=D.rz, r=D.rphi, xx=D.xx, h=D.h, t=D.t, x=D.sigmax, y=D.sigmay,
                z=D.sigmaz, cnot=D.cnot, ccnot=D.ccnot, gms=D.gms, i=Unitary.identity)[k](*g[1:])


def ref_gate(g):
    k = g[0]
    if k == "inv":
        return ref_gate(g[1]).conj().T
    if k == "gen":
        return ref.generic_unitary(g[1], g[2])
    if k == "near":
        return ref.expm_h(ref.generic_hermitian(g[1], g[2]), g[3])
    if k == "named":
        return ref.generic_unitary(g[2], g[3])
    f = dict(rx=ref.rx, ry=ref.ry, rz=ref.rz, r=ref.rphi, xx=ref.xx, h=lambda: ref.H, t=lambda: ref.T,
             x=lambda: ref.X, y=lambda: ref.Y, z=lambda: ref.Z, cnot=lambda: ref.CNOT,
             ccnot=lambda: ref.CCNOT, gms=ref.gms, i=lambda d: np.eye(d, dtype=complex))[k]
    return f(*g[1:])


def inv_label(g):
    return g[1] if g[0] == "inv" else ("inv", g)


def lib_entry(e):
    """e = (gate label, qubits)"""
    return UnitarySequenceEntry(lib_gate(e[0]), list(e[1]))


_full = {}


def ref_full(e, n):
    """reference full-system matrix of an entry label (memoised)"""
    k = (e, n)
    if k not in _full:
        _full[k] = ref.embed(ref_gate(e[0]), e[1], n)
    return _full[k]


def ref_product(entries, n):
    return ref.product([ref_full(e, n) for e in entries], 2 ** n)


def seq_matches(seq, entries, n, deep=True):
    """None, or what is wrong with seq against the list of entry labels (queries seq)."""
    dim = 2 ** n
    if seq.get_dimension() != dim:
        return f"dimension {seq.get_dimension()} instead of {dim}"
    if seq.get_length() != len(entries):
        return f"length {seq.get_length()} instead of {len(entries)}"
    got = seq.get_sequence_entries()
    if len(got) != len(entries):
        return f"{len(got)} entries reported instead of {len(entries)}"
    for i, (a, e) in enumerate(zip(got, entries)):
        if [int(q) for q in a.get_apply_to()] != list(e[1]):
            return f"entry {i} on qubits {list(a.get_apply_to())} instead of {list(e[1])}"
        if deep:
            d = ref.phase_diff(a.get_full_unitary(dim).get_matrix(), ref_full(e, n))
            if not d < 1e-7:
                return f"entry {i} is not {e} (off by {d:.2g})"
    d = ref.phase_diff(seq.product().get_matrix(), ref_product(entries, n))
    if not d < 1e-6:
        return f"product is not the ordered product of the entries (off by {d:.2g})"
    return None


def new_sequence(n, labels=(), how="list"):
    """Builds the sequence of the labels in one of several ways."""
    dim = 2 ** n
    es = [lib_entry(e) for e in labels]
    if how == "shared":          # equal labels are the same object
        m = {}
        es = [m.setdefault(e, x) for e, x in zip(labels, es)]
        how = "list"
    if how == "sharedarray":
        m = {}
        es = [m.setdefault(e, x) for e, x in zip(labels, es)]
        how = "array"
    if how == "sharedgate":      # different entries of one operation hold the same Unitary object
        m = {}
        es = [UnitarySequenceEntry(m[e[0]] if e[0] in m else m.setdefault(e[0], lib_gate(e[0])), list(e[1])) for e in labels]
        how = "list"
    if how == "list":
        return UnitarySequence(dim, es) if es else UnitarySequence(dim)
    if how == "array":
        a = np.empty(len(es), dtype=object)
        a[:] = es
        return UnitarySequence(dim, a)
    s = UnitarySequence(dim)
    if how == "append":
        for e in es:
            s.append_last(e)
    elif how == "appendcached":
        s.product()
        for e in es:
            s.append_last(e)
    elif how == "prepend":
        for e in reversed(es):
            s.append_first(e)
    else:
        raise KeyError(how)
    return s
