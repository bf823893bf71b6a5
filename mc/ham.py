"""Hamiltonians: labels, library objects and reference matrices."""
import itertools

import numpy as np

from . import ref
from .comp import Bad, term_matrix
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm

X1, Z1, Y1 = ("X", 1.0), ("Z", 0.6), ("Y", -1.7)
G1, G1b = ("g", 1, 2, 0.8), ("g", 1, 5, -0.35)
XX2, ZI, IZ, G2 = ("XX", 1.0), ("ZI", 0.5), ("IZ", -0.25), ("g", 2, 3, 0.4)
YXZ, G3 = ("YXZ", 0.9), ("g", 3, 1, 0.2)
SETS = {
    "x": [X1], "g": [G1], "xz": [X1, Z1], "yg": [Y1, G1], "rep": [X1, X1], "rep2": [Z1, X1, Z1], "xyz": [X1, Y1, Z1],
    "neg": [Y1, G1b], "four": [X1, Y1, Z1, G1], "ising": [XX2, ZI, IZ], "two": [G2, XX2], "g2": [G2], "mix2": [IZ, G2, ZI],
    "three": [YXZ, G3], "three1": [G3], "cancel": [("Z", 1.5), ("Z", -0.5)], "tiny": [("X", 1e-3), ("Z", 1.0)],
    "big": [("X", 30.0), ("Z", 0.5)], "five": [X1, Z1, G1, Y1, G1b],
    "samec": [("X", 1.0), ("Z", 1.0), ("Y", 1.0), ("g", 1, 3, 1.0 / np.max(np.abs(np.linalg.eigvalsh(ref.generic_hermitian(2, 3)))))], "nearc": [("X", 0.5), ("Z", 0.500001), ("Y", 0.49999)],
    "close": [("g", 1, 1, 0.8), ("gp", 1, 1, 0.5, 3e-4, 2), ("gp", 1, 1, 0.8, -2e-4, 4)],
    "close2": [("gp", 2, 3, 0.4, 1e-4, 1), ("g", 2, 3, 0.4), ("gp", 2, 3, -0.4, 1e-4, 2)],
    "strong": [("Z", 5.0), ("X", 6.0)], "strong2": [("XX", 40.0), ("g", 2, 3, 25.0), ("ZI", -30.0)],
    "six": [X1, Z1, G1, Y1, G1b, ("Z", -0.3)],
    "eight": [("g", 1, k, 0.2 + 0.13 * (k % 5)) for k in range(8)],
    "twelve": [("g", 1, k, 0.2 + 0.13 * (k % 5)) for k in range(12)],
    "fourq": [("XXII", 1.0), ("IXXI", 0.7), ("IIZZ", -0.4), ("g", 4, 1, 0.1)], "fiveq": [("XIZIY", 0.8), ("IIXXI", 0.5), ("g", 5, 2, 0.05)],
    "chain5": [(("I" * i + "XX" + "I" * (3 - i)), 1.0) for i in range(4)] + [(("I" * i + "Z" + "I" * (4 - i)), 0.5) for i in range(5)],
}


def terms_of(name):
    return [tuple(t) for t in SETS[name]]


def qubits(terms):
    return int(np.log2(term_matrix(terms[0]).shape[0]) + 0.5)


def lib(terms, shared=False):
    if shared:
        m = {}
        return Hamiltonian([m.setdefault(t, HamiltonianTerm(term_matrix(t))) for t in terms])
    return Hamiltonian([HamiltonianTerm(term_matrix(t)) for t in terms])


def total(terms, subset=None):
    return sum(term_matrix(t) for i, t in enumerate(terms) if subset is None or i in subset)


def subsets(terms, simultaneous):
    n = len(terms)
    sizes = range(1, n + 1) if simultaneous else (1,)
    return [s for k in sizes for s in itertools.combinations(range(n), k)]


def full_entries(seq, n, product=True):
    """[(matrix, full unitary object)] after checking that all entries act on the full system"""
    if seq.get_dimension() != 2 ** n:
        raise Bad(f"sequence of dimension {seq.get_dimension()} for {n} qubits")
    es = seq.get_sequence_entries()
    if len(es) != seq.get_length():
        raise Bad("reported length and entries differ")
    out = []
    for e in es:
        if [int(q) for q in e.get_apply_to()] != list(range(n)):
            raise Bad(f"entry acts on {list(e.get_apply_to())}, not on the full system in order")
        f = e.get_full_unitary(2 ** n)
        out.append((f.get_matrix(), f))
    if not product:
        return out
    p = ref.product([m for m, _ in out], 2 ** n)
    d = ref.phase_diff(seq.product().get_matrix(), p)
    if not d < 1e-6:
        raise Bad(f"product of the sequence is not the product of its entries (off by {d:.2g})")
    return out
