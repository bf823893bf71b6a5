"""C19 Hamiltonian terms, time evolution and the ideal sequence."""
import itertools

import numpy as np

from mc import comp, ham, ref
from mc.comp import Bad, term_matrix
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm

POOL1 = [("X", 1.0), ("Z", 0.6), ("Y", -1.7), ("g", 1, 2, 0.8)]
POOL2 = [("XX", 1.0), ("IZ", -0.25), ("g", 2, 3, 0.4)]
TIMES = [0.0, 0.4, 1.0, -0.7, 3.3, -9.1, 1e-5, 25.0]
STEPS = [1, 2, 3, 7]
BOUND = {"quick": "all term lists of length <= 4 over 4 one-qubit, <= 3 over 3 two-qubit terms and 40 further sets up to 7 qubits and 33 terms (coefficients "
                  "of ratio 1e9, normalised terms equal to 1e-2 ... 1e-5), 8 times (all pairs composed); every number of steps 1-300 for 8 times; "
                  "170 single terms in 6 number types; times and steps of 8 number types",
         "thorough": "all term lists of length <= 5 over 4 one-qubit and <= 4 over 3 two-qubit terms and 40 further sets up to 7 qubits and 100 terms, 14 "
                     "times, every number of steps 1-1024"}


def tasks(tier):
    big = tier == "thorough"
    t = []
    times = TIMES + ([2.2, -2.2, 100.0, 0.05, 6.28, -40.0] if big else [])
    for k in range(1, 6 if big else 5):
        for first in range(4):
            t.append(("lists", dict(pool=1, length=k, first=first, times=times if k < 4 or big else times[:4])))
    for k in range(1, 5 if big else 4):
        for first in range(3):
            t.append(("lists", dict(pool=2, length=k, first=first, times=times)))
    for ts in ([("g", 1, 2, -0.8), ("Z", 0.6), ("pz", -0.5, 2.0)], [("pz", 0.5, -2.0)], [("g", 2, 3, -0.4), ("pz", 0.25, -0.75, -1.5, 0.5), ("XX", 1.0)]):
        t.append(("one", dict(terms=ts, times=times)))
    for big_one, small in ((1000.0, 0.05), (1.0, 1e-5), (30.0, 1e-4), (1.0, 1e-6), (1e-5, 1e-8), (200.0, -0.5)):
        for ts in ([("X", big_one), ("Z", small)], [("Z", small), ("X", big_one)], [("ZI", big_one), ("IX", small), ("XX", small)],
                   [("g", 2, 3, small), ("ZI", big_one), ("g", 2, 5, small)], [("X", small), ("X", big_one)]):
            t.append(("one", dict(terms=ts, times=times)))
    for extra in ("three", "three1", "four", "five", "cancel", "tiny", "big", "rep2"):
        t.append(("one", dict(terms=ham.terms_of(extra), times=times)))
    for extra in ("samec", "nearc", "close", "close2", "six", "twelve", "fourq", "fiveq", "chain5"):
        t.append(("one", dict(terms=ham.terms_of(extra), times=times)))
    for n in (1, 2, 3):
        for eps in (1e-2, 1e-3, 1e-4, 1e-5):
            t.append(("one", dict(terms=[("g", n, 3, 1.0), ("gp", n, 3, 0.7, eps, 2), ("gp", n, 3, -1.6, -eps, 5)], times=times)))
    for k in range(0, 8):
        t.append(("every_step", dict(counts=list(range(1 + k, 1025 if big else 301, 8)))))
    t.append(("numbers", {}))
    for n in (6, 7):
        t.append(("one", dict(terms=[("g", n, 1, 0.03), ("XZY" + "I" * (n - 3), 0.5), ("I" * (n - 1) + "Z", -1.0)], times=times[:4])))
    for n in (3, 4, 5):
        t.append(("one", dict(terms=[("g", n, k, 0.1 * (k + 1)) for k in range(n)], times=times[:4])))
    t.append(("terms", {}))
    t.append(("many", dict(counts=[1, 2, 7, 8, 9, 16, 33] + ([64, 100] if big else []))))
    t.append(("steps", dict(steps=list(range(1, 13)) + [33, 100] + ([400] if big else []))))
    return t


def evolution(task, terms, times, h=None):

    case = dict(terms=terms)
    task.case = case
    h = h or ham.lib(terms)
    n = ham.qubits(terms)
    tot = ham.total(terms)
    if h.get_dimension() != 2 ** n or h.get_qubit_count() != n:
        task.violation("dimension or number of qubits is wrong", case=case)
    ops = {}
    for t in times:
        u = h.get_time_evolution_operator(t)
        want = ref.expm_h(tot, t)
        d = ref.phase_diff(u.get_matrix(), want)
        if not d < 1e-7:
            task.violation(f"evolution for time {t} is not exp(iHt) (off by {d:.2g})", case=case)
        ops[t] = u
        task.transitions += 1
        task.outcome((tuple(terms), t))
    for s, t in itertools.combinations(times, 2):
        u = h.get_time_evolution_operator(s + t)
        d = ref.phase_diff((ops[s].get_matrix() @ ops[t].get_matrix()), u.get_matrix())
        if not d < 1e-6:
            task.violation(f"evolutions for {s} and {t} do not compose to the evolution for their sum (off by {d:.2g})", case=case)
        task.transitions += 1
    for t in times:
        d = ref.phase_diff(h.get_time_evolution_operator(-t).get_matrix(), ops[t].inverse().get_matrix())
        if not d < 1e-7:
            task.violation(f"evolution for {-t} is not the inverse of that for {t}", case=case)
    task.states += 1
    task.traces += 1
    return h


def ideal(task, h, terms, t, k):
    case = dict(terms=terms, time=t, steps=repr(k))
    task.case = case
    n = ham.qubits(terms)
    seq = h.get_ideal_sequence(t, k)
    es = ham.full_entries(seq, n)
    if len(es) != k:
        task.violation(f"ideal sequence of {len(es)} entries for {k} steps", case=case)
    want = ref.expm_h(ham.total(terms), t / k)
    for i, (m, f) in enumerate(es):
        d = ref.phase_diff(m, want)
        if not d < 1e-7:
            task.violation(f"entry {i} of the ideal sequence is not the evolution for time/steps (off by {d:.2g})", case=case)
    d = ref.phase_diff(seq.product().get_matrix(), ref.expm_h(ham.total(terms), t))
    if not d < 1e-6:
        task.violation(f"the ideal sequence is not the whole evolution (off by {d:.2g})", case=case)
    task.transitions += k
    task.traces += 1
    task.outcome((tuple(terms), t, k))


def lists(task, pool, length, first, times):
    p = POOL1 if pool == 1 else POOL2
    for rest in itertools.product(p, repeat=length - 1):
        terms = [p[first]] + list(rest)
        h = evolution(task, terms, times)
        for t in (0.9, -2.0):
            for k in STEPS if length < 4 else (3,):
                ideal(task, h, terms, t, k)
        d = ref.phase_diff(h.get_time_evolution_operator(0.9).get_matrix(), ref.expm_h(ham.total(terms), 0.9))
        if not d < 1e-7:
            task.violation("the evolution changed after ideal sequences were asked for", case=dict(terms=terms))
    task.sample(dict(terms=terms, times=times), 1)


def one(task, terms, times):
    terms = [tuple(x) for x in terms]
    h = evolution(task, terms, times)
    for t in (1.1, -0.3, 0.0):
        for k in STEPS:
            ideal(task, h, terms, t, k)
    if len(set(terms)) < len(terms):      # one term object used several times
        evolution(task, terms, times, ham.lib(terms, shared=True))


def many(task, counts):
    """many terms: the sum is over all of them"""
    for k in counts:
        terms = [("g", 1, i % 11, 0.05 * (1 + i % 5)) for i in range(k)]
        h = evolution(task, terms, [0.3, -1.2])
        ideal(task, h, terms, 0.5, 2)


def steps(task, steps):
    for terms in ([("X", 1.0), ("Z", 0.6)], [("XX", 1.0), ("IZ", -0.25), ("g", 2, 3, 0.4)]):
        h = ham.lib(terms)
        for k in steps:
            for t in (0.8, -1.3):
                ideal(task, h, terms, t, k)
    task.states += len(steps)


def every_step(task, counts):
    """all numbers of steps: neither lost nor repeated through rounding"""
    for terms in ([("X", 1.0), ("Z", 0.6)],):
        h = ham.lib(terms)
        for k in counts:
            for t in (0.8, 1.0, 0.1, 3.0, -1.3, 7.7, 1e-3, 100.0):
                seq = h.get_ideal_sequence(t, k)
                n, d = seq.get_length(), ref.phase_diff(seq.product().get_matrix(), ref.expm_h(ham.total(terms), t))
                task.traces += 1
                task.transitions += k
                if n != k or not d < 1e-6:
                    task.violation(f"{n} entries for {k} steps, product off by {d:.2g}", case=dict(time=t, steps=k))
            if k % 16 == counts[0] % 16:
                ideal(task, h, terms, 1.7, k)
    task.states += len(counts)


def numbers(task):
    """times and step counts of any number type"""
    for name in ("xz", "ising"):
        terms = ham.terms_of(name)
        for t in (1, -2, 0, 7, np.float64(0.9), np.float32(0.5), np.int64(3), np.int32(-1), True):
            h = ham.lib(terms)
            u = h.get_time_evolution_operator(t).get_matrix()
            task.case = dict(name=name, time=repr(t))
            task.traces += 1
            if not ref.phase_diff(u, ref.expm_h(ham.total(terms), float(t))) < 1e-7:
                task.violation("evolution for a time of another number type is wrong", case=task.case)
            for k in (1, 3, np.int64(3), np.int8(5)):
                ideal(task, h, terms, t, k)
    task.states += 18


def terms(task):
    """coefficient and normalised matrix of single terms, whatever the number type"""
    mats = [term_matrix(x) for x in (("X", 1.0), ("X", -1.0), ("Y", 2.5), ("Z", 1e-6), ("Z", 1e6), ("g", 1, 2, 0.8), ("g", 1, 3, -7.0),
                                     ("I", 3.0), ("I", -3.0), ("XX", 0.5), ("IZ", -0.25), ("g", 2, 3, 0.4), ("ZIY", 1.5), ("g", 3, 2, 0.7),
                                     ("g", 4, 1, 1.0))]
    mats += [np.diag([1.0, 0.0]), np.diag([0.0, -2.0]), np.diag([1.0, 1.0, 1.0, -1.0]), np.array([[2.0]]), np.diag([0.0, 0, 3, 0]),
             np.array([[1, 1j], [-1j, 1]]), np.diag([5.0, 4.0, 3.0, 2.0]), np.diag([0.5, -2.0]), np.diag([2.0, -0.5]), np.diag([-3.0, -1.0]), np.diag([1.0, -4.0, 2.0, -3.0]),
             np.array([[-1, 2j], [-2j, -1]]), np.array([[0, 1], [1, -3]])]
    mats += [s * ref.generic_hermitian(d, k) for d in (2, 4, 8) for k in (1, 4) for s in (1.0, -1.0)]
    mats += [ref.generic_hermitian(4, 2) + c * np.eye(4) for c in (3.0, -3.0, 0.3, -0.3)]
    for i, m in enumerate(mats):
        forms = [m, m.copy(order="F"), m.astype(np.complex64)]
        if np.isrealobj(m) or not np.any(m.imag):
            forms += [m.real.copy(), m.real.astype(np.float32)]
            if np.all(m.real == np.round(m.real)):
                forms.append(m.real.astype(int))
        for a in forms:
            case = dict(matrix=i, dtype=str(a.dtype))
            task.case = case
            before = a.copy()
            t = HamiltonianTerm(a)
            c, nm = t.get_coefficient(), t.get_normalized_matrix()
            want = np.max(np.abs(np.linalg.eigvalsh(m)))
            tol = 1e-6 if a.dtype in (np.complex64, np.float32) else 1e-9
            ok = (np.isrealobj(np.asarray(c)) and float(c) > 0 and abs(float(c) - want) <= tol * want
                  and abs(np.linalg.norm(nm, 2) - 1) < 1e-9 and np.allclose(nm * float(c), m, rtol=tol, atol=tol * want)
                  and np.allclose(t.get_matrix(), m, rtol=tol, atol=tol * want) and np.allclose(nm, nm.conj().T)
                  and t.get_dimension() == m.shape[0])
            task.traces += 1
            task.transitions += 1
            task.outcome((i, str(a.dtype)))
            if not ok:
                task.violation("coefficient times normalised matrix is not the given matrix, or not normalised", case=case)
            if not np.array_equal(a, before):
                task.violation("the matrix passed in was changed", case=case)
    task.states += len(mats)
