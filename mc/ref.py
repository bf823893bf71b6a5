"""Reference semantics in plain numpy, independent of the package under test."""
import itertools
import math

import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)


def involution_exp(a, p):
    """exp(-i a P) for P*P = 1"""
    return math.cos(a) * np.eye(p.shape[0]) - 1j * math.sin(a) * p


def rx(t):
    return involution_exp(t / 2, X)


def ry(t):
    return involution_exp(t / 2, Y)


def rz(t):
    return involution_exp(t / 2, Z)


def rphi(t, phi):
    return involution_exp(t / 2, math.cos(phi) * X + math.sin(phi) * Y)


def xx(t):
    return involution_exp(t, np.kron(X, X))


def rxyz(alpha, beta, gamma):
    return rz(alpha) @ ry(beta) @ rz(gamma)


def gms(n, t):
    u = np.eye(2 ** n, dtype=complex)
    for i in range(n):
        for j in range(i + 1, n):
            ops = [I2] * n
            ops[i] = ops[j] = X
            p = ops[0]
            for o in ops[1:]:
                p = np.kron(p, o)
            u = involution_exp(t, p) @ u
    return u


def controlled_x(n):
    u = np.eye(2 ** n, dtype=complex)
    u[-2:, -2:] = X
    return u


H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
T = np.diag([1, np.exp(1j * np.pi / 4)])
S = np.diag([1, 1j]).astype(complex)
CNOT = controlled_x(2)
CCNOT = controlled_x(3)


def expm_h(h, t):
    """exp(i h t) by eigen-decomposition of the Hermitian matrix h"""
    h = np.asarray(h, dtype=complex)
    w, v = np.linalg.eigh((h + h.conj().T) / 2)
    return (v * np.exp(1j * w * t)) @ v.conj().T


def embed(u, qubits, n):
    """u on the listed qubits of n (qubit 0 most significant), identity elsewhere - bit by bit."""
    k = len(qubits)
    dim = 2 ** n
    idx = np.arange(dim)
    sub = np.zeros(dim, dtype=int)
    mask = 0
    for j, q in enumerate(qubits):
        sub |= ((idx >> (n - 1 - q)) & 1) << (k - 1 - j)
        mask |= 1 << (n - 1 - q)
    rest = idx & ~mask
    same = rest[:, None] == rest[None, :]
    return np.where(same, np.asarray(u)[sub[:, None], sub[None, :]], 0)


def phase_diff(a, b):
    """max |a - e^{ip} b| minimised over the phase p (by aligning on the overlap); inf if not comparable"""
    a = np.asarray(a, dtype=complex)
    b = np.asarray(b, dtype=complex)
    if a.shape != b.shape or not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return float("inf")
    o = np.vdot(b, a)
    if abs(o) < 1e-9:
        return float("inf")
    return float(np.max(np.abs(a - (o / abs(o)) * b)))


def same(a, b, tol=1e-7):
    return phase_diff(a, b) <= tol


def distance(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return 1.0 - abs(np.trace(a.conj().T @ b)) / a.shape[0]


def generic_unitary(d, k=0):
    """A fixed, structureless d x d unitary; different k gives a different one."""
    n = np.arange(1, d * d + 1, dtype=float)
    m = (np.sin(n * (1.3 + 0.37 * k)) + 1j * np.cos(n * (0.71 + 0.53 * k) + 0.2 * k * k)).reshape(d, d)
    q, r = np.linalg.qr(m + 0.1 * np.eye(d))
    return q * (np.diag(r) / np.abs(np.diag(r)))


def generic_hermitian(d, k=0):
    n = np.arange(1, d * d + 1, dtype=float)
    m = (np.sin(n * (0.9 + 0.41 * k)) + 1j * np.cos(n * (1.7 + 0.29 * k))).reshape(d, d)
    return (m + m.conj().T) / 2


def words(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)


class SeqModel:
    """Reference sequence: a list and one undo record."""

    def __init__(self, entries=()):
        self.entries = list(entries)
        self.record = None

    def append(self, label, first, save):
        if save:
            self.record = list(self.entries)
        if first:
            self.entries.insert(0, label)
        else:
            self.entries.append(label)

    def remove(self, first, save):
        if not self.entries:
            return
        if save:
            self.record = list(self.entries)
        self.entries.pop(0 if first else -1)

    def undo(self):
        """False when there is nothing recorded."""
        if self.record is None:
            return False
        self.entries, self.record = self.record, None
        return True

    def key(self):
        return (tuple(self.entries), None if self.record is None else tuple(self.record))


def product(mats, dim):
    u = np.eye(dim, dtype=complex)
    for m in mats:
        u = m @ u
    return u
