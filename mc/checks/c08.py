"""C08 distance and closeness: all ordered pairs of a menu of unitaries per dimension, all forms, all thresholds, all queries in sequence."""
import itertools
import math

import numpy as np

from mc import ref
from stoqcompiler.unitary import Unitary, UnitaryDefinitions as D

TOL = 1e-9
BOUND = {"quick": "dimensions 1-8, 16, 32, 64 and (fewer unitaries) 128: all ordered pairs of 10-26 unitaries (named gates, complex and zero overlaps, nearly equal ones down to 1e-7, global phases), "
                  "second operand as object, matrix, phased matrix; 40 thresholds per pair including none, 0, 1 and both sides of the overlap; common left and right "
                  "multiplication by 3 unitaries; all ordered pairs of queries on one object",
         "thorough": "as quick with 60 phases, 400 thresholds per pair and common multiplication by every unitary of the menu"}
DIMS = (1, 2, 3, 4, 5, 6, 7, 8, 16, 32, 64, 128)
FEW = ("1", "shift", "fourier", "oneminus", "gen", "gen2", "gen-conjugate", "gen~0.01", "gen~1e-05", "gen~1e-07")       # above 64


def tasks(tier):
    big = tier == "thorough"
    t = []
    for d in DIMS:
        parts = 1 if d < 4 else 2 if d < 16 else 3
        parts *= 4 if big else 1
        t += [("pairs", dict(d=d, part=p, parts=parts, grid=360 if big and d < 33 else 24, commons=100 if big else 3)) for p in range(parts)]
        t.append(("phases", dict(d=d, count=60 if big else 12)))
    t += [("queries", dict(d=d)) for d in (2, 3, 4, 8, 64)]
    t.sort(key=lambda x: -x[1]["d"])
    return t


def menu(d):
    w = np.exp(2j * math.pi / d)
    m = {"1": np.eye(d, dtype=complex), "-1": -np.eye(d, dtype=complex), "i": 1j * np.eye(d),
         "shift": np.roll(np.eye(d, dtype=complex), 1, axis=0), "clock": np.diag(w ** np.arange(d)),
         "fourier": w ** np.outer(np.arange(d), np.arange(d)) / math.sqrt(d),
         "onephase": np.diag([1j] + [1] * (d - 1)), "oneminus": np.diag([-1 + 0j] + [1] * (d - 1)),
         "reverse": np.eye(d, dtype=complex)[::-1].copy()}
    g = ref.generic_unitary(d, 1) if d > 1 else np.array([[np.exp(0.7j)]])
    h = ref.generic_hermitian(d, 2)
    m["gen"] = g
    m["gen2"] = ref.generic_unitary(d, 4) if d > 1 else np.array([[np.exp(-2.2j)]])
    m["gen-inverse"] = g.conj().T
    m["gen-conjugate"] = g.conj()
    m["gen-transpose"] = g.T.copy()
    for e in (1e-1, 1e-2, 1e-3, 1e-5, 1e-7):
        m[f"gen~{e}"] = g @ ref.expm_h(h, e)
    # nearly, but not, orthogonal to the identity: overlaps down to 1e-8
    for e in (0.05, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8):
        m[f"clock~{e}"] = np.diag(w ** np.arange(d) * np.exp(1j * e * np.arange(d)))
    if d == 2:
        m.update(rx=ref.rx(0.3), ry=ref.ry(2.9), rz=ref.rz(-1.1), h=ref.H, t=ref.T, x=ref.X, y=ref.Y)
    if d == 4:
        m.update(cnot=ref.CNOT, xx=ref.xx(0.4), swap=np.eye(4)[[0, 2, 1, 3]].astype(complex), xr=np.kron(ref.X, ref.rz(0.5)))
    if d == 8:
        m.update(ccnot=ref.CCNOT, gms=ref.gms(3, 0.6))
    return m


def thresholds(overlap, grid):
    out = [None, 0.0, 1.0, 0, 1, 0.5, 0.25, 0.75, 0.9, 0.99, 0.999, 1 - 1e-5]
    out += [overlap + s * e for e in (1e-6, 1e-4, 1e-2, 0.1) for s in (1, -1)]
    out += [(k + 0.5) / grid for k in range(grid)]
    out += [np.float64(0.5), np.float64(1.0), np.float64(0.0)]
    return [t for t in out if t is None or 0 <= t <= 1]


def want_close(overlap, t):
    """True, False, or None where the overlap is within tolerance of the threshold; equal operators must be close at 1, all are at 0"""
    t = 1.0 if t is None else float(t)
    if t == 0 or overlap > 1 - 1e-12:
        return True
    if abs(overlap - t) < 9e-7:
        return None
    return overlap > t


def pairs(task, d, part, parts, grid, commons):
    m = menu(d)
    if d > 64:
        m = {k: v for k, v in m.items() if k in FEW}
    us = {k: Unitary(d, v.copy()) for k, v in m.items()}
    frozen = {k: u.get_matrix().copy() for k, u in us.items()}
    names = list(m)
    cs = (["gen2", "fourier", "onephase"] + [n for n in names if n not in ("gen2", "fourier", "onephase")])[:commons if d < 65 else 1]
    cs = [c for c in cs if c in m]
    for j, (a, b) in enumerate(itertools.product(names, names)):
        if j % parts != part:
            continue
        o = abs(np.vdot(m[a], m[b])) / d
        forms = {"object": us[b], "matrix": m[b], "phased matrix": np.exp(0.9j) * m[b], "phased object": Unitary(d, np.exp(-2.3j) * m[b], "Q", {"a": (1.0, True)}, True, []),
                 "fortran": np.asfortranarray(m[b])}
        for f, x in forms.items():
            got = us[a].distance_from(x)
            task.transitions += 1
            if not (abs(float(got) - (1 - o)) < TOL and -TOL <= got <= 1 + TOL):
                task.violation(f"dimension {d}: distance of {a} from {b} ({f}) is {float(got):.12g}, overlap {o:.12g}", case=dict(d=d, a=a, b=b, form=f))
            for t in thresholds(o, grid) if f in ("object", "matrix") else (None, 1.0, 0.0, 0.5, 0.999):
                w = want_close(o, t)
                c = bool(us[a].close_to(x) if t is None and f == "object" else us[a].close_to(x, t))
                task.transitions += 1
                if w is not None and c != w:
                    task.violation(f"dimension {d}: {a} and {b} ({f}) with overlap {o:.9g} are {'' if c else 'not '}close at threshold {t}", case=dict(d=d, a=a, b=b, form=f, threshold=t))
                task.outcome((d, a, b, f, t))
            if bool(us[a].close_to(x, None)) != bool(us[a].close_to(x, 1.0)) or bool(us[a].close_to(x, threshold=None)) != bool(us[a].close_to(x)):
                task.violation(f"dimension {d}: no threshold differs from threshold 1 for {a}, {b}", case=dict(d=d, a=a, b=b, form=f))
        s = us[b].distance_from(us[a])
        if not abs(s - us[a].distance_from(us[b])) < TOL:
            task.violation(f"dimension {d}: distance of {a} and {b} is not symmetric", case=dict(d=d, a=a, b=b))
        for c in cs:
            for what, x, y in (("left", us[a].left_multiply(us[c]), us[b].left_multiply(us[c])), ("right", us[a].right_multiply(us[c]), us[b].right_multiply(us[c]))):
                got = x.distance_from(y)
                task.transitions += 1
                if not abs(got - (1 - o)) < TOL:
                    task.violation(f"dimension {d}: distance of {a} and {b} changes under common {what} multiplication by {c}", case=dict(d=d, a=a, b=b, c=c, side=what))
        task.traces += 1
    for k, u in us.items():
        if not np.array_equal(u.get_matrix(), frozen[k]):
            task.violation(f"asking for distances changed operator {k}", case=dict(d=d, a=k))
    task.states += len(us)


def phases(task, d, count):
    """an operator and itself up to any phase: distance 0, close at every threshold"""
    for name in ("1", "gen", "fourier", "shift", "onephase"):
        m = menu(d)[name]
        u = Unitary(d, m)
        for k in range(count):
            v = np.exp(2j * math.pi * (k + (k % 3) * 1e-9) / count) * m
            for x in (v, Unitary(d, v)):
                dist = u.distance_from(x)
                if not abs(dist) < TOL:
                    task.violation(f"dimension {d}: {name} is at distance {dist:.3g} from itself up to phase {k}/{count}", case=dict(d=d, a=name, k=k))
                for t in [None] + [i / 64 for i in range(65)] + [1 - 1e-9, 1 - 1e-15, 1e-300, 1 - 2 ** -53]:
                    task.transitions += 1
                    if not u.close_to(x, t):
                        task.violation(f"dimension {d}: {name} is not close to itself (phase {k}/{count}) at threshold {t}", case=dict(d=d, a=name, k=k, threshold=t))
            task.outcome((d, name, k))
            task.traces += 1
    task.states += 5


def queries(task, d):
    """all ordered pairs of queries on one object: the second answers as if asked alone"""
    m = menu(d)
    names = ["1", "gen", "gen~0.01", "shift", "onephase", "gen-inverse"]
    qs = [("d", b) for b in names] + [("c", b, t) for b in names for t in (None, 0.0, 0.7, 0.9999, 1.0)]

    def ask(u, q):
        x = Unitary(d, m[q[1]])
        return u.distance_from(x) if q[0] == "d" else bool(u.close_to(x, q[2]))
    for a in names:
        alone = [ask(Unitary(d, m[a]), q) for q in qs]
        u = Unitary(d, m[a])
        for i, j in itertools.product(range(len(qs)), repeat=2):
            for k in (i, j):
                got = ask(u, qs[k])
                task.transitions += 1
                if got != alone[k] if qs[k][0] == "c" else not abs(got - alone[k]) < TOL:
                    task.violation(f"dimension {d}: {qs[k]} on {a} after {qs[i]} answers {got} instead of {alone[k]}", case=dict(d=d, a=a, first=qs[i], then=qs[j]))
            task.traces += 1
    task.states += len(names)
