"""C09 named gates: every gate on a lattice of angles against its defining formula, fixed and parameterized forms, names and values."""
import itertools
import math

import numpy as np

from mc import ref
from stoqcompiler.unitary import ParameterizedUnitaryDefinitions as P, UnitaryDefinitions as D

TOL = 1e-9
PI = math.pi
BOUND = {"quick": "one-angle gates: all multiples of pi/24 in [-6 pi, 6 pi], 60 generic, tiny and large angles and 4 number types; two-angle gates: all pairs on a pi/12 lattice over "
                  "[-4 pi, 4 pi]; three-angle rotation: all triples on a pi/6 lattice of its range; GMS on 1-6 qubits x 40 angles; time evolution: 60 Hermitian matrices of "
                  "dimension 1-16 x 24 times; all ordered pairs of 16 gate constructors (the second is unaffected by the first)",
         "thorough": "lattices of pi/180 (one angle), pi/36 (pairs), pi/12 (triples); GMS on 1-8 qubits; 200 Hermitian matrices x 80 times"}


def tasks(tier):
    big = tier == "thorough"
    t = [("one", dict(gate=g, steps=180 if big else 24)) for g in ("rx", "ry", "rz", "xx", "pxx", "t")]
    t += [("two", dict(gate=g, steps=36 if big else 12, part=p, parts=4)) for g in ("rphi", "rxy") for p in range(4)]
    t += [("three", dict(steps=12 if big else 6, part=p, parts=4)) for p in range(4)]
    t += [("gms", dict(n=n, steps=80 if big else 20)) for n in range(1, 9 if big else 7)]
    t += [("evolution", dict(d=d, count=24 if big else 8, times=80 if big else 24)) for d in (1, 2, 3, 4, 5, 6, 7, 8, 16)]
    t += [("fixed", {}), ("pairs", {})]
    return t


EXTRA = [s * x for x in (1e-3, 1e-6, 1e-9, 1e-11, 1e-13, 1.0, 2.0, 3.0, 10.0, 100.0, 1234.5678, math.sqrt(2), math.e, 0.1234567890123, PI + 1e-9, 2 * PI - 1e-9,
                       2 * PI + 1e-9, 4 * PI + 1e-7, math.nextafter(PI, 0), math.nextafter(2 * PI, 9), 1e5 + 0.1) for s in (1, -1)]


def lattice(steps, turns=3):
    return [k * PI / steps for k in range(-2 * turns * steps, 2 * turns * steps + 1)]


def numbers(x):
    out = [x, np.float64(x)]
    if x == int(x):
        out += [int(x), np.int64(x)]
    return out


def judge(task, what, u, want, name, values, tol=TOL):
    """u is the operation `want`, called `name`, with the parameter values {key: (value, is_angle)}"""
    task.transitions += 1
    case = dict(gate=what)
    d = ref.phase_diff(u.get_matrix(), want)
    if not d < tol:
        task.violation(f"{what} is not its defining operation (off by {d:.3g})", case=case)
    if u.get_dimension() != want.shape[0]:
        task.violation(f"{what} has dimension {u.get_dimension()}", case=case)
    if u.get_operation_name() != name:
        task.violation(f"{what} is called {u.get_operation_name()!r}", case=case)
    for k, (v, angle) in values.items():
        got = u.get_parameter_value(k)
        if got is None or got[0] != v or bool(got[1]) != angle:
            task.violation(f"{what} carries {got} as {k} instead of {(v, angle)}", case=case)
    if u.get_parameter_value("no such parameter") is not None:
        task.violation(f"{what} has a value for an unknown parameter", case=case)
    task.outcome(what)


def one(task, gate, steps):
    if gate == "t":      # inverse and doubling through the angle, once per lattice point
        for x in lattice(steps):
            for g, r in ((D.rx, ref.rx), (D.ry, ref.ry), (D.rz, ref.rz), (D.xx, ref.xx)):
                task.transitions += 1
                if not ref.same(g(x).left_multiply(g(-x)).get_matrix(), np.eye(r(x).shape[0]), TOL) or not ref.same(g(x).left_multiply(g(x)).get_matrix(), r(2 * x), TOL):
                    task.violation(f"{g.__name__}({x}) does not compose with its inverse or itself", case=dict(gate=g.__name__, angle=x))
        task.states += 1
        return
    f = dict(rx=D.rx, ry=D.ry, rz=D.rz, xx=D.xx)
    r = dict(rx=ref.rx, ry=ref.ry, rz=ref.rz, xx=ref.xx, pxx=ref.xx)[gate]
    name = dict(rx="Rx", ry="Ry", rz="Rz", xx="XX", pxx="XX")[gate]
    p = P.xx()
    for x in lattice(steps) + EXTRA + list(range(-9, 10)):
        if gate == "pxx":
            if not 0 <= x <= 2 * PI:
                continue
            for v in numbers(x):
                judge(task, f"parameterized XX({v})", p.as_unitary([v]), r(x), name, {"theta": (v, True)})
            judge(task, f"parameterized XX({v}) of an array", p.as_unitary(np.array([x])), r(x), name, {"theta": (x, True)})
            if not ref.same(p.as_unitary([x]).get_matrix(), D.xx(x).get_matrix(), TOL):
                task.violation(f"parameterized and fixed XX differ at {x}", case=dict(angle=x))
        else:
            for v in numbers(x):
                judge(task, f"{name}({v})", f[gate](v), r(x), name, {"θ": (v, True)})
        task.traces += 1
    task.states += 1


def two(task, gate, steps, part, parts):
    p = P.rotation_xy()
    xs = lattice(steps, 2) + EXTRA if gate == "rphi" else [x for x in lattice(2 * steps, 1) + EXTRA if 0 <= x <= 2 * PI]
    for j, (a, b) in enumerate(itertools.product(xs, xs)):
        if j % parts != part:
            continue
        if gate == "rphi":
            judge(task, f"R({a}, {b})", D.rphi(a, b), ref.rphi(a, b), "R", {"θ": (a, True), "Φ": (b, True)})
        else:
            judge(task, f"Rxy({a}, {b})", p.as_unitary([a, b]), ref.rphi(a, b), "Rxy", {"theta": (a, True), "phi": (b, True)})
        task.traces += 1
    task.states += 1


def three(task, steps, part, parts):
    p = P.rotation_xyz()
    xs = [x for x in lattice(steps, 1) + [0.1, 1e-9, 5.3, 2 * PI - 1e-9] if 0 <= x <= 2 * PI]
    for j, (a, b, c) in enumerate(itertools.product(xs, repeat=3)):
        if j % parts != part:
            continue
        judge(task, f"Rxyz({a}, {b}, {c})", p.as_unitary([a, b, c]), ref.rxyz(a, b, c), "Rxyz", {"alpha": (a, True), "beta": (b, True), "gamma": (c, True)})
        task.traces += 1
    task.states += 1


def gms(task, n, steps):
    p = P.gms(n)
    xs = [x for x in lattice(steps if n < 6 else 4, 1)] + [0.1, -0.7, 20.3, 1e-9]
    for x in xs if n < 7 else xs[::5]:
        want = ref.gms(n, x)
        judge(task, f"GMS{n}({x})", D.gms(n, x), want, f"GMS{n}", {"θ": (x, True)})
        if 0 <= x <= 2 * PI:
            judge(task, f"parameterized GMS{n}({x})", p.as_unitary([x]), want, f"GMS{n}", {"theta": (x, True)})
        task.traces += 1
    judge(task, f"GMS{n} of the default angle", D.gms(n), ref.gms(n, PI / 4), f"GMS{n}", {"θ": (PI / 4, True)})
    task.states += 1


def hermitians(d, count):
    out = [("0", np.zeros((d, d))), ("1", np.eye(d)), ("diagonal", np.diag(np.arange(d) - 1.5)), ("integers", np.diag(np.arange(d))),
           ("hopping", np.diag(np.ones(d - 1), 1) + np.diag(np.ones(d - 1), -1)), ("imaginary", 1j * np.diag(np.ones(d - 1), 1) - 1j * np.diag(np.ones(d - 1), -1)),
           ("tiny", 1e-5 * ref.generic_hermitian(d, 1)), ("large", 30 * ref.generic_hermitian(d, 2))]
    out += [(f"generic{k}", ref.generic_hermitian(d, k)) for k in range(count)]
    out += [(f"projector{k}", np.outer(v, v.conj())) for k, v in ((k, ref.generic_unitary(d, k)[0] if d > 1 else np.array([1.0])) for k in (1, 2))]
    return out


def evolution(task, d, count, times):
    ts = sorted({0.0, 1.0, -1.0, 0.5, 1e-6, -1e-6, 2 * PI, 7.0, -7.0, 100.0} | {round(-3 + 6 * k / times, 6) for k in range(times)})
    for name, h in hermitians(d, count):
        frozen = h.copy()
        for sfx in ("", "3", "ab"):
            p = P.time_evolution(h, -100.0, 100.0, sfx)
            for t in ts if sfx == "" else ts[::5]:
                want = ref.expm_h(h, t)
                tol = 1e-8 if name == "large" else TOL
                judge(task, f"evolution under {name} of dimension {d} for {t} ({sfx!r})", D.time_evolution(h, t, sfx), want, "H" + sfx, {"t": (t, False)}, tol)
                judge(task, f"parameterized evolution under {name} of dimension {d} for {t} ({sfx!r})", p.as_unitary([t]), want, "H" + sfx, {"t": (t, False)}, tol)
                task.traces += 1
        judge(task, f"evolution under {name} of dimension {d}, no suffix", D.time_evolution(h, 0.3), ref.expm_h(h, 0.3), "H", {"t": (0.3, False)}, 1e-8)
        if not np.array_equal(h, frozen):
            task.violation(f"the Hamiltonian {name} of dimension {d} was changed", case=dict(h=name, d=d))
        task.states += 1


def qecc():
    """encode, phase flip, decode: measured from its matrix of +-1 in the documentation"""
    s = np.array([[1, 1, 1, 1, 1, 1, 1, 1], [1, -1, -1, 1, -1, 1, 1, -1], [1, 1, -1, -1, 1, 1, -1, -1], [1, -1, 1, -1, -1, 1, -1, 1],
                  [1, 1, 1, 1, -1, -1, -1, -1], [1, -1, -1, 1, 1, -1, -1, 1], [1, -1, 1, -1, 1, -1, 1, -1], [1, 1, -1, -1, -1, -1, 1, 1]])
    return s / math.sqrt(8) + 0j


FIXED = [("H", D.h, ref.H), ("T", D.t, ref.T), ("X", D.sigmax, ref.X), ("Y", D.sigmay, ref.Y), ("Z", D.sigmaz, ref.Z), ("CNOT", D.cnot, ref.CNOT),
         ("CCNOT", D.ccnot, ref.CCNOT), ("QECC", D.qecc_phase_flip, qecc())]


def fixed(task):
    for name, f, want in FIXED:
        for k in range(3):
            u = f()
            judge(task, name, u, want, name, {})
            if u.get_display_name() != name:
                task.violation(f"{name} is displayed as {u.get_display_name()!r}", case=dict(gate=name))
        task.traces += 1
    judge(task, "XX of the default angle", D.xx(), ref.xx(PI / 4), "XX", {"θ": (PI / 4, True)})
    for f, ns in ((P.rotation_xy, ("theta", "phi")), (P.rotation_xyz, ("alpha", "beta", "gamma")), (P.xx, ("theta",)), (lambda: P.gms(3), ("theta",))):
        p = f()
        if tuple(x.get_parameter_name() for x in p.get_parameters()) != ns or not all(x.get_is_angle() for x in p.get_parameters()):
            task.violation(f"{p.get_operation_name()} has other parameters than {ns}", case=dict(gate=p.get_operation_name()))
        for x in p.get_parameters():
            for v, ok in ((0.0, True), (2 * PI, True), (PI, True), (-1e-9, False), (2 * PI + 1e-9, False)):
                task.transitions += 1
                if bool(x.is_valid(v)) != ok:
                    task.violation(f"{p.get_operation_name()} {x.get_parameter_name()} {'refuses' if ok else 'accepts'} {v}", case=dict(gate=p.get_operation_name(), value=v))
    for lo, hi in ((0.0, 1.0), (-2.0, 3.0), (0.5, 0.5), (-3.0, -1.0)):
        x, = P.time_evolution(ref.Z, lo, hi, "z").get_parameters()
        for v, ok in ((lo, True), (hi, True), (lo - 1e-9, False), (hi + 1e-9, False), ((lo + hi) / 2, True)):
            task.transitions += 1
            if bool(x.is_valid(v)) != ok or x.get_is_angle() or x.get_parameter_name() != "t":
                task.violation(f"evolution time in [{lo}, {hi}] {'refuses' if ok else 'accepts'} {v}, or is not called t", case=dict(lo=lo, hi=hi, value=v))
    task.states += 1


def pairs(task):
    """all ordered pairs of constructor calls: the second gate is unaffected by the first, and the first by the second"""
    h2 = ref.generic_hermitian(2, 1)
    calls = [("rx", lambda: D.rx(0.3), ref.rx(0.3)), ("rx'", lambda: D.rx(-2.0), ref.rx(-2.0)), ("rphi", lambda: D.rphi(0.3, 1.0), ref.rphi(0.3, 1.0)),
             ("rphi'", lambda: D.rphi(1.0, 0.3), ref.rphi(1.0, 0.3)), ("xx", lambda: D.xx(0.3), ref.xx(0.3)), ("xx'", lambda: D.xx(), ref.xx(PI / 4)),
             ("gms3", lambda: D.gms(3, 0.3), ref.gms(3, 0.3)), ("gms3'", lambda: D.gms(3), ref.gms(3, PI / 4)), ("gms4", lambda: D.gms(4, 0.3), ref.gms(4, 0.3)),
             ("ev", lambda: D.time_evolution(h2, 0.5, "a"), ref.expm_h(h2, 0.5)), ("ev'", lambda: D.time_evolution(ref.Z, 0.5, "a"), ref.expm_h(ref.Z, 0.5)),
             ("pev", lambda: P.time_evolution(h2, 0, 1, "a").as_unitary([0.5]), ref.expm_h(h2, 0.5)),
             ("pev'", lambda: P.time_evolution(h2, 0, 1, "a").as_unitary([0.25]), ref.expm_h(h2, 0.25)),
             ("pxx", lambda: P.xx().as_unitary([0.7]), ref.xx(0.7)), ("pgms", lambda: P.gms(3).as_unitary([0.7]), ref.gms(3, 0.7)),
             ("pxyz", lambda: P.rotation_xyz().as_unitary([0.1, 0.2, 0.3]), ref.rxyz(0.1, 0.2, 0.3))]
    for (a, f, ra), (b, g, rb) in itertools.product(calls, calls):
        x, y = f(), g()
        x.inverse(), y.left_multiply(y), x.tensor(y)
        z = f()
        task.transitions += 3
        for w, u, r in ((a, x, ra), (b, y, rb), (a, z, ra)):
            if not ref.same(u.get_matrix(), r, TOL):
                task.violation(f"{w} is wrong when {a}, {b}, {a} are made in this order", case=dict(first=a, second=b))
        task.traces += 1
        task.outcome((a, b))
    for t in (P.gms(3), P.xx(), P.rotation_xy()):
        k = len(t.get_parameters())
        vals = [[0.1] * k, [0.2] * k, [5.0] * k]
        for v, w in itertools.product(vals, vals):
            u = t.as_unitary(v)
            m = u.get_matrix().copy()
            t.as_unitary(w)
            task.transitions += 1
            if not np.array_equal(u.get_matrix(), m) or not np.array_equal(t.as_unitary(v).get_matrix(), m):
                task.violation(f"{t.get_operation_name()} at {v} changes when it is fixed at {w}", case=dict(gate=t.get_operation_name(), first=v, second=w))
    task.states += 1
