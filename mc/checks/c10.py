"""C10 parameterized operations: all value lists on the boundaries of the ranges, every value the random source can deliver."""
import itertools
import math

import numpy as np

from mc import ref, rng
from mc.choice import TOP, explore
from stoqcompiler.unitary import ParameterizedUnitary, ParameterizedUnitaryDefinitions as P, ParameterizedUnitaryParameter, Unitary, UnitaryPrimitive

PI = math.pi
BOUND = {"quick": "14 ranges (negative, crossing zero, single point, tiny, huge, integer): 9 values each, to one unit in the last place on both sides of both ends, infinities and NaN; "
                  "operations of 1-4 parameters x all combinations of 7-9 inside/outside values per parameter, as list and array; lists of every wrong length 0-6; operations of 5-13, 16, 20, 33 parameters: every value (and pair of values, up to 13) departing from the middle, every wrong length; every draw of a random value from a "
                  "menu of 257 values of the random source with both extremes; all pairs of draws on all pairs of ranges; all ordered pairs of value lists on one operation",
         "thorough": "as quick with 9 values per parameter in all combinations, a menu of 4097 values and all triples of draws"}

RANGES = [(0.0, 2 * PI), (0.0, 1.0), (-1.0, 1.0), (-3.5, -1.25), (0.0, 0.0), (2.5, 2.5), (-0.1, 0.3), (1e-300, 1e-299), (1e6, 1e6 + 1e-3), (-1e12, 1e12), (0, 5), (-2, 3), (1.0, math.nextafter(1.0, 2)), (-PI, PI)]


def tasks(tier):
    big = tier == "thorough"
    t = [("ranges", {}), ("uniform", dict(n=4096 if big else 256)), ("draws", dict(n=24 if big else 8, length=3 if big else 2))]
    for k in range(1, 5):
        parts = (1, 1, 2, 8)[k - 1]
        t += [("fix", dict(k=k, vals=(13 if k < 4 else 9) if big else 9 if k < 4 else 7, part=p, parts=parts)) for p in range(parts)]
    t += [("many", dict(k=k, pairs=k < 14 or big)) for k in (list(range(5, 14)) + [16, 20, 33] + ([64, 100] if big else []))]
    t += [("history", {}), ("accepted", dict(n=33 if big else 9)), ("lengths", {})]
    return t


def around(lo, hi):
    """(value, inside)"""
    out = [(lo, True), (hi, True), (lo + (hi - lo) / 2, True), (math.nextafter(lo, -math.inf), False), (math.nextafter(hi, math.inf), False)]
    if math.nextafter(lo, math.inf) <= hi:
        out += [(math.nextafter(lo, math.inf), True), (math.nextafter(hi, -math.inf), True)]
    out += [(lo - 1, lo - 1 >= lo), (hi + 1, hi + 1 <= hi), (math.inf, False), (-math.inf, False), (math.nan, False), (lo + (hi - lo) / 3, True), (1e300, False), (-1e300, False)]
    # float32 rounding of an inside value may fall outside: judged by its own value
    return [(v, lo <= v <= hi) for v, _ in out]


def accepted(task, n):
    """draw, fix, compare: every drawn list is accepted and recorded"""
    ops = [P.rotation_xy(), P.rotation_xyz(), P.xx(), P.gms(3), P.time_evolution(ref.generic_hermitian(2, 1), -1.5, 2.5, "a"), P.time_evolution(ref.Z, 0.3, 0.3)]
    cells = tuple((k / (n - 1) * TOP, 1 / n) for k in range(n))
    for op in ops:
        def run(path):
            with rng.controlled(path):
                vals = [p.random_value() for p in op.get_parameters()]
                vals = [float(v) for v in vals]
                return vals, op.as_unitary(vals)
        small = cells if len(op.get_parameters()) < 3 else cells[:: (len(cells) - 1) // 4]
        for path, (vals, u) in explore(run, cells=small):
            task.traces += 1
            task.transitions += len(path.points)
            for p, v in zip(op.get_parameters(), vals):
                got = u.get_parameter_value(p.get_parameter_name())
                if got is None or got[0] != v:
                    task.violation(f"{op.get_operation_name()} drawn at {vals} records {got}", case=dict(op=op.get_operation_name(), values=vals))
            task.outcome((op.get_operation_name(), tuple(vals)))
    task.states += len(ops)


def ranges(task):
    for lo, hi in RANGES:
        for angle in (True, False):
            p = ParameterizedUnitaryParameter("p", lo, hi, is_angle=angle)
            op = ParameterizedUnitary(2, lambda v: ref.rx(math.atan(v)), [p], "G")
            for v, ok in around(lo, hi):
                for form in (v, np.float64(v)) + ((int(v), np.int64(v)) if abs(v) < 1e15 and v == int(v) else ()):
                    task.transitions += 1
                    if bool(p.is_valid(form)) != ok:
                        task.violation(f"range [{lo!r}, {hi!r}] {'refuses' if ok else 'accepts'} {form!r}", case=dict(lo=lo, hi=hi, value=v))
                    for lst in ([form], np.array([form])):
                        try:
                            u = op.as_unitary(lst)
                        except Exception as e:
                            u = None
                        if (u is not None) != ok:
                            task.violation(f"fixing at {lst!r} in range [{lo!r}, {hi!r}] is {'refused' if ok else 'accepted'}", case=dict(lo=lo, hi=hi, value=v))
                        if u is not None:
                            got = u.get_parameter_value("p")
                            if got is None or got[0] != v or bool(got[1]) != angle:
                                task.violation(f"fixing at {v!r} records {got}", case=dict(lo=lo, hi=hi, value=v))
                task.outcome((lo, hi, v, angle))
            task.traces += 1
            if p.get_parameter_name() != "p" or bool(p.get_is_angle()) != angle:
                task.violation("a parameter does not report its name and angle flag")
        task.states += 1
    for lo, hi in ((1.0, 0.0), (0.0, math.nextafter(0.0, -1)), (2.5, -2.5)):
        try:
            ParameterizedUnitaryParameter("p", lo, hi, is_angle=True)
        except Exception:
            continue
        task.violation(f"the range [{lo!r}, {hi!r}] is accepted", case=dict(lo=lo, hi=hi))


def nmat(k):
    """a matrix depending on every one of k values, and on their order"""
    def f(*v):
        assert len(v) == k
        m = np.eye(2, dtype=complex)
        for i, x in enumerate(v):
            m = ref.rphi(0.3 + 0.21 * float(x) + 0.13 * i, 1.1 * i) @ m
        return m
    return f


def operation(k):
    rs = [(0.0, 2 * PI), (-1.0, 1.0), (2.5, 3.5), (-4.0, 0.0)][:k]
    return rs, ParameterizedUnitary(2, nmat(k), [ParameterizedUnitaryParameter(n, lo, hi, is_angle=i % 2 == 0) for i, (n, (lo, hi)) in enumerate(zip("abcd", rs))], f"F{k}")


def attempt(op, vals):
    try:
        return op.as_unitary(vals)
    except Exception:
        return None


def fix(task, k, vals, part, parts):
    rs, op = operation(k)
    f = nmat(k)
    menus = [around(lo, hi)[:vals] for lo, hi in rs]
    for j, combo in enumerate(itertools.product(*menus)):
        if j % parts != part:
            continue
        v = [x for x, _ in combo]
        ok = all(o for _, o in combo)
        for form, lst in (("list", list(v)), ("array", np.array(v))):
            before = list(v)
            u = attempt(op, lst)
            task.transitions += 1
            case = dict(k=k, values=v, form=form)
            if (u is not None) != ok:
                task.violation(f"fixing at {v} ({form}) is {'refused' if ok else 'accepted'}, the ranges are {rs}", case=case)
            if list(lst) != before and not any(math.isnan(x) for x in v):
                task.violation("the list of values was changed", case=case)
            if u is None:
                continue
            d = ref.phase_diff(u.get_matrix(), f(*v))
            if not d < 1e-9 or u.get_operation_name() != f"F{k}" or u.get_dimension() != 2:
                task.violation(f"fixing at {v} gives another operation (off by {d:.3g})", case=case)
            for i, n in enumerate("abcd"[:k]):
                got = u.get_parameter_value(n)
                if got is None or got[0] != v[i] or bool(got[1]) != (i % 2 == 0):
                    task.violation(f"fixing at {v} records {got} as {n}", case=case)
            text = "(" + ", ".join(f"{n}=" + (f"{round(x / np.pi, 3)}π" if i % 2 == 0 else f"{round(x, 4)}") for i, (n, x) in enumerate(zip("abcd", v))) + ")"
            if form == "list" and u.get_display_name() != f"F{k}{text}":
                task.violation(f"fixing at {v} is displayed as {u.get_display_name()!r}", case=case)
        task.traces += 1
        task.outcome((k, tuple(v)))
    task.states += 1


def many(task, k, pairs):
    """many parameters: every single value (and pair of values) departing from the middle of its range, every wrong number of values"""
    rs = [((0.0, 2 * PI), (-1.0, 1.0), (2.5, 3.5), (-4.0, 0.0), (0.25, 0.25), (10.0, 11.0), (-0.5, 7.0))[i % 7] for i in range(k)]
    names = [f"p{i}" for i in range(k)]
    f = nmat(k)
    op = ParameterizedUnitary(2, f, [ParameterizedUnitaryParameter(n, lo, hi, is_angle=i % 3 == 0) for i, (n, (lo, hi)) in enumerate(zip(names, rs))], "F")
    mid = [lo + (hi - lo) * (0.3 + 0.5 * i / k) for i, (lo, hi) in enumerate(rs)]
    devs = [()] + [((i, v, ok),) for i in range(k) for v, ok in around(*rs[i])[:11]]
    if pairs:
        devs += [((i, v, ok), (j, w, ow)) for i, j in itertools.combinations(range(k), 2) for v, ok in around(*rs[i])[:5] for w, ow in around(*rs[j])[:5]]
    for dev in devs:
        v = list(mid)
        for i, x, _ in dev:
            v[i] = x
        ok = all(o for _, _, o in dev)
        for lst in (list(v), np.array(v)):
            u = attempt(op, lst)
            task.transitions += 1
            case = dict(parameters=k, deviations=dev)
            if (u is not None) != ok:
                task.violation(f"{k} parameters: fixing at {v} is {'refused' if ok else 'accepted'}, the ranges are {rs}", case=case)
            if u is None:
                continue
            if not ref.phase_diff(u.get_matrix(), f(*v)) < 1e-9:
                task.violation(f"{k} parameters: fixing at {v} gives another operation", case=case)
            for i, n in enumerate(names):
                got = u.get_parameter_value(n)
                if got is None or got[0] != v[i] or bool(got[1]) != (i % 3 == 0):
                    task.violation(f"{k} parameters: fixing at {v} records {got} as {n}", case=case)
        task.traces += 1
        task.outcome((k, dev))
    for n in range(0, k + 8):
        if n == k:
            continue
        for fill in (mid, [0.0] * k, [r[0] for r in rs]):
            for lst in ((list(fill) * 3)[:n], np.array((list(fill) * 3)[:n])):
                task.transitions += 1
                if attempt(op, lst) is not None:
                    task.violation(f"{n} values for {k} parameters are accepted", case=dict(parameters=k, values=n))
    # a random value of each parameter lies in its own range, and fixing at drawn values records them
    for pos in range(k):
        def run(path):
            with rng.controlled(path):
                return [float(p.random_value()) for p in op.get_parameters()]
        for path, v in explore(run, cells=((0.0, 0.5), (TOP, 0.5)), deviations=1, default=lambda i, n, label: (i + pos) % n):
            task.transitions += k
            u = attempt(op, v)
            if u is None or any(u.get_parameter_value(n)[0] != x for n, x in zip(names, v)):
                task.violation(f"{k} parameters: drawn values {v} are refused or recorded wrong", case=dict(parameters=k, values=v))
    task.states += 1


def lengths(task):
    for k in range(1, 5):
        rs, op = operation(k)
        for n in range(7):
            for pick in ("lo", "mid", "hi"):
                v = [{"lo": lo, "mid": (lo + hi) / 2, "hi": hi}[pick] for lo, hi in (rs * 7)[:n]]
                if n > k:     # surplus values that every range would accept
                    alts = [v, v[:k] + [v[0]] * (n - k), [2.5 if i == 2 else 0.0 for i in range(n)]]
                else:
                    alts = [v]
                for a in alts:
                    for lst in (list(a), np.array(a)):
                        u = attempt(op, lst)
                        task.transitions += 1
                        if (u is not None) != (n == k):
                            task.violation(f"{n} values for {k} parameters are {'refused' if n == k else 'accepted'}: {a}", case=dict(k=k, values=a))
            task.outcome((k, n))
            task.traces += 1
    for op in (P.rotation_xy(), P.rotation_xyz(), P.xx(), P.gms(2), P.time_evolution(ref.Z, 0, 1)):
        k = len(op.get_parameters())
        for n in range(6):
            u = attempt(op, [0.5] * n)
            task.transitions += 1
            if (u is not None) != (n == k):
                task.violation(f"{n} values for the {k} parameters of {op.get_operation_name()} are {'refused' if n == k else 'accepted'}", case=dict(op=op.get_operation_name(), n=n))
    # no parameters at all
    op = ParameterizedUnitary(2, lambda: ref.H, [], "C")
    for v, ok in (([], True), ([0.0], False), ([0.0, 1.0], False)):
        u = attempt(op, v)
        if (u is not None) != ok or (u is not None and not ref.same(u.get_matrix(), ref.H, 1e-9)):
            task.violation(f"an operation without parameters {'refuses' if ok else 'accepts'} {v}", case=dict(values=v))
    task.states += 5


def values(path, p):
    with rng.controlled(path):
        return float(p.random_value())


def uniform(task, n):
    """drawn over an even grid of the random source, a value comes out evenly spread over the range, and never outside"""
    for lo, hi in RANGES:
        p = ParameterizedUnitaryParameter("p", lo, hi, is_angle=False)
        mid = tuple(((k + 0.5) / n, 1 / n) for k in range(n))
        got = []
        for path, v in explore(lambda path: values(path, p), cells=mid):
            got.append((v, path.weight))
            task.transitions += 1
        want = [lo + (hi - lo) * c for c, _ in mid]
        scale = max(hi - lo, 1e-300)
        got.sort()
        total = sum(w for _, w in got)
        if not all(lo <= v <= hi for v, _ in got):
            task.violation(f"a value drawn from [{lo!r}, {hi!r}] lies outside it", case=dict(lo=lo, hi=hi, values=[v for v, _ in got if not lo <= v <= hi][:3]))
        elif hi > lo and hi - lo > 1e-9 * max(abs(lo), abs(hi)):
            # share of probability below each tenth of the range
            for j in range(1, 10):
                x = lo + (hi - lo) * j / 10
                share = sum(w for v, w in got if v < x) / total
                if not abs(share - j / 10) < 1.5 / n:
                    task.violation(f"values drawn from [{lo!r}, {hi!r}]: {share:.4f} of them fall into the first {j} tenths", case=dict(lo=lo, hi=hi))
        if len(got) == n:      # one draw per value: a straight line, up or down
            if not all(abs(v - w) <= 1e-9 * scale + 4 * np.spacing(max(abs(lo), abs(hi))) for (v, _), w in zip(got, want)):
                task.violation(f"values drawn from [{lo!r}, {hi!r}] are not an even spread", case=dict(lo=lo, hi=hi))
        # the ends of the random source
        ends = ((0.0, 0.2), (2.0 ** -53, 0.2), (0.5, 0.2), (1 - 2.0 ** -52, 0.2), (TOP, 0.2))
        op = ParameterizedUnitary(2, lambda v: ref.rx(math.atan(v)), [p], "G")
        for path, v in explore(lambda path: values(path, p), cells=ends):
            task.transitions += 1
            if not (lo <= v <= hi and p.is_valid(v)) or attempt(op, [v]) is None:
                task.violation(f"drawn from [{lo!r}, {hi!r}] at an extreme of the random source: {v!r} is not in the range", case=dict(lo=lo, hi=hi, value=v, choices=path.positions()))
            task.outcome((lo, hi, v))
        task.traces += len(got)
        task.states += 1


def draws(task, n, length):
    """all sequences of draws from two parameters: each value depends on its own draw and its own range only"""
    cells = tuple(((k + 0.5) / n, 1 / n) for k in range(n))
    for ra, rb in itertools.product(RANGES[:5] + [RANGES[10]], repeat=2):
        a, b = (ParameterizedUnitaryParameter(x, lo, hi, is_angle=False) for x, (lo, hi) in (("a", ra), ("b", rb)))
        for order in itertools.product((0, 1), repeat=length):
            if (length > 2 and order[0]) or (ra == rb and sum(order) == 0):
                continue
            seen = {}

            def run(path):
                with rng.controlled(path):
                    return tuple(float((a, b)[i].random_value()) for i in order)
            for path, vals in explore(run, cells=cells):
                k = tuple(round((v - r[0]) / (r[1] - r[0]) * n - 0.5) if r[1] > r[0] else 0 for v, r in ((v, (ra, rb)[i]) for v, i in zip(vals, order)))
                seen[k] = seen.get(k, 0.0) + path.weight
                task.transitions += 1
                if not all((ra, rb)[i][0] <= v <= (ra, rb)[i][1] for v, i in zip(vals, order)):
                    task.violation(f"values {vals} drawn in order {order} from {ra}, {rb} lie outside", case=dict(a=ra, b=rb, order=order))
            sizes = [n if (ra, rb)[i][1] > (ra, rb)[i][0] else 1 for i in order]
            want = 1.0 / math.prod(sizes)
            if len(seen) != math.prod(sizes) or not all(abs(w - want) < 1e-9 for w in seen.values()):
                task.violation(f"values drawn in order {order} from {ra}, {rb} are not independent and uniform", case=dict(a=ra, b=rb, order=order))
            task.traces += 1
            task.outcome((ra, rb, order))
    task.states += 25


def history(task):
    """all ordered pairs of (accepted or refused) value lists on one operation, and on a copy held by a primitive"""
    for k in (1, 2, 3):
        rs, op = operation(k)
        f = nmat(k)
        prim = UnitaryPrimitive(op)
        menus = [[(lo, True), ((lo + 2 * hi) / 3, True), (hi, True), (hi + 0.5, False)][: 4 if k < 3 else 3 + (i == 0)] for i, (lo, hi) in enumerate(rs)]
        lists = [([x for x, _ in c], all(o for _, o in c)) for c in itertools.product(*menus)]
        lists += [([rs[0][0]] * (k + 1), False), ([], False)]
        for (v, okv), (w, okw) in itertools.product(lists, lists):
            a = attempt(op, list(v))
            b = attempt(prim.get_unitary() if hasattr(prim, "get_unitary") else op, list(w))
            task.transitions += 2
            for x, y, ok in ((v, a, okv), (w, b, okw)):
                if (y is not None) != ok:
                    task.violation(f"fixing at {x} is {'refused' if ok else 'accepted'} in the order {v}, {w}", case=dict(k=k, first=v, then=w))
                if y is not None:
                    if not ref.same(y.get_matrix(), f(*x), 1e-9):
                        task.violation(f"fixing at {x} gives another operation in the order {v}, {w}", case=dict(k=k, first=v, then=w))
                    for i, n in enumerate("abcd"[:k]):
                        got = y.get_parameter_value(n)
                        if got is None or got[0] != x[i]:
                            task.violation(f"fixing at {x} records {got} as {n} in the order {v}, {w}", case=dict(k=k, first=v, then=w))
            task.traces += 1
            task.outcome((k, tuple(v), tuple(w)))
        task.states += 1
    # the list of values may be reused by the caller
    rs, op = operation(2)
    for first, then in itertools.permutations([[0.5, -0.5], [6.0, 1.0], [0.0, 0.0]], 2):
        vals = list(first)
        u = op.as_unitary(vals)
        vals[:] = then
        arr = np.array(first)
        w = op.as_unitary(arr)
        arr[:] = then
        task.transitions += 2
        for x in (u, w):
            if [x.get_parameter_value(n)[0] for n in "ab"] != first or not ref.same(x.get_matrix(), nmat(2)(*first), 1e-9):
                task.violation("a fixed operation changes with the list of values it was made from", case=dict(first=first, then=then))
