"""C05 isolation: after every pair (triple) of library calls and caller edits, everything else is as in a fresh world."""
import itertools

import numpy as np

from mc import comp, lib, ref, rng
from mc.choice import Path
from stoqcompiler.compiler import Compiler, CompilerResult
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm
from stoqcompiler.unitary import (ParameterizedUnitary, ParameterizedUnitaryDefinitions as PD, ParameterizedUnitaryParameter, Unitary,
                                  UnitaryDefinitions as D, UnitaryPrimitive, UnitarySequence, UnitarySequenceEntry)
from stoqcompiler.verification import Verification

BOUND = {"quick": "all ordered pairs of 132 operations (library calls, caller edits of the 23 inputs handed over, edits of results) on a world of 33 "
                  "objects, every observable value of every other object and of the earlier result compared with a fresh world; every call taking a matrix: 2-64 dimensions x 6-7 contents (rounding dust included) x 6 memory layouts; "
                  "every ordered pair and triple of calls of one method with 2-9 different arguments; every call taking a collection: 16 sizes up to 129, unchanged by the call and edited afterwards",
         "thorough": "as quick, and all triples whose first two operations are library calls on shared objects"}


# ---- the world -----------------------------------------------------------------------------------

def plain():
    """the caller's plain inputs, before the library has seen any of them"""
    raw = {}
    raw["m2"] = ref.generic_unitary(2, 4)
    raw["m4"] = ref.generic_unitary(4, 5)
    raw["mdust"] = np.array([[0.6, 0.8], [-0.8, 0.6]], dtype=complex) + np.array([[1e-13j, 3e-13], [0.0, -2e-13j]])
    raw["mreal"] = np.array([[0.0, 1.0], [1.0, 0.0]])
    raw["q1"], raw["q2"], raw["qu"] = [1], [1, 0], [2]
    raw["qarr"] = np.array([0, 1])
    raw["par"] = {"a": (0.5, True)}
    raw["h2"] = ref.generic_hermitian(2, 1)
    raw["vals"] = [0.3, 0.4]
    raw["hp"] = ref.generic_hermitian(2, 3)
    raw["plist"] = [ParameterizedUnitaryParameter("a", -1, 2, False), ParameterizedUnitaryParameter("b", 0, 1, True)]
    raw["alin"] = [1]
    raw["al"] = [[0], raw["alin"]]
    raw["target"] = ref.generic_unitary(4, 8) + 0.0
    raw["target"][0, 1] += 4e-14j
    raw["probs"] = [0.5, 0.25, 0.25]
    raw["probarr"] = np.array([0.7, 0.2, 0.1])      # the floating-point sum is not exactly 1
    raw["prob2"] = np.array([0.1, 0.2, 0.7 + 1e-12])
    return raw


def build():
    w = {}
    raw = w["raw"] = plain()
    w["u2"] = Unitary(2, raw["m2"], "A")
    w["u4"] = Unitary(4, raw["m4"], "B")
    w["ud"] = Unitary(2, raw["mdust"], "D")
    w["ux"] = Unitary(2, raw["mreal"], "P", raw["par"], False, raw["qu"])
    w["rx"], w["cnot"], w["inv"] = D.rx(0.7), D.cnot(), D.rphi(0.3, 0.2).inverse()
    w["e1"] = UnitarySequenceEntry(w["u2"], raw["q1"])
    w["e2"] = UnitarySequenceEntry(w["u4"], raw["q2"])
    w["e3"] = UnitarySequenceEntry(w["cnot"], raw["qarr"])
    w["e4"] = UnitarySequenceEntry(w["rx"], [0])
    raw["es"] = [w["e1"], w["e2"], w["e1"]]
    raw["ea"] = np.empty(2, dtype=object)
    raw["ea"][:] = [w["e3"], w["e4"]]
    w["s0"] = UnitarySequence(4)
    w["s1"] = UnitarySequence(4, raw["es"])
    w["s2"] = UnitarySequence(4, raw["ea"])
    w["s3"] = UnitarySequence(4)
    w["s3"].product()
    w["s3"].append_last(w["e1"])
    w["s3"].append_last(w["e2"])
    w["s4"] = w["s1"].inverse()
    w["t1"], w["t2"] = HamiltonianTerm(raw["h2"]), HamiltonianTerm(ref.Z * 0.6)
    raw["terms"] = [w["t1"], w["t2"]]
    w["ham"] = Hamiltonian(raw["terms"])
    w["pu"] = PD.rotation_xy()
    w["pc"] = ParameterizedUnitary(2, comp.custom_matrix, raw["plist"], "C")
    w["pt"] = PD.time_evolution(raw["hp"], -1, 1, "p")
    w["p1"], w["p2"] = UnitaryPrimitive(w["cnot"], [[0, 1], [1, 0]]), UnitaryPrimitive(w["pu"])
    w["p3"] = UnitaryPrimitive(w["u2"], [[1]])
    raw["prims"] = [w["p1"], w["p2"], w["p3"]]
    w["p4"] = UnitaryPrimitive(w["rx"], raw["al"])
    raw["counts"] = {w["p1"]: 1, w["p4"]: 1}
    w["c1"] = Compiler(4, raw["prims"], raw["probs"])
    w["c2"] = Compiler(4, raw["prims"], None, 0.8, 0.3)
    w["c3"] = Compiler(4, [UnitaryPrimitive(w["pt"], raw["al"])], None, 0.7)
    w["tgt"] = Unitary(4, raw["target"], "T")
    return w


SEQS = ("s0", "s1", "s2", "s3", "s4")
UNIS = ("u2", "u4", "ud", "ux", "rx", "cnot", "inv", "tgt")


def run_fixed(f, k=3):
    with rng.controlled(Path((), comp.mixed(k, 3))):
        return f()


# (name, function of the world, names it may edit)
def ops():
    o = []

    def add(name, f, edits=()):
        o.append((name, f, frozenset(edits)))
    for u in UNIS:
        add(f"{u}.inverse", lambda w, u=u: w[u].inverse())
        add(f"{u}.text", lambda w, u=u: [w[u].get_qasm(), w[u].get_jaqal(), w[u].get_display_name()])
    add("u2.tensor", lambda w: w["u2"].tensor(w["u4"]))
    add("ux.tensor", lambda w: w["ux"].tensor(w["ux"]))
    add("u2.left", lambda w: w["u2"].left_multiply(w["rx"]))
    add("ux.left", lambda w: w["ux"].left_multiply(w["u2"]))
    add("u4.right", lambda w: w["u4"].right_multiply(w["cnot"]))
    add("u4.left_self", lambda w: w["u4"].left_multiply(w["u4"]))
    add("u4.dist", lambda w: w["u4"].distance_from(w["cnot"]))
    add("u4.dist_raw", lambda w: w["u4"].distance_from(w["raw"]["target"]))
    add("u4.close", lambda w: w["u4"].close_to(w["tgt"], 0.5))
    add("u2.close_raw", lambda w: w["ux"].close_to(w["raw"]["m2"]))
    for e in ("e1", "e2", "e3", "e4"):
        add(f"{e}.full4", lambda w, e=e: w[e].get_full_unitary(4))
        add(f"{e}.full8", lambda w, e=e: w[e].get_full_unitary(8))
        add(f"{e}.full8.inverse", lambda w, e=e: w[e].get_full_unitary(8).inverse())
        add(f"{e}.perm", lambda w, e=e: w[e].get_permute_matrix(4).toarray())
    add("unitary(mdust)", lambda w: Unitary(2, w["raw"]["mdust"], "D"))
    add("unitary(m4)", lambda w: Unitary(4, w["raw"]["m4"]))
    add("unitary(mreal)", lambda w: Unitary(2, w["raw"]["mreal"]))
    add("u2.dist_dust", lambda w: [w["u2"].distance_from(w["raw"]["mdust"]), w["ud"].close_to(w["raw"]["mdust"])])
    add("entry(u2)", lambda w: UnitarySequenceEntry(w["u2"], w["raw"]["q1"]))
    add("entry(u4)", lambda w: UnitarySequenceEntry(w["u4"], w["raw"]["qarr"]))
    for s in SEQS:
        add(f"{s}.product", lambda w, s=s: w[s].product())
        add(f"{s}.product.inverse", lambda w, s=s: w[s].product().inverse())
        add(f"{s}.inverse", lambda w, s=s: w[s].inverse())
        add(f"{s}.entries", lambda w, s=s: w[s].get_sequence_entries())
        add(f"{s}.text", lambda w, s=s: [w[s].get_qasm(), w[s].get_jaqal(), w[s].get_display_output()])
        add(f"{s}.append_last", lambda w, s=s: w[s].append_last(w["e2"]), [s])
        add(f"{s}.append_first", lambda w, s=s: w[s].append_first(w["e1"], save_undo=False), [s])
        add(f"{s}.remove_last", lambda w, s=s: w[s].remove_last(), [s])
        add(f"{s}.remove_first", lambda w, s=s: w[s].remove_first(save_undo=False), [s])
    add("s3.undo", lambda w: w["s3"].undo(), ["s3"])
    for a, b in (("s1", "s2"), ("s1", "s1"), ("s3", "s4"), ("s0", "s3"), ("s2", "s0")):
        add(f"combine({a},{b})", lambda w, a=a, b=b: UnitarySequence.combine(w[a], w[b]))
    add("combine(s1)", lambda w: UnitarySequence.combine(w["s1"]))
    add("seq(es)", lambda w: UnitarySequence(4, w["raw"]["es"]))
    add("seq(ea)", lambda w: UnitarySequence(8, w["raw"]["ea"]))
    add("term", lambda w: HamiltonianTerm(w["raw"]["h2"]))
    add("ham()", lambda w: Hamiltonian(w["raw"]["terms"]))
    add("ham.evolve", lambda w: w["ham"].get_time_evolution_operator(0.7))
    add("ham.ideal", lambda w: w["ham"].get_ideal_sequence(0.7, 2))
    add("ham.trotter", lambda w: run_fixed(lambda: w["ham"].get_trotter_sequence(0.7, 3, True)))
    add("ham.qdrift", lambda w: run_fixed(lambda: w["ham"].get_qdrift_sequence(0.7, 3)))
    add("ham.stoq", lambda w: run_fixed(lambda: w["ham"].compile_stoq_sequence(0.5, 1.0, 0.6, True)))
    add("ham.rav", lambda w: run_fixed(lambda: w["ham"].compile_rav_sequence(1.0, 1.0, 0.3)))
    add("time_evolution", lambda w: D.time_evolution(w["raw"]["h2"], 0.4, "x"))
    add("PD.time_evolution", lambda w: PD.time_evolution(w["raw"]["h2"], -1, 1).as_unitary([0.3]))
    add("pt.as", lambda w: w["pt"].as_unitary([0.4]))
    add("PD.time_evolution(hp)", lambda w: PD.time_evolution(w["raw"]["hp"], -1, 1))
    add("parameterized(plist)", lambda w: ParameterizedUnitary(2, comp.custom_matrix, w["raw"]["plist"], "C"))
    add("primitive(al)", lambda w: UnitaryPrimitive(w["rx"], w["raw"]["al"]))
    add("c3.compile", lambda w: run_fixed(lambda: w["c3"].compile(w["tgt"], 0.99, 4)))
    add("random_entry(p4)", lambda w: run_fixed(lambda: Compiler.create_random_sequence_entry(4, [w["p4"], w["p1"]])))
    add("pu.as", lambda w: w["pu"].as_unitary(w["raw"]["vals"]))
    add("pc.as", lambda w: w["pc"].as_unitary(np.array(w["raw"]["vals"])))
    add("gms", lambda w: D.gms(3, 0.2))
    for c in ("c1", "c2"):
        add(f"{c}.compile", lambda w, c=c: run_fixed(lambda: w[c].compile(w["tgt"], 0.99, 6)))
        add(f"{c}.layered", lambda w, c=c: run_fixed(lambda: w[c].compile_layered(w["tgt"], w["raw"]["counts"], 0.99, 4)))
    add("compiler()", lambda w: run_fixed(lambda: Compiler(4, w["raw"]["prims"], w["raw"]["probs"]).compile(w["tgt"], 0.9, 2)))
    add("random_entry", lambda w: run_fixed(lambda: Compiler.create_random_sequence_entry(4, w["raw"]["prims"], w["raw"]["probs"])))
    add("compiler(array)", lambda w: run_fixed(lambda: Compiler(4, w["raw"]["prims"], w["raw"]["probarr"], 0.6).compile(w["tgt"], 0.9, 3)))
    add("random_entry(array)", lambda w: run_fixed(lambda: Compiler.create_random_sequence_entry(4, w["raw"]["prims"], w["raw"]["prob2"])))
    add("rav(array)", lambda w: run_fixed(lambda: Verification.generate_rav_sequence(4, w["raw"]["prims"], 2, 0.9, 0.5, w["raw"]["probarr"], 2)))
    add("random_layer", lambda w: run_fixed(lambda: Compiler.create_random_layer(4, w["raw"]["counts"])))
    add("rav", lambda w: run_fixed(lambda: Verification.generate_rav_sequence(4, w["raw"]["prims"], 3, 0.9, 0.5, w["raw"]["probs"], 3)))
    add("layered_rav", lambda w: run_fixed(lambda: Verification.generate_layered_rav_sequence(4, w["raw"]["counts"], 2, 0.9, 0.5, 2)))
    add("xeb", lambda w: run_fixed(lambda: Verification.generate_xeb_sequence(4, w["raw"]["counts"], 2)))
    return o


def scramble(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            x[:] = x[::-1].copy()
            x[0] = None
        else:
            x *= 0
            x += 7
    elif isinstance(x, dict):
        x.clear()
    else:
        x.reverse()
        x.append(x[0])
        x[0] = 99


RAWS = ("m2", "m4", "mdust", "mreal", "q1", "q2", "qu", "qarr", "par", "h2", "vals", "es", "ea", "terms", "prims", "probs", "target", "probarr", "prob2", "hp", "plist", "al", "alin")


# edits of an earlier result, by the caller
def result_edits(r):
    if isinstance(r, CompilerResult):
        return [("costs.clear", lambda r: r.cost_by_step.clear())] + [
            ("sequence." + n, lambda r, f=f: f(r.compiled_sequence)) for n, f in result_edits(r.compiled_sequence)]
    if isinstance(r, UnitarySequence):
        e = lambda: UnitarySequenceEntry(D.h(), [0])    # noqa: E731
        return [("append_last", lambda s: s.append_last(e())), ("append_first", lambda s: s.append_first(e(), save_undo=False)),
                ("remove_last", lambda s: s.remove_last()), ("remove_first", lambda s: (s.product(), s.remove_first())),
                ("edit_undo", lambda s: (s.append_last(e()), s.product(), s.undo(), s.append_first(e())))]
    if isinstance(r, list):
        return [("clear", lambda x: x.clear()), ("reverse", lambda x: x.reverse()), ("double", lambda x: x.extend(list(x)))]
    return []


# ---- observation ---------------------------------------------------------------------------------

def obs(x):
    """every publicly observable value of x, nested"""
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, (float, np.floating)):
        return ("f", float(x))
    if isinstance(x, np.ndarray) and x.dtype == object:
        return ("oa",) + tuple(obs(y) for y in x)
    if isinstance(x, np.ndarray):
        return ("A", np.array(x, dtype=complex))
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (list, tuple)):
        return ("l",) + tuple(obs(y) for y in x)
    if isinstance(x, dict):
        return ("d",) + tuple((obs(k), obs(v)) for k, v in x.items())
    if isinstance(x, Unitary):
        return ("U", x.get_dimension(), x.get_operation_name(), x.get_display_name(), x.get_qasm(), x.get_jaqal(),
                ("M", np.array(x.get_matrix())))
    if isinstance(x, UnitarySequenceEntry):
        q = [int(i) for i in x.get_apply_to()]
        d = 2 ** (max(q) + 1)
        return ("E", x.get_dimension(), tuple(q), obs(x.get_full_unitary(d)), obs(x.get_full_unitary(2 * d)))
    if isinstance(x, UnitarySequence):
        a = obs(x.product())
        e = tuple(obs(y) for y in x.get_sequence_entries())
        t = (x.get_dimension(), x.get_length(), x.get_qasm(), x.get_jaqal(), x.get_display_output())
        i = obs(x.inverse().product())
        try:
            x.undo()
            u = (x.get_qasm(), obs(x.product()), tuple(obs(y) for y in x.get_sequence_entries()))
        except Exception:
            u = "no undo"
        return ("S", a, e, t, i, u)
    if isinstance(x, HamiltonianTerm):
        return ("T", x.get_dimension(), ("f", float(x.get_coefficient())), ("A", np.array(x.get_matrix())), ("A", np.array(x.get_normalized_matrix())))
    if isinstance(x, Hamiltonian):
        return ("H", x.get_dimension(), x.get_qubit_count(), obs(x.get_time_evolution_operator(0.3)), obs(x.get_trotter_sequence(0.4, 1)),
                obs(run_fixed(lambda: x.get_qdrift_sequence(0.4, 4))))
    if isinstance(x, ParameterizedUnitaryParameter):
        return ("PP", x.get_parameter_name(), x.get_is_angle(), x.is_valid(1.5), x.is_valid(-0.5), x.is_valid(6.9), obs(run_fixed(x.random_value)))
    if isinstance(x, ParameterizedUnitary):
        return ("PU", x.get_dimension(), x.get_operation_name(), tuple(obs(p) for p in x.get_parameters()),
                obs(x.as_unitary([0.2, 0.6][:len(x.get_parameters())])))
    if isinstance(x, UnitaryPrimitive):
        return ("P", obs(x.get_unitary()), obs(x.get_allowed_apply_to()))
    if isinstance(x, Compiler):
        t = Unitary(4, ref.generic_unitary(4, 8))
        return ("C", obs(run_fixed(lambda: x.compile(t, 0.97, 9), 1)), obs(run_fixed(lambda: x.compile(t, 0.5, 5), 2)))
    if isinstance(x, CompilerResult):
        return ("R", obs(x.compiled_sequence), obs([float(c) for c in x.cost_by_step]))
    raise TypeError(type(x))


def diff(a, b, at=""):
    """None, or where two observations differ"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return at or "top"
        if len(a) == 2 and isinstance(a[0], str) and a[0] in ("A", "M", "f") and isinstance(b[0], str) and b[0] == a[0]:
            if a[0] == "f":
                return None if abs(a[1] - b[1]) < 1e-9 or (a[1] != a[1] and b[1] != b[1]) else at + " value"
            if a[1].shape != b[1].shape:
                return at + " shape"
            if a[0] == "A":
                return None if np.allclose(a[1], b[1], rtol=0, atol=1e-9) else at + " array"
            return None if ref.phase_diff(a[1], b[1]) < 1e-7 else at + " matrix"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{at}/{a[0] if isinstance(a[0], str) and len(a[0]) < 3 else ''}{i}")
            if d:
                return d
        return None
    return None if type(a) is type(b) and a == b else at + f": {str(b)[:60]!r} instead of {str(a)[:60]!r}"


_base = {}


def base():
    """observations in a fresh world"""
    if not _base:
        w = build()
        _base.update({k: obs(v) for k, v in w.items() if k != "raw"})
        w = build()
        for k, v in {**w["raw"], **plain()}.items():
            _base["raw." + k] = obs(v)
    return _base


HEAVY = dict(c1=("c1", "c2", "compiler", "random", "rav", "layered", "xeb"), ham=("ham", "term", "time", "PD"))
HEAVY["c2"] = HEAVY["c1"]
HEAVY["c3"] = HEAVY["c1"] + ("pt", "PD")


def compare(w, edited, what, names=None):
    """names: with several operations, the objects that are slow to observe are looked at when an operation concerns them"""
    b = base()
    out = None
    for k, v in w.items():
        if k == "raw" or k in edited or (names and k in HEAVY and not any(n.startswith(HEAVY[k]) for n in names)):
            continue
        try:
            d = diff(b[k], obs(v), k)
        except Exception as e:
            d = f"{k} fails: {type(e).__name__} {e}"
        if d:
            out = out or f"{what} changed {d}"
    return out


def compare_raw(w, touched, what):
    """inputs: object references inside lists were already compared, so only shapes and plain values are looked at"""
    b = base()
    for k, v in w["raw"].items():
        if k in touched:
            continue
        n, m = b["raw." + k], v
        if isinstance(v, (list, np.ndarray, dict)) and k in ("es", "ea", "terms", "prims", "counts"):
            if len(v) != len(n) - 1 or list(v) != w["keep"][k]:
                return f"{what} changed the caller's {k}"
        elif isinstance(v, np.ndarray) and v.dtype != object:
            if not np.array_equal(n[1], v):
                return f"{what} changed the caller's {k}"
        else:
            d = diff(n, obs(m), "the caller's " + k)
            if d:
                return f"{what} changed {d}"
    return None


def fresh():
    w = build()
    keep = {k: list(w["raw"][k]) for k in ("es", "ea", "terms", "prims", "counts")}
    return w, keep


def tasks(tier):
    n = len(ops())
    t = [("solo", {})] + [("inputs", dict(raw=k)) for k in RAWS]
    t += [("arrays", dict(dim=d)) for d in ((2, 4, 8, 16, 32, 64) + ((128, 256) if tier == "thorough" else ()))]
    t += [("collections", dict(part=c, parts=4, sizes=SIZES + ((200, 257, 500) if tier == "thorough" else ()))) for c in range(4)]
    t += [("same_method", dict(part=c, parts=12)) for c in range(12)]
    parts = 48
    t += [("pairs", dict(part=c, parts=parts)) for c in range(parts)]
    if tier == "thorough":
        t += [("triples", dict(part=c, parts=n)) for c in range(n)]
    return t


def run(seq, o):
    """executes operations; returns (world, results, edited names, keep)"""
    w, keep = fresh()
    res, edited = [], set()
    for i in seq:
        name, f, ed = o[i]
        try:
            res.append(f(w))
        except Exception as e:
            res.append("raised " + type(e).__name__)
        edited |= ed
    return w, res, edited, keep


_solo = {}


def solo_obs(i, o):
    if i not in _solo:
        _, res, _, _ = run([i], o)
        _solo[i] = obs(res[0]) if not isinstance(res[0], str) else res[0]
    return _solo[i]


def solo(task):
    """single operations, caller edits alone, and edits of a result"""
    o = ops()
    for i, (name, _, ed) in enumerate(o):
        w, res, edited, keep = run([i], o)
        task.case = dict(operations=[name])
        w["keep"] = keep
        m = compare_raw(w, (), name)
        del w["keep"]
        m = m or compare(w, edited, name)
        if m:
            task.violation(m, case=task.case)
        task.traces += 1
        task.outcome(name)
        k = len(result_edits(res[0]))
        for j in range(k):
            w, res, edited, keep = run([i], o)
            en, f = result_edits(res[0])[j]
            task.case = dict(operations=[name, "result." + en])
            f(res[0])
            m = compare(w, edited, f"{name}, then {en} on the result,")
            if m:
                task.violation(m, case=task.case)
            task.traces += 1
            task.transitions += 2
            task.outcome((name, en))
    for k in RAWS:
        w, _, _, _ = run([], o)
        task.case = dict(operations=["caller edits " + k])
        scramble(w["raw"][k])
        m = compare(w, (), f"the caller's edit of {k}")
        task.traces += 1
        task.transitions += 1
        if m:
            task.violation(m, case=task.case)
        task.outcome(k)
    task.states += len(base())


def inputs(task, raw):
    """the caller's edit after each operation: objects may have been asked for products, full unitaries ... before"""
    o = ops()
    for k in [raw]:
        for i, (name, _, ed) in enumerate(o):
            w, res, edited, _ = run([i], o)
            scramble(w["raw"][k])
            task.case = dict(operations=[name, "caller edits " + k])
            m = None
            if not isinstance(res[0], str):
                d = diff(solo_obs(i, o), obs(res[0]), "the result")
                m = d and f"the caller's edit of {k} after {name} changed {d}"
            if not m:
                m = compare(w, edited, f"the caller's edit of {k} after {name}", [name])
            task.traces += 1
            task.transitions += 2
            if m:
                task.violation(m, case=task.case)
            task.outcome((name, k))
    task.states += 1


def pairs(task, part, parts):
    o = ops()
    n = len(o)
    for p in range(part, n * n, parts):
        i, j = divmod(p, n)
        one(task, (i, j), o)
    task.states += 1


def one(task, seq, o):
    w, res, edited, keep = run(seq, o)
    names = [o[i][0] for i in seq]
    task.case = dict(operations=names)
    what = ", ".join(names)
    m = None
    for k, r in enumerate(res):
        # a result is what it is alone, unless an operand was edited on purpose before
        before = set().union(*[o[i][2] for i in seq[:k]]) if k else set()
        if before:
            continue
        s = solo_obs(seq[k], o)
        if isinstance(r, str) or isinstance(s, str):
            d = None if isinstance(r, str) and isinstance(s, str) and r == s else "whether it fails"
        else:
            d = diff(s, obs(r), "the result")
        if d:
            m = m or f"{what}: {d} of {names[k]} is not what it is alone"
    m = m or compare(w, edited, what, names)
    task.traces += 1
    task.transitions += len(seq)
    task.outcome(tuple(seq))
    if m:
        task.violation(m, case=task.case)


def variants():
    """per method, the same call with different arguments"""
    t = Unitary
    g = ref.generic_unitary
    V = {
        "u2.left_multiply": [lambda w, k=k: w["u2"].left_multiply(t(2, g(2, k))) for k in (1, 2)],
        "u4.right_multiply": [lambda w, k=k: w["u4"].right_multiply(t(4, g(4, k))) for k in (1, 2)],
        "u2.tensor": [lambda w, x=x: w["u2"].tensor(w[x]) for x in ("u2", "ud", "u4")],
        "e1.full": [lambda w, d=d: w["e1"].get_full_unitary(d) for d in (4, 8, 16)],
        "e2.full": [lambda w, d=d: w["e2"].get_full_unitary(d) for d in (4, 8)],
        "pu.as": [lambda w, v=v: w["pu"].as_unitary(v) for v in ([0.1, 0.2], [0.1, 0.3], [2.0, 0.2])],
        "pc.as": [lambda w, v=v: w["pc"].as_unitary(np.array(v)) for v in ([0.1, 0.2], [0.1, 0.3], [1.0, 0.2])],
        "pt.as": [lambda w, v=v: w["pt"].as_unitary([v]) for v in (0.1, -0.3, 1.0)],
        "combine": [lambda w, a=a: UnitarySequence.combine(*[w[x] for x in a]) for a in (("s1", "s2"), ("s1", "s4"), ("s2",), ("s2", "s1", "s2"))],
        "ham.evolve": [lambda w, x=x: w["ham"].get_time_evolution_operator(x) for x in (0.3, -0.3, 0.30001, 0)],
        "ham.ideal": [lambda w, x=x, k=k: w["ham"].get_ideal_sequence(x, k) for x, k in ((0.3, 2), (0.3, 3), (0.6, 2), (-0.3, 1))],
        "ham.trotter": [lambda w, x=x: run_fixed(lambda: w["ham"].get_trotter_sequence(*x)) for x in ((0.7, 3, True), (0.7, 2), (0.7, 1, True), (-0.2, 2))],
        "ham.qdrift": [lambda w, x=x: run_fixed(lambda: w["ham"].get_qdrift_sequence(*x)) for x in ((0.7, 3), (0.7, 2), (-0.7, 4))],
        "ham.stoq": [lambda w, x=x: run_fixed(lambda: w["ham"].compile_stoq_sequence(*x)) for x in ((0.5, 1.0, 0.6, True), (0.5, 1.0, 0.6), (0.2, 0.5, 0.6))],
        "ham.rav": [lambda w, x=x: run_fixed(lambda: w["ham"].compile_rav_sequence(*x)) for x in ((1.0, 1.0, 0.3), (2.0, 1.0, 0.3), (0.4, 0.5, 0.3, True))],
        "random_entry": [lambda w, k=k: run_fixed(lambda: Compiler.create_random_sequence_entry(4, w["raw"]["prims"], w["raw"]["probs"]), k) for k in (1, 2, 3)],
        "random_layer": [lambda w, k=k: run_fixed(lambda: Compiler.create_random_layer(4, w["raw"]["counts"]), k) for k in (1, 2, 3)],
        "rav": [lambda w, x=x, k=k: run_fixed(lambda: Verification.generate_rav_sequence(4, w["raw"]["prims"], x, 0.99, 0.5, None, k)) for x, k in ((3, 3), (2, 5), (1, 0), (0, 2))],
        "layered_rav": [lambda w, x=x, k=k: run_fixed(lambda: Verification.generate_layered_rav_sequence(4, w["raw"]["counts"], x, 0.99, 0.5, k)) for x, k in ((2, 2), (1, 3), (1, 0))],
        "xeb": [lambda w, x=x: run_fixed(lambda: Verification.generate_xeb_sequence(4, w["raw"]["counts"], x)) for x in (1, 2, 3)],
        "gates": [lambda w, f=f, a=a: f(*a) for f, a in ((D.rx, (0.4,)), (D.rx, (0.5,)), (D.rz, (0.4,)), (D.xx, (0.4,)), (D.xx, ()), (D.gms, (2, 0.4)), (D.gms, (2,)), (Unitary.identity, (2,)), (Unitary.identity, (4,)))],
    }
    for c in ("c1", "c2", "c3"):
        V[c] = [lambda w, c=c, k=k, p=p, n=n: run_fixed(lambda: w[c].compile(t(4, g(4, k)), p, n), k) for k, p, n in ((1, 0.99, 5), (2, 0.99, 3), (3, 0.2, 4), (1, None, 0), (2, 0.99, 7))]
        V[c] += [lambda w, c=c, k=k, n=n: run_fixed(lambda: w[c].compile_layered(t(4, g(4, k)), w["raw"]["counts"], 0.99, n), k) for k, n in ((1, 3), (2, 2), (2, 0))]
    return V


def same_method(task, part, parts):
    """the same method again with other arguments (twice): the results so far stay what they are alone"""
    for i, (name, fs) in enumerate(sorted(variants().items())):
        if i % parts != part:
            continue
        alone = [obs(f(build())) for f in fs]
        for k in (2, 3):
            for order in itertools.product(range(len(fs)), repeat=k) if len(fs) < 6 or k < 3 else ():
                w = build()
                task.case = dict(method=name, variants=order)
                res = [fs[j](w) for j in order]
                m = None
                for n, (j, r) in enumerate(zip(order, res)):
                    d = diff(alone[j], obs(r), "the result")
                    if d:
                        m = m or f"{name} called with arguments {order} (numbers of variants): {d} of call {n} is not what it is alone"
                task.traces += 1
                task.transitions += k
                task.outcome((name, order))
                if m:
                    task.violation(m, case=task.case)
    task.states += 1


def triples(task, part, parts):
    o = ops()
    lib_only = [i for i, (nm, _, ed) in enumerate(o) if nm.split(".")[0] in ("s1", "s3", "s2", "c1", "ham", "ux", "e1", "e2", "rav", "layered_rav")
                or nm.startswith(("combine", "random"))]
    for j in lib_only:
        for k in lib_only:
            one(task, (part, j, k), o)
    task.states += 1


# ---- arrays of every size, content and layout; collections of every size ---------------------------

def contents(dim):
    g = ref.generic_unitary(dim, 3)
    dust = g.copy()
    dust[0, 1] += 4e-14j
    dust[dim - 1, 0] -= 3e-13
    small = np.eye(dim, dtype=complex)
    small[0, dim - 1] = 5e-13 + 2e-13j
    small[dim - 1, 0] = -3e-14
    perm = np.roll(np.eye(dim), 1, axis=0)
    return [("generic", g), ("dust", dust), ("small", small), ("real", perm), ("int", perm.astype(int)), ("phase", np.exp(0.3j) * g), ("negative zeros", -0.0 - perm)]


def herm(dim):
    h = ref.generic_hermitian(dim, 2)
    dust = h.copy()
    dust[0, 1] += 2e-14j
    dust[0, 0] += 0
    return [("generic", h), ("dust", dust), ("real", np.ascontiguousarray(h.real)), ("int", np.diag(np.arange(1, dim + 1))), ("complex64", h.astype(np.complex64)),
            ("small", np.diag([1.0] + [1e-13] * (dim - 1)))]


def layouts(m):
    """(name, the array handed over, the buffer it lives in)"""
    d = m.shape[0]
    out = [("C", m.copy()), ("F", np.asfortranarray(m)), ("T", np.ascontiguousarray(m.T).T)]
    out = [(n, a, a) for n, a in out]
    big = np.full((d + 2, 2 * d + 1), 7, dtype=m.dtype)
    big[1:-1, 0:2 * d:2] = m
    out.append(("strided", big[1:-1, 0:2 * d:2], big))
    rev = np.ascontiguousarray(m[::-1, ::-1])
    out.append(("reversed", rev[::-1, ::-1], rev))
    ro = m.copy()
    ro.setflags(write=False)
    out.append(("read-only", ro, ro))
    return out


def arrays(task, dim):
    n = dim.bit_length() - 1
    u = Unitary(dim, ref.generic_unitary(dim, 8))
    unit = [("Unitary", lambda a: Unitary(dim, a)), ("named", lambda a: Unitary(dim, a, "G")), ("entry", lambda a: UnitarySequenceEntry(Unitary(dim, a), list(range(n))[::-1])),
            ("entry of a larger system", lambda a: UnitarySequence(2 * dim, [UnitarySequenceEntry(Unitary(dim, a), list(range(1, n + 1)))])),
            ("left_multiply", lambda a: u.left_multiply(Unitary(dim, a))), ("right_multiply", lambda a: u.right_multiply(Unitary(dim, a))),
            ("inverse", lambda a: Unitary(dim, a).inverse()), ("tensor", lambda a: Unitary(2, ref.X).tensor(Unitary(dim, a))),
            ("distance", lambda a: u.distance_from(a)), ("close_to", lambda a: u.close_to(a, 1.3)), ("distance (own)", lambda a: Unitary(dim, a).distance_from(a)),
            ("primitive", lambda a: UnitaryPrimitive(Unitary(dim, a)).get_unitary()),
            ("compile", lambda a: run_fixed(lambda: Compiler(dim, [UnitaryPrimitive(D.rx(0.4)), UnitaryPrimitive(Unitary(dim, a))]).compile(Unitary(dim, a), 0.999, 2)))]
    hm = [("term", HamiltonianTerm), ("time_evolution", lambda a: D.time_evolution(a, 0.3)), ("named evolution", lambda a: D.time_evolution(a, 0.3, "x")),
          ("parameterized evolution", lambda a: PD.time_evolution(a, -1, 1).as_unitary([0.3])),
          ("Hamiltonian", lambda a: Hamiltonian([HamiltonianTerm(a)]).get_time_evolution_operator(0.2)),
          ("ideal sequence", lambda a: Hamiltonian([HamiltonianTerm(a)]).get_ideal_sequence(0.2, 2))]
    for kind, mats, calls in (("unitary", contents(dim), unit), ("Hermitian", herm(dim), hm)):
        for cname, m in mats:
            for name, f in calls:
                if dim > 16 and name in ("compile", "ideal sequence") and cname not in ("generic", "dust"):
                    continue
                expect = None
                for k, (lname, a, buf) in enumerate(layouts(m)):
                    task.case = dict(dim=dim, content=cname, call=name, layout=lname)
                    before, flags = buf.tobytes(), (a.dtype, a.shape, a.strides, a.flags.writeable)
                    try:
                        r = f(a)
                    except Exception as e:
                        r = "refused: " + type(e).__name__
                    task.traces += 1
                    task.transitions += 2
                    task.outcome((dim, cname, name, lname))
                    if buf.tobytes() != before or (a.dtype, a.shape, a.strides, a.flags.writeable) != flags:
                        task.violation(f"{name} of a {dim} x {dim} {kind} matrix ({cname}, {lname}) changed the caller's array", case=task.case)
                        continue
                    if lname != "read-only":
                        buf += 3
                    try:
                        o = r if isinstance(r, str) else obs(r)
                    except Exception as e:
                        o = "fails: " + type(e).__name__
                    if expect is None:
                        try:
                            x = f(m.copy())
                            expect = obs(x)
                        except Exception as e:
                            expect = "refused: " + type(e).__name__
                    d = diff(expect, o, "the result") if not isinstance(expect, str) and not isinstance(o, str) else None if expect == o else "whether it fails"
                    if d:
                        task.violation(f"{name} of a {dim} x {dim} {kind} matrix ({cname}, {lname}), whose array is edited afterwards: {d} is not what it should be", case=task.case)
    task.states += 1


def many_entries(k):
    us = [D.rx(0.1 + i) for i in range(3)] + [D.cnot(), Unitary(4, ref.generic_unitary(4, 2), "B")]
    return [UnitarySequenceEntry(us[i % 5], [i % 2] if i % 5 < 3 else [i % 2, 1 - i % 2]) for i in range(k)]


def many_prims(k):
    ps = [UnitaryPrimitive(D.rx(0.1 * i + 0.1), [[i % 2]]) if i % 3 else UnitaryPrimitive(PD.rotation_xy()) if i % 2 else UnitaryPrimitive(D.cnot(), [[1, 0]]) for i in range(k)]
    pr = [1.0 + i % 4 for i in range(k)]
    return ps, [p / sum(pr) for p in pr]


SIZES = (1, 2, 3, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129)
# (name, size -> inputs (lists, arrays, dicts), call, whether the list holds objects)
COLL = [
    ("sequence of a list", lambda k: [many_entries(k)], lambda es: UnitarySequence(4, es)),
    ("sequence of an array", lambda k: [np.array(many_entries(k) + [None], dtype=object)[:-1]], lambda es: UnitarySequence(4, es)),
    ("sequence, grown", lambda k: [many_entries(k)], lambda es: grown(UnitarySequence(4, es))),
    ("sequence, inverted", lambda k: [many_entries(k)], lambda es: UnitarySequence(4, es).inverse()),
    ("sequences, combined", lambda k: [many_entries(k)], lambda es: UnitarySequence.combine(UnitarySequence(4, es), UnitarySequence(4, es))),
    ("compiler", lambda k: list(many_prims(k)), lambda ps, pr: run_fixed(lambda: Compiler(4, ps, pr).compile(Unitary(4, ref.generic_unitary(4, 8)), 0.99, 5))),
    ("compiler (array of probabilities)", lambda k: [many_prims(k)[0], np.array(many_prims(k)[1])],
     lambda ps, pr: run_fixed(lambda: Compiler(4, ps, pr).compile(Unitary(4, ref.generic_unitary(4, 8)), 0.99, 5))),
    ("random entry", lambda k: list(many_prims(k)), lambda ps, pr: run_fixed(lambda: Compiler.create_random_sequence_entry(4, ps, pr))),
    ("random entry (array)", lambda k: [many_prims(k)[0], np.array(many_prims(k)[1])], lambda ps, pr: run_fixed(lambda: Compiler.create_random_sequence_entry(4, ps, pr))),
    ("random layer", lambda k: [dict(zip(many_prims(k)[0], [1 + i % 3 for i in range(k)]))], lambda c: run_fixed(lambda: Compiler.create_random_layer(4, c))),
    ("layered", lambda k: [dict(zip(many_prims(k)[0], [1] * k))],
     lambda c: run_fixed(lambda: Compiler(4, list(c)).compile_layered(Unitary(4, ref.generic_unitary(4, 8)), c, 0.99, 2))),
    ("rav", lambda k: list(many_prims(k)), lambda ps, pr: run_fixed(lambda: Verification.generate_rav_sequence(4, ps, 3, 0.9, 0.5, pr, 3))),
    ("xeb", lambda k: [dict(zip(many_prims(k)[0], [1 + i % 3 for i in range(k)]))], lambda c: run_fixed(lambda: Verification.generate_xeb_sequence(4, c, 2))),
    ("allowed lists", lambda k: [[[i % 3, (i + 1 + i // 3 % 2) % 3] for i in range(k)]], lambda al: UnitaryPrimitive(D.cnot(), al)),
    ("allowed lists, in a compiler", lambda k: [[[i % 3, (i + 1 + i // 3 % 2) % 3] for i in range(k)]],
     lambda al: run_fixed(lambda: Compiler(8, [UnitaryPrimitive(D.cnot(), al)]).compile(Unitary(8, ref.generic_unitary(8, 8)), 0.99, 4))),
    ("terms", lambda k: [[HamiltonianTerm(ref.generic_hermitian(2, i % 7)) for i in range(k)]], lambda ts: Hamiltonian(ts).get_trotter_sequence(0.4, 2)),
    ("terms, evolution", lambda k: [[HamiltonianTerm(ref.generic_hermitian(2, i % 7)) for i in range(k)]], lambda ts: Hamiltonian(ts).get_time_evolution_operator(0.4)),
    ("terms, stoq", lambda k: [[HamiltonianTerm(ref.generic_hermitian(2, i % 7)) for i in range(k)]],
     lambda ts: run_fixed(lambda: Hamiltonian(ts).compile_stoq_sequence(0.4, 1.0, 0.9, True))),
    ("parameters", lambda k: [[ParameterizedUnitaryParameter(f"p{i}", -1, 1 + i, i % 2 == 0) for i in range(k)], [0.1 * (i % 9) for i in range(k)]],
     lambda ps, vs: ParameterizedUnitary(2, lambda *v: ref.rz(sum(v)), ps, "C").as_unitary(vs)),
    ("parameters, kept", lambda k: [[ParameterizedUnitaryParameter(f"p{i}", -1, 1 + i, i % 2 == 0) for i in range(k)]],
     lambda ps: ParameterizedUnitary(2, lambda *v: ref.rz(sum(v)), ps, "C").as_unitary([0.1 * (i % 9) for i in range(len(ps))])),
    ("values (array)", lambda k: [np.array([0.1 * (i % 9) for i in range(k)])],
     lambda vs: ParameterizedUnitary(2, lambda *v: ref.rz(sum(v)), [ParameterizedUnitaryParameter(f"p{i}", -1, 1 + i, i % 2 == 0) for i in range(len(vs))], "C").as_unitary(vs)),
    ("parameter dictionary", lambda k: [{f"p{i}": (0.1 * i, i % 2 == 0) for i in range(k)}], lambda d: Unitary(2, ref.X, "G", d)),
]


def grown(s):
    s.product()
    s.append_first(UnitarySequenceEntry(D.h(), [0]))
    s.append_last(UnitarySequenceEntry(D.h(), [1]), save_undo=False)
    return s


def image(x):
    """contents, by identity for objects"""
    if isinstance(x, dict):
        return [(id(k) if not isinstance(k, str) else k, v) for k, v in x.items()]
    if isinstance(x, np.ndarray):
        return (x.dtype, x.shape, x.tobytes())
    return [image(y) if isinstance(y, list) else y if isinstance(y, (int, float)) else id(y) for y in x]


def collections(task, part, parts, sizes):
    """the caller's collections of every size: unchanged by the call, and free to be edited afterwards"""
    for i, (name, make, f) in enumerate(COLL):
        if i % parts != part:
            continue
        for k in sizes:
            if k > {"terms, stoq": 5, "xeb": 33, "layered": 33}.get(name, 10 ** 9):
                continue
            task.case = dict(call=name, size=k)
            expect = obs(f(*make(k)))
            n = len(make(k))
            for j in range(n + 1):
                raw = make(k)
                before = [image(x) for x in raw]
                r = f(*raw)
                if [image(x) for x in raw] != before:
                    task.violation(f"{name} of {k} changed the caller's collection", case=task.case)
                    break
                if j < n:
                    x = raw[j]
                    if isinstance(x, list) and isinstance(x[0], list):
                        x[-1][0] = 9
                    scramble(x)
                d = diff(expect, obs(r), "the result")
                task.traces += 1
                task.transitions += 2
                task.outcome((name, k, j))
                if d:
                    task.violation(f"{name} of {k}, whose collection is edited afterwards: {d} is not what it should be", case=task.case)
                    break
    task.states += len(sizes)
