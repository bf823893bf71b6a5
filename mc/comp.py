"""Compilation under controlled randomness: configurations, identification of entries, reference Markov chain."""
import copy
import itertools
import math

import numpy as np

from . import lib, ref, rng
from .choice import DEFAULT_CELLS, HarnessError, Path, explore
from stoqcompiler.compiler import Compiler
from stoqcompiler.unitary import (ParameterizedUnitary, ParameterizedUnitaryDefinitions as PD,
                                  ParameterizedUnitaryParameter, Unitary, UnitaryPrimitive)

PI2 = 2 * math.pi
HALVES = ((0.2, 0.5), (0.8, 0.5))


def custom_matrix(a, b):
    return ref.rz(3 * a) @ ref.ry(a + 2 * b)


# label -> (names, ranges, reference function, number of qubits)
def param_info(g):
    k = g[1]
    if k == "xy":
        return ["theta", "phi"], [(0, PI2)] * 2, ref.rphi, 1
    if k == "xyz":
        return ["alpha", "beta", "gamma"], [(0, PI2)] * 3, ref.rxyz, 1
    if k == "xx":
        return ["theta"], [(0, PI2)], ref.xx, 2
    if k == "gms":
        return ["theta"], [(0, PI2)], lambda t: ref.gms(g[2], t), g[2]
    if k == "te":       # ("p", "te", qubits, hermitian index, tmin, tmax)
        h = ref.generic_hermitian(2 ** g[2], g[3])
        return ["t"], [(g[4], g[5])], lambda t: ref.expm_h(h, t), g[2]
    if k == "custom":   # ("p", "custom", lo1, hi1, lo2, hi2)
        return ["a", "b"], [(g[2], g[3]), (g[4], g[5])], custom_matrix, 1
    if k == "ham":      # ("p", "ham", qubits, terms, subset, tmax): evolution under the sum of some terms
        h = sum(term_matrix(g[3][i]) for i in g[4])
        return ["t"], [(-g[5], g[5])], lambda t: ref.expm_h(h, t), g[2]
    raise KeyError(k)


PAULI = dict(I=ref.I2, X=ref.X, Y=ref.Y, Z=ref.Z)


def term_matrix(t):
    """("g", qubits, k, factor), ("pz", diagonal...) or ("XZ", factor): a Hermitian matrix"""
    if t[0] == "g":
        return t[3] * ref.generic_hermitian(2 ** t[1], t[2])
    if t[0] == "gp":        # ("gp", qubits, k, factor, epsilon, k2): nearly a multiple of another
        return t[3] * (ref.generic_hermitian(2 ** t[1], t[2]) + t[4] * ref.generic_hermitian(2 ** t[1], t[5]))
    if t[0] == "pz":        # diagonal
        return np.diag(np.array(t[1:], dtype=complex))
    m = np.array([[1.0 + 0j]])
    for ch in t[0]:
        m = np.kron(m, PAULI[ch])
    return t[1] * m


def lib_op(g):
    """library Unitary or ParameterizedUnitary of a label"""
    if g[0] != "p":
        return lib.lib_gate(g)
    k = g[1]
    if k == "te":
        return PD.time_evolution(ref.generic_hermitian(2 ** g[2], g[3]), g[4], g[5], str(g[3]))
    if k == "gms":
        return PD.gms(g[2])
    if k == "custom":
        return ParameterizedUnitary(2, custom_matrix, [
            ParameterizedUnitaryParameter("a", g[2], g[3], False),
            ParameterizedUnitaryParameter("b", g[4], g[5], True)], "custom")
    return dict(xy=PD.rotation_xy, xyz=PD.rotation_xyz, xx=PD.xx)[k]()


def qubits_of(g):
    if g[0] == "p":
        return param_info(g)[3]
    return int(round(math.log2(lib.ref_gate(g).shape[0])))


class Config:
    """n qubits; prims: [(label, allowed qubit lists or None)]; counts: per layer (layered) or None."""

    def __init__(self, n, prims, probs=None, append=0.5, rate=0.1, target=("gen", None, 5), threshold=None,
                 counts=None, array=False, default_args=False):
        self.n, self.dim = n, 2 ** n
        self.prims = [(_t(g), None if a is None else [tuple(q) for q in a]) for g, a in prims]
        self.probs, self.append, self.rate = probs, append, rate
        self.threshold, self.counts, self.array = threshold, counts, array
        self.default_args = default_args
        t = _t(target)
        if t[0] == "gen" and t[1] is None:
            t = ("gen", self.dim, t[2])
        self.target = t
        if t[0] == "word":      # product of entries of the primitives: [(label, qubits), ...]
            self.tmat = lib.ref_product([(_t(g), tuple(q)) for g, q in t[1]], n)
        else:
            self.tmat = lib.ref_gate(t)
        self._opts = {}
        self._prod = {(): np.eye(self.dim, dtype=complex)}
        self._cost = {}
        self._ident = {}

    def with_target(self, matrix):
        """the same configuration with another target"""
        c = copy.copy(self)
        c.tmat, c._cost = matrix, {}
        return c

    # -- library side
    def lib_prims(self):
        ps = [UnitaryPrimitive(lib_op(g), None if a is None else [list(q) for q in a]) for g, a in self.prims]
        if self.array:
            arr = np.empty(len(ps), dtype=object)
            arr[:] = ps
            return arr
        return ps

    def compiler(self, prims=None):
        prims = self.lib_prims() if prims is None else prims
        if self.default_args:
            return Compiler(self.dim, prims)
        return Compiler(self.dim, prims, unitary_primitive_probabilities=self.probs,
                        append_probability=self.append, annealing_rate=self.rate)

    def lib_target(self):
        return Unitary(self.dim, self.tmat)

    def call(self, budget, compiler=None, target=None):
        """one compilation; returns the library's result object"""
        prims = None
        if compiler is None:
            prims = self.lib_prims()
            compiler = self.compiler(prims)
        target = target or self.lib_target()
        if self.counts is None:
            return compiler.compile(target, self.threshold, budget)
        prims = self.lib_prims() if prims is None else prims
        return compiler.compile_layered(target, dict(zip(prims, self.counts)), self.threshold, budget)

    # -- identification of what came back
    def ident_entry(self, e):
        """(primitive index, parameter values, qubits) of a library entry, or None when it is not permitted"""
        full = e.get_full_unitary(self.dim)
        m = full.get_matrix()
        q = tuple(int(x) for x in e.get_apply_to())
        key = (q, full.get_operation_name(), m.tobytes(), repr(full.get_display_name()))
        if key not in self._ident:
            self._ident[key] = self._find(full, m, q)
        return self._ident[key]

    def _find(self, full, m, q):
        for i, (g, allowed) in enumerate(self.prims):
            if allowed is not None and q not in allowed:
                continue
            if len(q) != qubits_of(g) or (q and max(q) >= self.n) or len(set(q)) != len(q):
                continue
            vals = ()
            if g[0] == "p":
                names, ranges, f, _ = param_info(g)
                vs = [full.get_parameter_value(nm) for nm in names]
                if any(v is None for v in vs):
                    continue
                vals = tuple(float(v[0]) for v in vs)
                if not all(lo <= v <= hi for v, (lo, hi) in zip(vals, ranges)):
                    continue
                u = f(*vals)
            else:
                u = lib.ref_gate(g)
            if ref.phase_diff(m, ref.embed(u, q, self.n)) < 1e-7:
                return (i, tuple(round(v, 9) + 0.0 for v in vals), q)
        return None

    def ident_seq(self, seq):
        """labels of all entries (None where not permitted), after checking the product against them"""
        return tuple(self.ident_entry(e) for e in seq.get_sequence_entries())

    # -- reference side
    def options(self, i, cells):
        """[(probability, label)] of a random entry made from primitive i"""
        if (i, cells) not in self._opts:
            g, allowed = self.prims[i]
            ranges = param_info(g)[1] if g[0] == "p" else []
            lists = allowed if allowed is not None else list(itertools.permutations(range(self.n), qubits_of(g)))
            d = {}
            for cs in itertools.product(cells, repeat=len(ranges)):
                w = math.prod(c[1] for c in cs)
                vals = tuple(round(lo + (hi - lo) * c[0], 9) + 0.0 for c, (lo, hi) in zip(cs, ranges))
                for q in lists:
                    lab = (i, vals, q)
                    d[lab] = d.get(lab, 0.0) + w / len(lists)
            self._opts[(i, cells)] = [(w, lab) for lab, w in d.items()]
        return self._opts[(i, cells)]

    def entry_dist(self, cells=DEFAULT_CELLS):
        """[(probability, label)] of a random entry"""
        ok = [i for i, (_, a) in enumerate(self.prims) if a is None or len(a)]
        ws = [1.0 if self.probs is None else float(self.probs[i]) for i in ok]
        return [(w / sum(ws) * p, lab) for w, i in zip(ws, ok) if w > 0 for p, lab in self.options(i, cells)]

    def layer_dist(self, cells=DEFAULT_CELLS):
        """[(probability, tuple of labels)] of a random layer"""
        kinds = [i for i, c in enumerate(self.counts) for _ in range(c)]
        orders = {}
        perms = list(itertools.permutations(kinds))
        for p in perms:
            orders[p] = orders.get(p, 0) + 1 / len(perms)
        out = []
        for order, w in orders.items():
            for combo in itertools.product(*[self.options(i, cells) for i in order]):
                out.append((w * math.prod(c[0] for c in combo), tuple(c[1] for c in combo)))
        return out

    def layer_factors(self, labs, cells=DEFAULT_CELLS):
        """the probability of one random layer, as factors ([0.0]: impossible)"""
        kinds = [x[0] for x in labs]
        if [kinds.count(i) for i in range(len(self.counts))] != list(self.counts):
            return [0.0]
        out, left = [], list(self.counts)
        for lab in labs:
            one = dict((x, p) for p, x in self.options(lab[0], cells))
            out.append(left[lab[0]] / sum(left) * one.get(lab, 0.0))
            left[lab[0]] -= 1
        return out

    def matrix(self, lab):
        i, vals, q = lab
        g = self.prims[i][0]
        return ref.embed(param_info(g)[2](*vals) if g[0] == "p" else lib.ref_gate(g), q, self.n)

    def prod(self, labs):
        if len(labs) > 200:       # not kept
            if getattr(self, "_last", (None,))[0] != labs:
                m = self.prod(labs[:200])
                for x in labs[200:]:
                    m = self.matrix(x) @ m
                self._last = (labs, m)
            return self._last[1]
        if labs not in self._prod:
            self._prod[labs] = self.matrix(labs[-1]) @ self.prod(labs[:-1])
        return self._prod[labs]

    def cost(self, labs):
        if labs not in self._cost:
            self._cost[labs] = ref.distance(self.tmat, self.prod(labs))
        return self._cost[labs]

    def met(self, labs):
        t = 1.0 if self.threshold is None else self.threshold
        d = self.cost(labs) - (1.0 - t)
        if 2e-9 < abs(d) < 1e-7:
            raise HarnessError("ambiguous threshold in the configuration")
        return d < 5e-9

    def beta(self, step):
        return min(self.rate * step, (2.0 ** self.dim) ** 2)

    def proposals(self, labs, cells=DEFAULT_CELLS):
        """[(probability, proposed sequence)]; in a layered search each element of labs is a whole layer's label"""
        half = self.append / 2
        out = []
        if half > 0:
            if self.counts is None:
                new = [(p, (e,)) for p, e in self.entry_dist(cells)]
            else:
                # AppendFirst puts a layer's entries one by one at the front: any order is a random order
                new = self.layer_dist(cells)
            for p, e in new:
                out.append((half * p, tuple(e) + labs))
                out.append((half * p, labs + tuple(e)))
        rem = (1 - self.append) / 2
        if rem > 0:
            k = 1 if self.counts is None else sum(self.counts)
            out.append((rem, labs[k:]))
            out.append((rem, labs[:-k] if k else labs))
        return out

    def step_dist(self, labs, step, cells=DEFAULT_CELLS):
        """{(next sequence, cost): probability} of step number `step` (1-based) from labs"""
        out = {}
        c0, b = self.cost(labs), self.beta(step)
        for p, new in self.proposals(labs, cells):
            c1 = self.cost(new)
            a = math.exp(min(0.0, -b * (c1 - c0)))
            for w, s, c in ((a, new, c1), (1 - a, labs, c0)):
                if w > 1e-12:
                    k = (s, rc(c))
                    out[k] = out.get(k, 0.0) + p * w
        return out

    def ref_dist(self, budget, cells=DEFAULT_CELLS):
        """{(final sequence, costs): probability} of a whole compilation"""
        live, done = {((), ()): 1.0}, {}
        cache = {}
        for step in range(1, budget + 1):
            nxt = {}
            for (labs, costs), w in live.items():
                if self.met(labs):
                    done[(labs, costs)] = done.get((labs, costs), 0.0) + w
                    continue
                if (labs, step) not in cache:
                    cache[(labs, step)] = self.step_dist(labs, step, cells)
                for (s, c), p in cache[(labs, step)].items():
                    k = (s, costs + (c,))
                    nxt[k] = nxt.get(k, 0.0) + w * p
            live = nxt
        for k, w in live.items():
            done[k] = done.get(k, 0.0) + w
        return done


def rc(c):
    return float(round(float(c), 6)) + 0.0


def _t(x):
    return tuple(_t(y) for y in x) if isinstance(x, (list, tuple)) else x


class Bad(Exception):
    """A result that violates the property; carries the message."""


def observe(cfg, result):
    """(labels, costs) of a compiler result, raising Bad for what no execution may return"""
    seq = result.compiled_sequence
    labs = cfg.ident_seq(seq)
    costs = [float(c) for c in result.cost_by_step]
    if None in labs:
        k = labs.index(None)
        e = seq.get_sequence_entries()[k]
        raise Bad(f"entry {k} ({e.get_full_unitary(cfg.dim).get_display_name()} on {list(e.get_apply_to())}) "
                  f"is not a permitted primitive")
    if seq.get_dimension() != cfg.dim or seq.get_length() != len(labs):
        raise Bad("dimension or length of the sequence is wrong")
    d = ref.phase_diff(seq.product().get_matrix(), cfg.prod(labs))
    if not d < 1e-6:
        raise Bad(f"product of the returned sequence is not the product of its entries (off by {d:.2g})")
    return labs, costs


def tree(cfg, run, task, cells=DEFAULT_CELLS, max_leaves=400000, base=(), default=None, deviations=None, horizon=None):
    """Every execution of run(): yields (path, labels, costs, result); run is called under control."""
    st = {}

    def go(path):
        with rng.controlled(path):
            return run()
    try:
        for path, result in explore(go, cells=cells, stats=st, max_leaves=max_leaves, base=base, default=default,
                                    deviations=deviations, horizon=horizon):
            task.case = dict(choices=path.trace())
            labs, costs = observe(cfg, result)
            yield path, labs, costs, result
    finally:
        task.traces += st.get("executions", 0) - st.get("cut", 0)
        task.transitions += st.get("choices", 0)
        if st.get("cut"):
            task.count("executions_cut_at_horizon", st["cut"])


def code_dist(cfg, run, task, **kw):
    """{(labels, costs): probability} over every execution"""
    out = {}
    for path, labs, costs, _ in tree(cfg, run, task, **kw):
        k = (labs, tuple(rc(c) for c in costs))
        out[k] = out.get(k, 0.0) + path.weight_from(len(kw.get("base", ())))
    return out


def compare_dist(task, got, want, what, tol=1e-9):
    """reports the largest difference between two distributions"""
    worst, at = 0.0, None
    for k in set(got) | set(want):
        d = abs(got.get(k, 0.0) - want.get(k, 0.0))
        if d > worst:
            worst, at = d, k
    task.count("distribution_outcomes", len(want))
    if worst > tol:
        task.violation(f"{what}: probability of an outcome is {got.get(at, 0.0):.9g}, should be {want.get(at, 0.0):.9g}",
                       case=dict(outcome=at), outcomes_got=len(got), outcomes_wanted=len(want))
        return False
    return True


def compare_bound(task, run, factors, policy, what, tol=1e-9, deviations=1):
    """Every execution departing at most `deviations` times from a policy: the outcomes reached, however many executions lead
    to each of them, have at most their exact probability (factors(outcome): its probability as a list of factors).
    Probabilities are compared as logarithms: they are tiny."""
    st, got = {}, {}

    def go(path):
        with rng.controlled(path):
            return run(path)
    for path, out in explore(go, stats=st, max_leaves=400000, deviations=deviations, default=policy):
        w = sum(math.log(p.weights[p.alts[p.pos]]) for p in path.points)
        got.setdefault(out, []).append(w)
    task.traces += st["executions"]
    task.transitions += st["choices"]
    task.states += len(got)
    for out, ws in got.items():
        fs = factors(out)
        top = max(ws)
        w = top + math.log(sum(math.exp(x - top) for x in ws))
        if min(fs, default=1.0) <= 0.0:
            task.violation(f"{what}: an impossible outcome", case=dict(outcome=out))
        elif w > sum(map(math.log, fs)) + 1e-6:
            task.violation(f"{what}: an outcome is {math.exp(w - sum(map(math.log, fs))):.6g} times as likely as it should be", case=dict(outcome=out))
    return got


def pattern(a, b):
    """a deterministic default policy for long executions"""
    return lambda i, n, label: (i * a + b + i // 7) % n


def mixed(k, accept=4):
    """a deterministic, irregular default policy; comparisons mostly (all but 1 in `accept`) succeed"""
    def policy(i, n, label):
        h = ((i + 1) * 2654435761 + k * 40503 * (i + 7)) % (1 << 32) >> 9
        if label == "below":
            return 1 if h % accept == 0 else 0
        return h % n
    return policy


def long_run(cfg, run, policy, cells=DEFAULT_CELLS):
    """one execution under a fixed policy; returns (positions, result)"""
    path = Path((), policy, None, cells)
    with rng.controlled(path):
        result = run()
    return path.positions(), result
