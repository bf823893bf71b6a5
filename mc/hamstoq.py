"""Hamiltonian compilations: configurations, and a way to bound the built-in number of steps from outside.

`limited(m)` makes the public Compiler.compile stop after at most m steps while it is called from elsewhere in the
package, and records the limit that was asked for.  If nothing calls it, nothing is recorded (see `bounded`).
"""
import inspect

from . import comp, ham
from .comp import Config, HALVES, _t
from stoqcompiler.compiler import Compiler

BUILT_IN = 10000


class limited:
    def __init__(self, m):
        self.m, self.asked = m, []

    def __enter__(self):
        self.orig = orig = Compiler.__dict__["compile"]
        sig = inspect.signature(orig)

        def compile(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            self.asked.append(int(b.arguments["max_step_count"]))
            b.arguments["max_step_count"] = min(self.m, b.arguments["max_step_count"])
            return orig(*b.args, **b.kwargs)
        Compiler.compile = compile
        return self

    def __exit__(self, *a):
        Compiler.compile = self.orig
        return False


def config(name, tmax, simultaneous, time=None, threshold=None):
    """the compilation the documentation describes; equal choices of terms are one primitive of their joint weight"""
    terms = _t(ham.terms_of(name))
    n = ham.qubits(terms)
    weight, first = {}, {}
    for s in ham.subsets(terms, simultaneous):
        k = tuple(sorted(map(repr, (terms[i] for i in s))))
        first.setdefault(k, s)
        weight[k] = weight.get(k, 0) + 1
    tot = sum(weight.values())
    cfg = Config(n, [(("p", "ham", n, terms, first[k], tmax), [tuple(range(n))]) for k in weight],
                 probs=[weight[k] / tot for k in weight], threshold=threshold, target=("i", 2 ** n))
    if time is not None:
        cfg = cfg.with_target(comp.ref.expm_h(ham.total(terms), time))
    return cfg, terms
