"""Shims over numpy.random and random: pass-through normally, choice points under a Path.

`with controlled(path): ...` turns every draw into `path.choose(...)` calls with exact probabilities.
"""
import itertools
import math
import random as _random

import numpy as np

from .choice import HarnessError

CURRENT = None
DUST = 1e-12        # less likely outcomes of a comparison are not explored
MAX_DRAWS = 200000   # per execution; a runaway loop hits this or the time limit


class TooManyDraws(Exception):
    """The execution draws random numbers without end."""


class controlled:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        global CURRENT
        self.old = CURRENT
        CURRENT = self.path
        return self.path

    def __exit__(self, *a):
        global CURRENT
        CURRENT = self.old
        return False


def _tick():
    CURRENT.draws += 1
    if CURRENT.draws > MAX_DRAWS:
        raise TooManyDraws(f"more than {MAX_DRAWS} random draws in one execution")


class U:
    """A uniform number in [0,1), decided lazily: comparing forks, other use concretises it."""
    __slots__ = ("path", "lo", "hi", "value")
    __array_priority__ = 1e9

    def __init__(self, path):
        self.path = path
        self.lo = 0.0
        self.hi = 1.0
        self.value = None

    def _fix(self):
        if self.value is None:
            cells = self.path.cells
            k = self.path.choose([w for _, w in cells], "cell")
            self.value = self.lo + (self.hi - self.lo) * cells[k][0]
        return self.value

    def _below(self, x):
        """u < x (equality has probability zero)"""
        if self.value is not None:
            return self.value < x
        if math.isnan(x):
            return False
        p = (x - self.lo) / (self.hi - self.lo)
        p = min(1.0, max(0.0, p))
        if p <= DUST:
            return False
        if p >= 1.0 - DUST:
            return True
        if self.path.choose([p, 1.0 - p], "below") == 0:
            self.hi = x
            return True
        self.lo = x
        return False

    @staticmethod
    def _num(x):
        if isinstance(x, U):
            return x._fix()
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise HarnessError("array comparison with a lazy uniform")
            return float(x.reshape(-1)[0])
        return float(x)

    def __lt__(self, x):
        return self._below(self._num(x))

    def __le__(self, x):
        if self.value is not None:
            return self.value <= self._num(x)
        return self._below(self._num(x))

    def __gt__(self, x):
        if math.isnan(self._num(x)):
            return False
        return not self.__le__(x)

    def __ge__(self, x):
        if math.isnan(self._num(x)):
            return False
        return not self.__lt__(x)

    def __eq__(self, x):
        return self._fix() == x

    def __ne__(self, x):
        return self._fix() != x

    __hash__ = None

    def __float__(self):
        return self._fix()

    def __int__(self):
        return int(self._fix())

    def __bool__(self):
        return bool(self._fix())

    def __repr__(self):
        return "U" if self.value is None else repr(self.value)

    def __round__(self, n=None):
        return round(self._fix(), n) if n is not None else round(self._fix())

    def __array__(self, dtype=None, copy=None):
        return np.array(self._fix(), dtype=dtype)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == "__call__" and len(inputs) == 2 and not kw and ufunc in _CMP:
            a, b = inputs
            if isinstance(a, U):
                return _CMP[ufunc][0](a, b)
            return _CMP[ufunc][1](b, a)
        return getattr(ufunc, method)(*[x._fix() if isinstance(x, U) else x for x in inputs], **kw)

    def __neg__(self):
        return -self._fix()

    def __pos__(self):
        return self._fix()

    def __abs__(self):
        return abs(self._fix())

    def __divmod__(self, o):
        return divmod(self._fix(), o)

    def __deepcopy__(self, memo):
        return self._fix()

    def __copy__(self):
        return self._fix()

    def is_integer(self):
        return self._fix().is_integer()


def _binop(name):
    def f(self, o):
        v = self._fix()
        if isinstance(o, U):
            o = o._fix()
        r = getattr(v, name)(o)
        if r is NotImplemented:   # e.g. float with numpy scalar or array
            r = getattr(np.float64(v), name)(o)
        return r
    return f


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
    for _m in (f"__{_n}__", f"__r{_n}__"):
        setattr(U, _m, _binop(_m))
_CMP = {np.less: (U.__lt__, U.__gt__), np.less_equal: (U.__le__, U.__ge__),
        np.greater: (U.__gt__, U.__lt__), np.greater_equal: (U.__ge__, U.__le__)}


# ---- draws ---------------------------------------------------------------------------------------

def _uniform01(size=None):
    if size is None:
        _tick()
        return U(CURRENT)
    out = np.empty(size)
    for i in np.ndindex(out.shape):
        _tick()
        out[i] = U(CURRENT)._fix()
    return out


def _uniform(low=0.0, high=1.0, size=None):
    if size is None and np.ndim(low) == 0 and np.ndim(high) == 0:
        _tick()
        u = U(CURRENT)
        if low == 0.0 and high == 1.0:
            return u
        return low + (high - low) * u._fix()
    shape = size if size is not None else np.broadcast(low, high).shape
    return low + (np.asarray(high) - low) * _uniform01(shape)


def _pick(weights, label):
    _tick()
    return CURRENT.choose([float(w) for w in weights], label)


def _check_choice(a, size, replace, p):
    """The original's argument errors, without touching the global state."""
    np.random.RandomState(0).choice(a, size, replace, p)


def _np_choice(a, size=None, replace=True, p=None):
    _check_choice(a, size, replace, p)
    arr = np.asarray(a)
    n = int(arr) if arr.ndim == 0 else arr.shape[0]
    w = [1.0 / n] * n if p is None else [float(x) for x in np.asarray(p, dtype=float)]
    if size is None:
        idx = np.int64(_pick(w, "choice"))
        return idx if arr.ndim == 0 else arr[idx]
    shape = (size,) if np.ndim(size) == 0 else tuple(size)
    total = int(np.prod(shape))
    if replace:
        flat = [_pick(w, "choice") for _ in range(total)]
    else:
        flat, left = [], list(w)
        for _ in range(total):
            s = sum(left)
            k = _pick([x / s for x in left], "choice-")
            flat.append(k)
            left[k] = 0.0
    idx = np.array(flat, dtype=np.int64).reshape(shape)
    return idx if arr.ndim == 0 else arr[idx]


def _np_randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    n = int(high) - int(low)
    if n <= 0:
        raise ValueError("low >= high")
    if size is None:
        return int(low) + _pick([1.0 / n] * n, "randint")
    shape = (size,) if np.ndim(size) == 0 else tuple(size)
    return np.array([int(low) + _pick([1.0 / n] * n, "randint")
                     for _ in range(int(np.prod(shape)))], dtype=np.int64).reshape(shape)


def _perm(n):
    if n <= 1:
        return list(range(n))
    if n > 7:        # one choice per item (equally uniform)
        order = list(range(n))
        for i in range(n - 1):
            j = i + _pick([1.0 / (n - i)] * (n - i), "shuffle")
            order[i], order[j] = order[j], order[i]
        return order
    perms = list(itertools.permutations(range(n)))
    return list(perms[_pick([1.0 / len(perms)] * len(perms), "shuffle")])


def _shuffle(x):
    order = _perm(len(x))
    if isinstance(x, np.ndarray):
        x[...] = x[order]
        return None
    items = [x[i] for i in order]
    for i, v in enumerate(items):
        x[i] = v
    return None


def _np_permutation(x):
    if np.ndim(x) == 0:
        return np.array(_perm(int(x)))
    arr = np.asarray(x)
    return arr[_perm(arr.shape[0])]


def _np_rand(*shape):
    return _uniform01(shape or None)


def _py_choice(seq):
    if not len(seq):
        raise IndexError("Cannot choose from an empty sequence")
    return seq[_pick([1.0 / len(seq)] * len(seq), "choice")]


def _py_choices(population, weights=None, *, cum_weights=None, k=1):
    n = len(population)
    if cum_weights is not None:
        weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
    w = [1.0 / n] * n if weights is None else [x / sum(weights) for x in weights]
    return [population[_pick(w, "choice")] for _ in range(k)]


def _py_sample(population, k, *, counts=None):
    if counts is not None:
        raise HarnessError("random.sample(counts=)")
    n = len(population)
    if not 0 <= k <= n:
        raise ValueError("Sample larger than population or is negative")
    left, out = [1.0] * n, []
    for _ in range(k):
        s = sum(left)
        i = _pick([x / s for x in left], "choice-")
        out.append(population[i])
        left[i] = 0.0
    return out


def _py_randrange(start, stop=None, step=1):
    r = range(start) if stop is None else range(start, stop, step)
    return r[_pick([1.0 / len(r)] * len(r), "randint")]


def _unsupported(name):
    def f(*a, **k):
        raise HarnessError(f"random source {name} is not modelled")
    return f


_NP = {"choice": _np_choice, "uniform": _uniform, "random_sample": _uniform01, "random": _uniform01,
       "ranf": _uniform01, "sample": _uniform01, "rand": _np_rand, "randint": _np_randint,
       "shuffle": _shuffle, "permutation": _np_permutation}
_PY = {"random": lambda: _uniform01(), "uniform": lambda a, b: _uniform(a, b), "choice": _py_choice,
       "choices": _py_choices, "sample": _py_sample, "shuffle": _shuffle,
       "randint": lambda a, b: _py_randrange(a, b + 1), "randrange": _py_randrange}
for _k in ("normal", "randn", "standard_normal", "exponential", "standard_exponential", "beta", "binomial",
           "multinomial", "poisson", "default_rng", "RandomState", "bytes", "gamma", "triangular",
           "geometric", "laplace", "lognormal"):
    _NP.setdefault(_k, None)
for _k in ("gauss", "normalvariate", "expovariate", "triangular", "betavariate", "getrandbits", "randbytes"):
    _PY.setdefault(_k, None)

EVENTS = []       # (name) of seeding calls, see C25


def _install(mod, table, prefix):
    for name, ctl in table.items():
        orig = getattr(mod, name, None)
        if orig is None:
            continue
        if isinstance(orig, type):
            continue
        c = ctl or _unsupported(prefix + name)

        def shim(*a, _o=orig, _c=c, **k):
            if CURRENT is None:
                return _o(*a, **k)
            return _c(*a, **k)
        shim.__name__ = name
        setattr(mod, name, shim)


_install(np.random, _NP, "numpy.random.")
_install(_random, _PY, "random.")
