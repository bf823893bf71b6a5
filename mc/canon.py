"""Canonical form of a live object graph (types, attributes, containers, arrays, aliasing).

Integers that are addresses (identity keys and hashes) are replaced by the position of the object they
name, so that the form does not depend on the memory layout.  Floats are rounded to 8 digits (and -0.0 to 0.0).  Aliasing between mutable objects is part of the form,
so two graphs with equal forms have the same futures up to numerical tolerance.
"""
import enum
import hashlib
import re
import types

import numpy as np

DIGITS = 8


def _num(x):
    return float(np.round(x, DIGITS)) + 0.0


def _ids(obj, out, depth=0):
    """numbers every object reachable from obj, in traversal order"""
    if obj is None or isinstance(obj, (bool, int, float, complex, str, bytes, enum.Enum, type, types.ModuleType)) or id(obj) in out:
        return
    out[id(obj)] = len(out)
    if isinstance(obj, (tuple, list, set, frozenset)):
        for x in obj:
            _ids(x, out)
    elif isinstance(obj, dict):
        for k, v in obj.items():
            _ids(k, out)
            _ids(v, out)
    elif isinstance(obj, np.ndarray):
        if obj.dtype == object:
            for x in obj.flat:
                _ids(x, out)
    else:
        d = getattr(obj, "__dict__", None)
        if isinstance(d, dict):
            for k in sorted(d):
                _ids(d[k], out)


def form(obj, memo=None, ids=None):
    if memo is None:
        memo, ids = {}, {}
        _ids(obj, ids)
        for k, i in list(ids.items()):
            ids.setdefault((k >> 4) | ((k & 15) << 60), i)      # the default hash
    f = lambda x: form(x, memo, ids)    # noqa: E731
    if isinstance(obj, int) and not isinstance(obj, bool) and (obj > 1 << 32 or obj < -(1 << 32)):
        return ("address", ids.get(obj, -1))
    if obj is None or isinstance(obj, (bool, int, str, bytes)):
        return obj
    if isinstance(obj, np.bool_):
        return bool(obj)
    if isinstance(obj, np.integer):
        return ("npint", int(obj))
    if isinstance(obj, (float, np.floating)):
        return ("f", _num(float(obj)))
    if isinstance(obj, (complex, np.complexfloating)):
        return ("c", _num(obj.real), _num(obj.imag))
    if isinstance(obj, enum.Enum):
        return ("enum", str(obj))
    if isinstance(obj, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, type,
                        types.ModuleType)):
        if id(obj) in memo:
            return ("ref", memo[id(obj)][0])
        memo[id(obj)] = (len(memo), obj)
        cells = []
        for c in getattr(obj, "__closure__", None) or ():
            try:
                cells.append(f(c.cell_contents))
            except ValueError:
                cells.append(None)
        own = getattr(obj, "__self__", None)
        return ("fn", getattr(obj, "__module__", None), getattr(obj, "__qualname__", type(obj).__name__), tuple(cells),
                f(own) if isinstance(obj, types.MethodType) else None, f(getattr(obj, "__defaults__", None)))
    if isinstance(obj, tuple):
        return ("t",) + tuple(f(x) for x in obj)
    key = id(obj)
    if key in memo:
        return ("ref", memo[key][0])
    memo[key] = (len(memo), obj)
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ("oa", obj.shape) + tuple(f(x) for x in obj.flat)
        a = np.round(obj, DIGITS) + 0.0
        return ("a", obj.shape, str(obj.dtype), a.tobytes())
    if isinstance(obj, list):
        return ("l",) + tuple(f(x) for x in obj)
    if isinstance(obj, dict):
        return ("d",) + tuple((f(k), f(v)) for k, v in obj.items())
    if isinstance(obj, (set, frozenset)):
        return ("s",) + tuple(sorted((repr(f(x)) for x in obj)))
    d = getattr(obj, "__dict__", None)
    if d is not None:
        return ("o", type(obj).__name__) + tuple((k, f(d[k])) for k in sorted(d))
    slots = [s for c in type(obj).__mro__ for s in getattr(c, "__slots__", ())]
    if slots:
        return ("o", type(obj).__name__) + tuple(
            (k, f(getattr(obj, k, None))) for k in sorted(slots))
    return ("r", type(obj).__name__, re.sub("0x[0-9a-f]+", "", repr(obj)))


def digest(*objs):
    return hashlib.sha1(repr(form(list(objs))).encode()).hexdigest()
