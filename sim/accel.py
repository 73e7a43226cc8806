"""Speed for the simulator, without changing what the code computes.

fast_allclose: numpy.allclose for a handful of floats, by its definition,
without numpy's per-call overhead.

Memo: results of a few pure, expensive, I/O-free functions of the code under
test, computed by the real code and remembered across the processes of a
worker. Only checks about files, faults and interleavings use it; the checks
about what is computed run everything.
"""
import importlib
import math
import pickle

import numpy

_allclose = numpy.allclose
_INF = math.inf


def _flat(x):
    if type(x) is numpy.ndarray:
        if x.size > 32 or x.dtype.kind not in "fi":
            return None
        return x.shape, x.ravel().tolist()
    if type(x) in (float, int):
        return (), [x]
    if type(x) in (list, tuple) and len(x) <= 9:
        out = []
        sub = None
        for e in x:
            if type(e) in (float, int) or type(e) is numpy.float64:
                s, v = (), [float(e) if type(e) is numpy.float64 else e]
            elif type(e) in (list, tuple, numpy.ndarray):
                r = _flat(e)
                if r is None:
                    return None
                s, v = r
            else:
                return None
            if sub is None:
                sub = s
            elif sub != s:
                return None
            out.extend(v)
        return (len(x),) + (sub or ()), out
    return None


def fast_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    fa = _flat(a)
    if fa is not None:
        fb = _flat(b)
        if fb is not None and (fa[0] == fb[0] or fb[0] == ()) and fa[1] and type(rtol) in (int, float) and type(atol) in (int, float):
            y = fb[1] if fa[0] == fb[0] else fb[1] * len(fa[1])
            for p, q in zip(fa[1], y):
                if not (-_INF < p < _INF and -_INF < q < _INF):
                    return _allclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
            for p, q in zip(fa[1], y):
                if not abs(p - q) <= atol + rtol * abs(q):
                    return False
            return True
    return _allclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)


def install_allclose():
    numpy.allclose = fast_allclose


TARGETS = (("phenum.symmetry", "get_spaceGroup"), ("phenum.HNFs", "get_HNFs"), ("phenum.grouptheory", "get_sym_group"),
           ("phenum.polyaburnside", "polya"), ("phenum.vector_utils", "map_enumStr_to_real_space"))
MEMO = {}
FRESH = {}
ENABLED = False
CALLED = None    # told about every call of these functions
DEPTH = 0        # inside how many of them we are


def _wrap(name, fn):
    def memoised(*args, **kw):
        if not ENABLED:
            return fn(*args, **kw)
        global DEPTH
        if CALLED is not None and not DEPTH:
            CALLED()
        try:
            key = (name, pickle.dumps((args, sorted(kw.items()))))
        except Exception:
            return fn(*args, **kw)
        if key in MEMO:
            return pickle.loads(MEMO[key])
        DEPTH += 1
        try:
            out = fn(*args, **kw)
        finally:
            DEPTH -= 1
        try:
            # a call that changes its arguments is never remembered
            if pickle.dumps((args, sorted(kw.items()))) == key[1]:
                MEMO[key] = FRESH[key] = pickle.dumps(out)
        except Exception:
            pass
        return out
    memoised.__wrapped__ = fn
    return memoised


def install_memo():
    for mod, name in TARGETS:
        try:
            m = importlib.import_module(mod)
            f = getattr(m, name)
        except Exception:
            continue
        if hasattr(f, "__wrapped__"):
            continue
        w = _wrap(mod + "." + name, f)
        # wherever the function was imported to
        import sys
        for k, other in list(sys.modules.items()):
            if k.startswith("phenum") and other is not None and getattr(other, name, None) is f:
                setattr(other, name, w)


def take_fresh():
    out = pickle.dumps(FRESH)
    FRESH.clear()
    return out


def merge(data):
    new = pickle.loads(data)
    if sum(map(len, MEMO.values())) > 200 << 20:
        MEMO.clear()
    MEMO.update(new)
