"""What the checks import."""
import importlib
import os
import sys
import tempfile
import contextlib

import numpy as np
import z3

from .engine import (ctx, explore, PathInfeasible, Violation, Unsupported, SymxError, Inconclusive)
from .values import (SymInt, SymBool, SymReal, sand, sor, snot, simplies, ite, is_sym, as_z3bool, to_int, real_expr)
from .sbytes import SymBytes, HashMode, has_sym, hash_words
from .symnp import SymArray, NP, as_sym, contains_sym, from_np, box, _objarr
from .symio import SymStream
from .driver import Check
from . import instrument

REPO = instrument.REPO


def repo(name):
    return importlib.import_module(name)


def scratch():
    return os.environ.get("SYMX_SCRATCH") or tempfile.gettempdir()


def sym_vec(c, name, shape, dtype, lo=None, hi=None):
    """A symbolic array (symbolic mode) or the ndarray of the replayed values."""
    dt = np.dtype(dtype)
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    if dt.kind == "b":
        vals = [c.bool(f"{name}_{i}") for i in range(n)]
    elif dt.kind == "f":
        vals = [c.real(f"{name}_{i}", lo, hi) for i in range(n)]
    else:
        info = np.iinfo(dt)
        vals = [c.int(f"{name}_{i}", int(info.min) if lo is None else lo, int(info.max) if hi is None else hi) for i in range(n)]
    if c.symbolic:
        return SymArray(_objarr(vals).reshape(shape), dt)
    return np.array(vals, dtype=dt).reshape(shape)


def arr(c, values, dtype, shape=None):
    """List of (symbolic) values -> array usable in both modes."""
    dt = np.dtype(dtype)
    if c.symbolic:
        a = SymArray(_objarr(list(values)), dt)
        return a if shape is None else a.reshape(shape)
    a = np.array(list(values), dtype=dt)
    return a if shape is None else a.reshape(shape)


def sym_bytes(c, name, n):
    v = [c.int(f"{name}{i}", 0, 255) for i in range(n)]
    return SymBytes(v).norm() if c.symbolic else bytes(v)


def elems(x):
    """Flat python/symbolic elements of an array (either mode)."""
    if type(x) is SymArray:
        return list(x.a.reshape(-1))
    return np.asarray(x).reshape(-1).tolist()


def shape_of(x):
    return tuple(x.shape)


def same(x, y):
    """Equality of values/arrays/containers as one (symbolic) boolean, no forking."""
    tx, ty = type(x), type(y)
    if tx is SymArray or ty is SymArray or isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        if type(x) is not SymArray and not isinstance(x, np.ndarray):
            return False
        if type(y) is not SymArray and not isinstance(y, np.ndarray):
            return False
        if tuple(x.shape) != tuple(y.shape):
            return False
        if np.dtype(x.dtype) != np.dtype(y.dtype):
            return False
        return sand(*[eq(p, q) for p, q in zip(elems(x), elems(y))])
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and tx is not SymBytes:
        if len(x) != len(y):
            return False
        return sand(*[same(p, q) for p, q in zip(x, y)])
    if isinstance(x, dict) and isinstance(y, dict):
        if set(x) != set(y):
            return False
        return sand(*[same(x[k], y[k]) for k in x])
    return eq(x, y)


def eq(p, q):
    if is_sym(p) or is_sym(q):
        if type(p) is SymBool or type(q) is SymBool:
            if type(p) in (SymBool, bool) and type(q) in (SymBool, bool):
                from .values import _as_bool_result
                return _as_bool_result(z3.simplify(as_z3bool(p) == as_z3bool(q)))
            p, q = to_int(p), to_int(q)
        if type(p) is float and not is_sym(p) and (p != p or p in (float("inf"), -float("inf"))):
            return False
        r = (p == q)
        return r
    if isinstance(p, float) and isinstance(q, float):
        return p == q or (p != p and q != q) or (not ctx().symbolic and abs(p - q) <= 1e-6 * max(1.0, abs(p), abs(q)))
    r = p == q
    if isinstance(r, (SymArray, np.ndarray)):
        return same(p, q)
    if type(r) is SymBool:
        return r
    return bool(r)


def expect_error(c, fn, types=(ValueError,), message="expected an error"):
    try:
        fn()
    except types:
        c.check(True, message)
        return True
    c.fail(message)


@contextlib.contextmanager
def patched(obj, name, value):
    old = getattr(obj, name)
    setattr(obj, name, value)
    try:
        yield
    finally:
        setattr(obj, name, old)


@contextlib.contextmanager
def hash_mode(mode="auto", max_digests=None):
    om, ox = HashMode.mode, HashMode.max_digests
    HashMode.mode, HashMode.max_digests = mode, max_digests
    try:
        yield
    finally:
        HashMode.mode, HashMode.max_digests = om, ox
