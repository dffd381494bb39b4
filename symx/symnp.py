"""Symbolic numpy: an ndarray look-alike whose elements are Python/symbolic scalars
with numpy dtype semantics (wrap-around integers, bool masks, reals for floats), and
a `numpy` module stand-in that falls through to real numpy on concrete data.

Floats are treated as exact reals (stated in every evidence file that uses them).
"""
from __future__ import annotations

import itertools
from fractions import Fraction

import numpy as np
import z3

from .engine import ctx, Unsupported, active
from .values import (SymZ, SymInt, SymBool, SymReal, ite, to_int, wrap_to, mod_op, as_z3bool, real_expr,
                     is_sym, sand, sor, snot, _as_bool_result, i_ite, mk)
from .sbytes import SymBytes

_np = np
ALWAYS = True    # creation functions return SymArray (so that symbolic stores work)


def _kind(dt):
    return dt.kind


def cast_elem(v, dt):
    """Value of any kind -> element of dtype dt (numpy astype semantics)."""
    k = dt.kind
    t = type(v)
    if isinstance(v, SymArray):
        v = v._sym_scalar()
        t = type(v)
    if k == "O":
        return v
    if k == "b":
        if t is SymBool or t is bool:
            return v
        if t is SymInt:
            r = v != 0
            return r
        if t is SymReal:
            return v != 0
        return bool(v)
    if k in "iu":
        if t is SymReal:
            e = v.e
            r = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
            return _int_expr_to_sym(r, dt)
        if t is float or isinstance(v, (np.floating, Fraction)):
            return wrap_to(int(v), dt.itemsize * 8, k == "i")
        i = to_int(v)
        if i is None:
            i = int(v)
        return wrap_to(i, dt.itemsize * 8, k == "i")
    if k == "f":
        if t is SymReal:
            return v
        if t in (SymInt, SymBool):
            return SymReal(real_expr(v))
        if isinstance(v, Fraction):
            return v
        f = float(v)
        return float(dt.type(f))
    if k in "USV":
        return v
    raise Unsupported(f"dtype {dt}")


def _int_expr_to_sym(r, dt):
    """z3 Int expression -> SymInt of dtype range (assumes in range, checked)."""
    bits = dt.itemsize * 8
    signed = dt.kind == "i"
    e = z3.Int2BV(r, bits)
    if signed:
        return SymInt(e, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    return SymInt(e, 0, (1 << bits) - 1)


def py(v):
    """numpy scalar -> python scalar"""
    if isinstance(v, np.generic):
        return v.item()
    return v


def contains_sym(x, depth=0):
    t = type(x)
    if t is SymArray or t in (SymInt, SymBool, SymReal, SymBytes, SymZ):
        return True
    if t in (list, tuple) and depth < 6:
        return any(contains_sym(v, depth + 1) for v in x)
    if t is slice:
        return contains_sym(x.start) or contains_sym(x.stop) or contains_sym(x.step)
    if t is dict:
        return any(contains_sym(v, depth + 1) for v in x.values())
    return False


class _Flags:
    writeable = True
    c_contiguous = True
    f_contiguous = False
    owndata = True
    aligned = True

    def __getitem__(self, k):
        return True


class SymArray:
    __array_priority__ = 1000
    __slots__ = ("a", "dtype", "base", "_flags", "__weakref__")

    def __init__(self, a, dtype, base=None):
        self.a = a                      # np object ndarray
        self.dtype = np.dtype(dtype)
        self.base = base
        self._flags = None

    @property
    def __class__(self):
        if self.a.ndim == 0 and self._flags == "scalar":
            return self.dtype.type
        return np.ndarray

    # -- basics -------------------------------------------------------------------
    @property
    def shape(self):
        return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a = self.a.reshape(s)

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.a.size * self.dtype.itemsize

    @property
    def flags(self):
        f = _Flags()
        return f

    def setflags(self, **k):
        pass

    @property
    def T(self):
        return SymArray(self.a.T, self.dtype, self)

    @property
    def strides(self):
        s, out = self.dtype.itemsize, []
        for d in reversed(self.shape):
            out.append(s)
            s *= d
        return tuple(reversed(out))

    @property
    def flat(self):
        return iter([self._box(v) for v in self.a.reshape(-1)])

    def _box(self, v):
        return box(v, self.dtype)

    def _sym_scalar(self):
        if self.a.size != 1:
            raise ValueError("only size-1 arrays can be converted to scalars")
        return self.a.reshape(-1)[0]

    def item(self, *i):
        if i:
            return self[i]._sym_scalar() if len(i) > 1 or isinstance(i[0], tuple) else self.a.reshape(-1)[i[0]]
        return self._sym_scalar()

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("len() of unsized object")
        return self.a.shape[0]

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.a.shape[0]):
            yield self[i]

    def tolist(self):
        return self.a.tolist() if self.a.ndim else self.a.item()

    def is_concrete(self):
        return not any(is_sym(v) for v in self.a.reshape(-1))

    def concrete(self):
        out = np.empty(self.shape, self.dtype)
        flat = self.a.reshape(-1)
        vals = [float(v) if isinstance(v, Fraction) else v for v in flat]
        o = out.reshape(-1)
        for i, v in enumerate(vals):
            o[i] = v
        return o.reshape(self.shape)

    def __array__(self, dtype=None, copy=None):
        if not self.is_concrete():
            raise Unsupported("symbolic array escaped to numpy")
        r = self.concrete()
        return r if dtype is None else r.astype(dtype)

    def copy(self, order="C"):
        return SymArray(self.a.copy(), self.dtype)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, copy=True, **kw):
        dt = np.dtype(dtype)
        if dt == self.dtype:
            return self.copy() if copy else self
        return _map1(lambda v: cast_elem(v, dt), self, dt)

    def view(self, dtype=None, *a):
        if dtype is None or dtype is np.ndarray:
            return SymArray(self.a, self.dtype, self)
        dt = np.dtype(dtype)
        if dt == self.dtype:
            return SymArray(self.a, dt, self)
        if dt.itemsize == self.dtype.itemsize and dt.kind in "iub" and self.dtype.kind in "iub":
            return _map1(lambda v: cast_elem(v, dt), self, dt)
        if dt.kind in "iu" and self.dtype.kind in "iu" and self.a.ndim >= 1:
            by = _to_byte_array(self)
            if dt.itemsize == 1:
                return by if dt.kind == "u" else by.astype(dt)
            return _from_byte_array(by, dt)
        raise Unsupported(f"view {self.dtype}->{dt}")

    def newbyteorder(self, *a):
        return self

    def reshape(self, *shape, order="C"):
        if len(shape) == 1:
            shape = shape[0]
        shape = tuple(int(s) for s in shape) if isinstance(shape, (tuple, list)) else int(shape)
        return SymArray(self.a.reshape(shape), self.dtype, self)

    def ravel(self, order="C"):
        return SymArray(self.a.reshape(-1), self.dtype, self)

    def flatten(self, order="C"):
        return SymArray(self.a.flatten(), self.dtype)

    def squeeze(self, axis=None):
        return SymArray(self.a.squeeze(axis), self.dtype, self)

    def transpose(self, *axes):
        return SymArray(self.a.transpose(*axes), self.dtype, self)

    def swapaxes(self, a, b):
        return SymArray(self.a.swapaxes(a, b), self.dtype, self)

    def repeat(self, r, axis=None):
        return SymArray(np.repeat(self.a, r, axis), self.dtype)

    def fill(self, v):
        v = cast_elem(v, self.dtype)
        self.a[...] = _wrapobj(v)

    def tobytes(self, order="C"):
        by = _to_byte_array(self)
        return SymBytes(list(by.a.reshape(-1))).norm()

    def _sym_tobytes(self):
        return self.tobytes()

    def __hash__(self):
        if self.a.ndim == 0:
            return hash(self._sym_scalar())
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        return f"<SymArray {self.dtype} {self.shape}>"

    def __format__(self, s):
        return repr(self)

    # -- conversions to scalars
    def __bool__(self):
        if self.a.size == 0:
            return False
        if self.a.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return bool(self._sym_scalar())

    def __int__(self):
        return int(self._sym_scalar())

    def __index__(self):
        if self.dtype.kind not in "iu":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self._sym_scalar().__index__()

    def __float__(self):
        return float(self._sym_scalar())

    # -- indexing -------------------------------------------------------------------
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    # -- reductions ---------------------------------------------------------------------
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=None):
        return NP.sum(self, axis=axis, dtype=dtype, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, keepdims=False):
        dt = np.dtype(dtype) if dtype is not None else _sum_dtype(self.dtype)
        return _reduce(self.astype(dt), lambda x, y: _arith("mul", x, y, dt), 1 if dt.kind != "f" else 1.0, axis, keepdims, dt)

    def all(self, axis=None, out=None, keepdims=False):
        return _reduce(self.astype(bool), lambda x, y: sand(x, y), True, axis, keepdims, np.dtype(bool))

    def any(self, axis=None, out=None, keepdims=False):
        return _reduce(self.astype(bool), lambda x, y: sor(x, y), False, axis, keepdims, np.dtype(bool))

    def max(self, axis=None, out=None, keepdims=False, initial=None):
        return _reduce(self, lambda x, y: ite(x >= y, x, y), initial, axis, keepdims, self.dtype)

    def min(self, axis=None, out=None, keepdims=False, initial=None):
        return _reduce(self, lambda x, y: ite(x <= y, x, y), initial, axis, keepdims, self.dtype)

    def mean(self, axis=None, dtype=None, keepdims=False):
        dt = np.dtype(dtype) if dtype is not None else (self.dtype if self.dtype.kind == "f" else np.dtype(float))
        s = NP.sum(self.astype(dt), axis=axis, keepdims=keepdims)
        n = self.a.size if axis is None else int(np.prod([self.a.shape[i] for i in ([axis] if isinstance(axis, int) else axis)]))
        return s / n

    def argmax(self, axis=None):
        if axis is not None and self.a.ndim != 1:
            raise Unsupported("argmax axis")
        flat = self.a.reshape(-1)
        best, bi = flat[0], 0
        for i in range(1, len(flat)):
            c = flat[i] > best
            best = ite(c, flat[i], best)
            bi = ite(c, i, bi)
        return box(bi, np.dtype(np.int64))

    def argmin(self, axis=None):
        return (-self).argmax(axis)

    def cumsum(self, axis=None, dtype=None):
        dt = np.dtype(dtype) if dtype is not None else _sum_dtype(self.dtype)
        if axis is None or self.a.ndim == 1:
            acc, out = None, []
            for v in self.a.reshape(-1):
                acc = cast_elem(v, dt) if acc is None else _arith("add", acc, v, dt)
                out.append(acc)
            return SymArray(_objarr(out), dt)
        raise Unsupported("cumsum axis")

    def nonzero(self):
        return NP.nonzero(self)

    def clip(self, lo=None, hi=None):
        return NP.clip(self, lo, hi)

    def round(self, decimals=0):
        return NP.round(self, decimals)

    def sort(self, axis=-1, kind=None):
        self.a[...] = _wrapseq(NP.sort(self, axis).a)

    def argsort(self, axis=-1, kind=None):
        return NP.argsort(self, axis, kind)

    def take(self, indices, axis=None, mode="raise"):
        idx = indices
        return NP.take(self, idx, axis)

    def dot(self, o):
        return NP.dot(self, o)

    # -- protocols ---------------------------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method == "reduce":
            name = ufunc.__name__
            m = {"add": "sum", "logical_and": "all", "logical_or": "any", "maximum": "max", "minimum": "min",
                 "multiply": "prod", "bitwise_or": None}.get(name)
            if m:
                kwargs.pop("out", None)
                return getattr(as_sym(inputs[0]), m)(axis=kwargs.get("axis", 0), keepdims=kwargs.get("keepdims", False))
        if method != "__call__":
            raise Unsupported(f"ufunc {ufunc.__name__}.{method}")
        return do_ufunc(ufunc.__name__, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        f = getattr(NP, func.__name__, None)
        own = NumpyShim.__dict__.get(func.__name__)
        if own is None:
            raise Unsupported(f"numpy function {func.__name__} on symbolic array")
        return f(*args, **kwargs)


def _wrapobj(v):
    x = np.empty((), dtype=object)
    x[()] = v
    return x


def _wrapseq(a):
    return a


def _objarr(items, shape=None):
    out = np.empty(len(items), dtype=object)
    for i, v in enumerate(items):
        out[i] = v
    return out if shape is None else out.reshape(shape)


def box(v, dtype):
    """Element -> numpy-scalar look-alike."""
    dtype = np.dtype(dtype)
    if dtype.kind == "O":
        return v
    if not is_sym(v):
        if isinstance(v, Fraction):
            v = float(v)
        return dtype.type(v) if dtype.kind not in "USV" else np.array(v, dtype=dtype)[()]
    s = SymArray(_wrapobj(v), dtype)
    s._flags = "scalar"
    return s


def as_sym(x, dtype=None):
    if type(x) is SymArray:
        return x if dtype is None or np.dtype(dtype) == x.dtype else x.astype(dtype)
    t = type(x)
    if t is SymInt or t is SymBool or t is SymReal:
        if dtype is None:
            dtype = _scalar_dtype(x)
        dt = np.dtype(dtype)
        if dt.kind in "iu" and t is SymInt:
            _range_check(x, dt)
        return SymArray(_wrapobj(cast_elem(x, dt)), dt)
    if t is SymBytes:
        raise Unsupported("array of SymBytes")
    if t in (list, tuple) and contains_sym(x):
        subs = [as_sym(v) if contains_sym(v) or isinstance(v, np.ndarray) else as_sym(_np.asarray(v)) for v in x]
        dts = [s.dtype for s in subs]
        if dtype is None:
            dt = _np.result_type(*[d for d in dts]) if dts else np.dtype(float)
            # python int lists default to int64
            if dt.kind in "iu" and all(type(v) in (int, SymInt, bool, SymBool) for v in x):
                dt = np.dtype(np.int64)
        else:
            dt = np.dtype(dtype)
        if dt.kind in "iu":
            for v in x:
                if type(v) is SymInt:
                    _range_check(v, dt)
        shp = subs[0].shape
        if any(s.shape != shp for s in subs):
            raise ValueError("setting an array element with a sequence: inhomogeneous shape")
        out = np.empty((len(subs),) + shp, dtype=object)
        for i, s in enumerate(subs):
            out[i] = s.astype(dt).a if shp else s.astype(dt).a[()]
        return SymArray(out, dt)
    r = _np.asarray(x) if dtype is None else _np.asarray(x, dtype=dtype)
    return from_np(r)


def _range_check(v, dt):
    """numpy 2: python int out of dtype range -> OverflowError"""
    info = np.iinfo(dt)
    if v.lo < info.min or v.hi > info.max:
        ok = sand(v >= int(info.min), v <= int(info.max))
        if not bool(ok):
            raise OverflowError("Python integer out of bounds for dtype")


def _scalar_dtype(x):
    t = type(x)
    if t is SymBool:
        return np.dtype(bool)
    if t is SymReal:
        return np.dtype(np.float64)
    return np.dtype(np.int64) if x.hi < (1 << 63) else np.dtype(np.uint64)


def from_np(r):
    out = np.empty(r.shape, dtype=object)
    if r.ndim == 0:
        out[()] = r.item() if r.dtype.kind != "O" else r[()]
    else:
        flat = out.reshape(-1)
        if r.dtype.kind == "O":
            rf = r.reshape(-1)
            for i in range(rf.size):
                flat[i] = rf[i]
        else:
            for i, v in enumerate(r.reshape(-1).tolist()):
                flat[i] = v
    return SymArray(out, r.dtype)


def maybe_np(s):
    return s


# ---------------------------------------------------------------- element-wise machinery

def _arith(op, x, y, dt):
    k = dt.kind
    if k in "iu":
        bits, signed = dt.itemsize * 8, k == "i"
        xi, yi = to_int(x), to_int(y)
        if op in ("add", "sub", "mul"):
            return mod_op(op, xi, yi, bits, signed)
        raise Unsupported(op)
    if k == "f":
        if is_sym(x) or is_sym(y):
            if op == "mul":
                # avoid useless nonlinear terms
                for p, q in ((x, y), (y, x)):
                    if not is_sym(p):
                        if p == 0:
                            return 0.0
                        if p == 1:
                            return q
            if op == "add":
                if not is_sym(x) and x == 0:
                    return cast_elem(y, dt)
                if not is_sym(y) and y == 0:
                    return cast_elem(x, dt)
            a, b = SymReal(real_expr(x)), SymReal(real_expr(y))
            return {"add": a + b, "sub": a - b}[op] if op != "mul" else a * b
        f = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q}[op]
        return float(dt.type(f(dt.type(x), dt.type(y))))
    if k == "b":
        if op == "add":
            return sor(x, y)
        if op == "mul":
            return sand(x, y)
    if k == "O":
        return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y}[op]()
    raise Unsupported(f"{op} on {dt}")


def _weak(x):
    """python scalar (weak promotion in numpy 2)"""
    return type(x) in (int, float, bool, SymInt, SymBool, SymReal)


def _result_dtype(xs, raw):
    dts = []
    for s, r in zip(xs, raw):
        if _weak(r):
            continue
        dts.append(s.dtype)
    weak = [r for r in raw if _weak(r)]
    if not dts:
        return _np.result_type(*[s.dtype for s in xs])
    dt = _np.result_type(*dts)
    for w in weak:
        t = type(w)
        if t in (bool, SymBool):
            pass
        elif t in (int, SymInt):
            if dt.kind == "b":
                dt = np.dtype(np.int64)
        else:
            if dt.kind in "biu":
                dt = np.dtype(np.float64)
    return dt


def _map1(f, s, dt):
    out = np.empty(s.shape, dtype=object)
    if s.a.ndim == 0:
        out[()] = f(s.a[()])
    else:
        fi, fo = s.a.reshape(-1), out.reshape(-1)
        for i in range(fi.size):
            fo[i] = f(fi[i])
    r = SymArray(out, dt)
    if s._flags == "scalar":
        r._flags = "scalar"
    return r


def _bcast(*ss):
    shp = _np.broadcast_shapes(*[s.shape for s in ss])
    return shp, [np.broadcast_to(s.a, shp) for s in ss]


def _mapn(f, ss, dt):
    shp, arrs = _bcast(*ss)
    out = np.empty(shp, dtype=object)
    if not shp:
        out[()] = f(*[a[()] for a in arrs])
    else:
        fo = out.reshape(-1)
        its = [a.reshape(-1) for a in arrs]
        for i in range(fo.size):
            fo[i] = f(*[t[i] for t in its])
    return SymArray(out, dt)


def _unwrap(r, raw):
    """0-d results of ufuncs are scalars in numpy."""
    if r.a.ndim == 0:
        return box(r.a[()], r.dtype)
    return r


_CMP = {"equal": "eq", "not_equal": "ne", "less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge"}
_AR = {"add": "add", "subtract": "sub", "multiply": "mul"}


def _cmp_elem(op, x, y):
    if not is_sym(x) and not is_sym(y):
        return {"eq": x == y, "ne": x != y, "lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y,
                "ge": lambda: x >= y}[op]() if op in ("lt", "le", "gt", "ge") else (x == y if op == "eq" else x != y)
    if isinstance(x, float) and type(x) is not SymReal and not is_sym(x):
        swap = {"eq": "eq", "ne": "ne", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}[op]
        return _cmp_elem(swap, y, x)
    if type(x) is SymBool or type(x) is bool:
        if type(y) in (SymBool, bool) and op in ("eq", "ne"):
            r = (as_z3bool(x) == as_z3bool(y))
            return _as_bool_result(z3.simplify(r if op == "eq" else z3.Not(r)))
        x = to_int(x)
    if type(y) in (SymBool, bool):
        y = to_int(y)
    return {"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: x < y, "le": lambda: x <= y,
            "gt": lambda: x > y, "ge": lambda: x >= y}[op]()


REAL_UF = {}


def real_uf(name, *args):
    """Uninterpreted real function (exp, log, sqrt, ...)."""
    f = REAL_UF.get((name, len(args)))
    if f is None:
        f = REAL_UF[(name, len(args))] = z3.Function(f"uf_{name}", *([z3.RealSort()] * (len(args) + 1)))
    return SymReal(f(*[real_expr(a) for a in args]))


def round_half_even(v):
    if not is_sym(v):
        return float(_np.round(v))
    if type(v) in (SymInt, SymBool):
        return v
    e = v.e
    fl = z3.ToInt(e)
    d = e - z3.ToReal(fl)
    half = z3.RealVal("1/2")
    r = z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    return SymReal(z3.ToReal(r))


def do_ufunc(name, *inputs, out=None, where=True, dtype=None, casting=None, **kw):
    if kw:
        raise Unsupported(f"ufunc kwargs {kw}")
    raw = inputs
    ss = [as_sym(x) for x in inputs]
    if name in _CMP:
        op = _CMP[name]
        r = _mapn(lambda x, y: _cmp_elem(op, x, y), ss, np.dtype(bool))
    elif name in _AR:
        dt = np.dtype(dtype) if dtype is not None else _result_dtype(ss, raw)
        ss = [s.astype(dt, copy=False) for s in ss]
        r = _mapn(lambda x, y: _arith(_AR[name], x, y, dt), ss, dt)
    elif name in ("bitwise_and", "bitwise_or", "bitwise_xor"):
        dt = _result_dtype(ss, raw)
        if dt.kind == "b":
            f = {"bitwise_and": sand, "bitwise_or": sor}.get(name) or (
                lambda x, y: _as_bool_result(z3.simplify(z3.Xor(as_z3bool(x), as_z3bool(y)))))
        else:
            bits, sg = dt.itemsize * 8, dt.kind == "i"
            o = {"bitwise_and": lambda x, y: x & y, "bitwise_or": lambda x, y: x | y, "bitwise_xor": lambda x, y: x ^ y}[name]
            f = lambda x, y: wrap_to(to_int(o(x, y)), bits, sg)
        r = _mapn(f, [s.astype(dt, copy=False) for s in ss], dt)
    elif name in ("left_shift", "right_shift"):
        dt = _result_dtype(ss, raw)
        bits, sg = dt.itemsize * 8, dt.kind == "i"

        def f(x, y):
            if not is_sym(y):
                if y >= bits:
                    return 0 if name == "left_shift" or not is_sym(x) and x >= 0 else x >> (bits - 1)
            if name == "left_shift":
                if not is_sym(y):
                    return mod_op("mul", to_int(x), 1 << y, bits, sg)
                return wrap_to(to_int(x) << y, bits, sg)
            return wrap_to(to_int(x) >> y, bits, sg)
        r = _mapn(f, ss, dt)
    elif name in ("floor_divide", "remainder", "divmod"):
        dt = _result_dtype(ss, raw)
        if dt.kind not in "iu":
            raise Unsupported(name)
        bits, sg = dt.itemsize * 8, dt.kind == "i"

        def f(x, y):
            z = _cmp_elem("eq", y, 0)
            if bool(z):
                return 0
            q, m = divmod(to_int(x), to_int(y))
            return wrap_to(q if name == "floor_divide" else m, bits, sg)
        if name == "divmod":
            a = do_ufunc("floor_divide", *inputs)
            b = do_ufunc("remainder", *inputs)
            return a, b
        r = _mapn(f, ss, dt)
    elif name in ("divide", "true_divide"):
        dt = _result_dtype(ss, raw)
        if dt.kind != "f":
            dt = np.dtype(np.float64)

        def f(x, y):
            if not is_sym(x) and not is_sym(y):
                if y == 0:
                    raise Unsupported("division by concrete zero")
                return float(dt.type(dt.type(x) / dt.type(y)))
            if not is_sym(x) and x == 0:
                return 0.0
            return SymReal(real_expr(x) / real_expr(y))
        r = _mapn(f, ss, dt)
    elif name in ("logical_and", "logical_or", "logical_xor"):
        f = {"logical_and": sand, "logical_or": sor}.get(name) or (
            lambda x, y: _as_bool_result(z3.simplify(z3.Xor(as_z3bool(x), as_z3bool(y)))))
        r = _mapn(f, [s.astype(bool, copy=False) for s in ss], np.dtype(bool))
    elif name == "logical_not":
        r = _map1(snot, ss[0].astype(bool, copy=False), np.dtype(bool))
    elif name in ("maximum", "minimum", "fmax", "fmin"):
        dt = _result_dtype(ss, raw)
        f = (lambda x, y: ite(_cmp_elem("ge", x, y), x, y)) if "max" in name else (
            lambda x, y: ite(_cmp_elem("le", x, y), x, y))
        r = _mapn(f, [s.astype(dt, copy=False) for s in ss], dt)
    elif name in ("negative", "positive", "absolute", "fabs", "invert", "sign", "square", "conjugate"):
        s = ss[0]
        dt = s.dtype
        if name == "invert":
            if dt.kind == "b":
                r = _map1(snot, s, dt)
            else:
                r = _map1(lambda v: wrap_to(-1 - to_int(v), dt.itemsize * 8, dt.kind == "i"), s, dt)
        elif name == "negative":
            r = _map1(lambda v: _arith("sub", 0, v, dt) if dt.kind in "iu" else (-v), s, dt)
        elif name in ("absolute", "fabs"):
            r = _map1(lambda v: wrap_to(abs(to_int(v)), dt.itemsize * 8, dt.kind == "i") if dt.kind in "iu" else abs(v), s, dt)
        elif name == "square":
            r = _map1(lambda v: _arith("mul", v, v, dt), s, dt)
        elif name == "sign":
            one, zero = (1.0, 0.0) if dt.kind == "f" else (1, 0)
            r = _map1(lambda v: ite(v > 0, one, ite(v < 0, -one, zero)), s, dt)
        else:
            r = s.copy()
    elif name in ("floor", "ceil", "trunc", "rint"):
        s = ss[0]
        dt = s.dtype if s.dtype.kind == "f" else np.dtype(np.float64)

        def f(v):
            if not is_sym(v):
                return float(getattr(_np, name)(v))
            e = real_expr(v)
            if name == "floor":
                return SymReal(z3.ToReal(z3.ToInt(e)))
            if name == "ceil":
                return SymReal(-z3.ToReal(z3.ToInt(-e)))
            if name == "trunc":
                return SymReal(z3.If(e >= 0, z3.ToReal(z3.ToInt(e)), -z3.ToReal(z3.ToInt(-e))))
            return round_half_even(v)
        r = _map1(f, s, dt)
    elif name in ("isnan", "isinf"):
        r = _map1(lambda v: False if is_sym(v) else bool(getattr(_np, name)(v)), ss[0], np.dtype(bool))
    elif name == "isfinite":
        r = _map1(lambda v: True if is_sym(v) else bool(_np.isfinite(v)), ss[0], np.dtype(bool))
    elif name in ("exp", "log", "sqrt", "tanh", "log2", "log10", "log1p", "expm1", "sin", "cos"):
        dt = ss[0].dtype if ss[0].dtype.kind == "f" else np.dtype(np.float64)
        r = _map1(lambda v: real_uf(name, v) if is_sym(v) else float(getattr(_np, name)(v)), ss[0], dt)
    elif name == "power":
        dt = _result_dtype(ss, raw)

        def f(x, y):
            if not is_sym(x) and not is_sym(y):
                return py(dt.type(x) ** dt.type(y))
            if is_sym(y):
                raise Unsupported("symbolic power")
            if dt.kind in "iu":
                acc = 1
                for _ in range(int(y)):
                    acc = mod_op("mul", acc, to_int(x), dt.itemsize * 8, dt.kind == "i")
                return acc
            return SymReal(real_expr(x)) ** (int(y) if y == int(y) else y)
        r = _mapn(f, ss, dt)
    elif name == "matmul":
        return NP.dot(ss[0], ss[1])
    else:
        raise Unsupported(f"ufunc {name}")
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if where is not True:
            w = as_sym(where)
            cur = SymArray(np.broadcast_to(o.a, r.shape), o.dtype)
            r = NP.where(w, r, cur)
        setitem(o, Ellipsis, r)
        return o
    if where is not True:
        raise Unsupported("ufunc where without out")
    return _unwrap(r, raw)


def _bin(name, swap=False):
    def op(self, other):
        if not (isinstance(other, (int, float, np.ndarray, np.generic, list, tuple)) or is_sym(other)
                or type(other) is SymArray):
            return NotImplemented
        return do_ufunc(name, other, self) if swap else do_ufunc(name, self, other)
    return op


def _ibin(name):
    def op(self, other):
        r = as_sym(do_ufunc(name, self, other))
        if self._flags == "scalar":
            return r
        if r.dtype != self.dtype and not _np.can_cast(r.dtype, self.dtype, "same_kind"):
            raise TypeError(f"Cannot cast ufunc output from {r.dtype} to {self.dtype}")
        setitem(self, Ellipsis, r)
        return self
    return op


for _py, _nm in {"add": "add", "sub": "subtract", "mul": "multiply", "floordiv": "floor_divide", "mod": "remainder",
                 "truediv": "divide", "and": "bitwise_and", "or": "bitwise_or", "xor": "bitwise_xor",
                 "lshift": "left_shift", "rshift": "right_shift", "pow": "power", "matmul": "matmul",
                 "divmod": "divmod"}.items():
    setattr(SymArray, f"__{_py}__", _bin(_nm))
    setattr(SymArray, f"__r{_py}__", _bin(_nm, True))
    if _py != "divmod":
        setattr(SymArray, f"__i{_py}__", _ibin(_nm))
for _py, _nm in {"eq": "equal", "ne": "not_equal", "lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal"}.items():
    setattr(SymArray, f"__{_py}__", _bin(_nm))
SymArray.__neg__ = lambda s: do_ufunc("negative", s)
SymArray.__pos__ = lambda s: s
SymArray.__abs__ = lambda s: do_ufunc("absolute", s)
SymArray.__invert__ = lambda s: do_ufunc("invert", s)
SymArray.__round__ = lambda s, n=0: NP.round(s, n or 0)


def _sum_dtype(dt):
    if dt.kind == "b" or (dt.kind == "i" and dt.itemsize < 8):
        return np.dtype(np.int64)
    if dt.kind == "u" and dt.itemsize < 8:
        return np.dtype(np.uint64)
    return dt


def _reduce(s, f, init, axis, keepdims, dt):
    a = s.a
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(int(x) % a.ndim for x in axis)
    else:
        axes = (int(axis) % max(a.ndim, 1),)
    rest = [i for i in range(a.ndim) if i not in axes]
    moved = a.transpose(rest + list(axes)) if a.ndim else a
    rshape = tuple(a.shape[i] for i in rest)
    n = int(np.prod([a.shape[i] for i in axes])) if axes else 1
    m = moved.reshape(rshape + (n,)) if a.ndim else a.reshape((1,))
    out = np.empty(rshape, dtype=object)
    for idx in np.ndindex(*rshape):
        vals = list(m[idx]) if rshape or a.ndim else [a[()]]
        if init is None:
            if not vals:
                raise ValueError("zero-size array to reduction operation which has no identity")
            acc = vals[0]
            vals = vals[1:]
        else:
            acc = init
        for v in vals:
            acc = f(acc, v)
        out[idx] = cast_elem(acc, dt)
    r = SymArray(out, dt)
    if keepdims:
        return SymArray(out.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim))), dt)
    return _unwrap(r, None)


# ---------------------------------------------------------------- indexing

def _norm_key(key):
    """Turn a key into numpy-compatible object, reporting symbolic parts."""
    if not isinstance(key, tuple) or type(key) is SymArray:
        key = (key,)
    return key


def _key_part(k):
    """-> (concrete part or None, symbolic descriptor)"""
    t = type(k)
    if t is SymArray:
        if k.is_concrete():
            return k.concrete(), None
        return None, k
    if t is SymInt:
        return None, k
    if t is SymBool:
        return bool(k), None
    if t is slice:
        conv = lambda v: None if v is None else v.__index__()
        return slice(conv(k.start), conv(k.stop), conv(k.step)), None
    if t is list and contains_sym(k):
        return None, as_sym(k)
    return k, None


def getitem(s, key):
    parts = [_key_part(k) for k in _norm_key(key)]
    if all(d is None for _, d in parts):
        sub = s.a[tuple(p for p, _ in parts)] if len(parts) != 1 else s.a[parts[0][0]]
        if isinstance(sub, np.ndarray):
            if sub.dtype != object:
                raise Unsupported("object index")
            return SymArray(sub, s.dtype, s)
        return box(sub, s.dtype)
    # symbolic boolean mask: fork on which elements are selected
    if any(d is not None and type(d) is SymArray and d.dtype.kind == "b" for _, d in parts):
        conc = []
        for p, d in parts:
            if d is None:
                conc.append(p)
            elif type(d) is SymArray and d.dtype.kind == "b":
                conc.append(np.array([bool(v) for v in d.a.reshape(-1)], dtype=bool).reshape(d.shape))
            else:
                conc.append(d)
        return getitem(s, tuple(conc))
    # gather with symbolic integer indices
    if all(d is None or type(d) is SymInt or (type(d) is SymArray and d.dtype.kind in "iu") for _, d in parts):
        return _sym_gather(s, parts)
    raise Unsupported("symbolic index")


MAX_ITE = 64


def _sym_gather(s, parts):
    """All-integer symbolic advanced indexing through ite chains (1 symbolic axis), else fork."""
    sym_pos = [i for i, (p, d) in enumerate(parts) if d is not None]
    if len(sym_pos) == 1 and not any(p is Ellipsis or p is None for p, _ in parts):
        i = sym_pos[0]
        others = [p for j, (p, d) in enumerate(parts) if j != i]
        if all(isinstance(p, slice) or isinstance(p, (int, np.integer)) for p in others):
            n = s.a.shape[i]
            d = parts[i][1]
            if 0 < n <= MAX_ITE:
                idxs = [d] if type(d) is SymInt else list(d.a.reshape(-1))
                outs = []
                for ix in idxs:
                    if type(ix) is int:
                        ix2 = ix
                        if not -n <= ix2 < n:
                            raise IndexError("index out of bounds")
                        ix2 %= n
                        k = [p for p, _ in parts]
                        k[i] = ix2
                        outs.append(s.a[tuple(k)])
                        continue
                    ok = sand(ix >= -n, ix < n)
                    if not bool(ok):
                        raise IndexError("index is out of bounds")
                    acc = None
                    for v in range(n - 1, -1, -1):
                        k = [p for p, _ in parts]
                        k[i] = v
                        cur = s.a[tuple(k)]
                        if acc is None:
                            acc = cur
                            continue
                        c = sor(ix == v, ix == v - n) if ix.lo < 0 else (ix == v)
                        if isinstance(cur, np.ndarray):
                            acc2 = np.empty(cur.shape, dtype=object)
                            for q in np.ndindex(*cur.shape):
                                acc2[q] = ite(c, cur[q], acc[q])
                            acc = acc2
                        else:
                            acc = ite(c, cur, acc)
                    outs.append(acc)
                if type(d) is SymInt or d.a.ndim == 0:
                    r = outs[0]
                    return SymArray(r, s.dtype) if isinstance(r, np.ndarray) else box(r, s.dtype)
                inner = outs[0].shape if outs and isinstance(outs[0], np.ndarray) else ()
                res = np.empty((len(outs),) + inner, dtype=object)
                for q, o in enumerate(outs):
                    res[q] = o
                # result layout: index dims replace axis i (basic slices around)
                nb = sum(1 for p in [parts[j][0] for j in range(i)] if isinstance(p, slice))
                res = res.reshape(d.shape + inner)
                if nb:
                    src = list(range(d.a.ndim))
                    res = np.moveaxis(res, src, [x + nb for x in src])
                return SymArray(res, s.dtype)
    conc = []
    for p, d in parts:
        if d is None:
            conc.append(p)
        elif type(d) is SymInt:
            conc.append(d.__index__())
        else:
            conc.append(np.array([int(v) for v in d.a.reshape(-1)], dtype=np.int64).reshape(d.shape))
    return getitem(s, tuple(conc))


def setitem(s, key, value):
    dt = s.dtype
    if type(value) is SymArray:
        v = value.astype(dt, copy=False).a
    elif is_sym(value):
        v = _wrapobj(cast_elem(value, dt))
    elif isinstance(value, (list, tuple)) and contains_sym(value):
        v = as_sym(value).astype(dt, copy=False).a
    else:
        if dt.kind == "O":
            v = _wrapobj(value) if not isinstance(value, np.ndarray) else value
        else:
            arr = _np.asarray(value)
            if arr.dtype.kind in "iuf" and dt.kind in "iu" and not isinstance(value, (np.ndarray, np.generic)):
                arr = _np.asarray(value, dtype=dt)
            v = from_np(arr.astype(dt)).a
    parts = [_key_part(k) for k in _norm_key(key)]
    if all(d is None for _, d in parts):
        k = tuple(p for p, _ in parts) if len(parts) != 1 else parts[0][0]
        tgt = s.a[k]
        if isinstance(tgt, np.ndarray):
            if v.ndim > tgt.ndim:
                v = v.reshape(v.shape[v.ndim - tgt.ndim:]) if all(d == 1 for d in v.shape[:v.ndim - tgt.ndim]) else v
            b = np.broadcast_to(v, tgt.shape)
            s.a[k] = b
        else:
            s.a[k] = v.reshape(-1)[0]
        return
    syms = [d for _, d in parts if d is not None]
    if len(parts) == 1 and type(syms[0]) is SymArray and syms[0].dtype.kind == "b":
        m = syms[0]
        if v.ndim == 0 or v.size == 1 or v.shape == s.shape[m.ndim:]:
            # masked constant store: merge without forking
            for idx in np.ndindex(*m.shape):
                c = m.a[idx]
                if s.a.ndim == m.ndim:
                    s.a[idx] = ite(c, v.reshape(-1)[0], s.a[idx])
                else:
                    sub = s.a[idx]
                    bb = np.broadcast_to(v, sub.shape)
                    for q in np.ndindex(*sub.shape):
                        sub[q] = ite(c, bb[q], sub[q])
            return
    if len(parts) == 1 and type(syms[0]) is SymInt and s.a.ndim >= 1 and s.a.shape[0] <= MAX_ITE:
        ix, n = syms[0], s.a.shape[0]
        if not bool(sand(ix >= -n, ix < n)):
            raise IndexError("index out of bounds")
        for q in range(n):
            c = sor(ix == q, ix == q - n) if ix.lo < 0 else (ix == q)
            if s.a.ndim == 1:
                s.a[q] = ite(c, v.reshape(-1)[0], s.a[q])
            else:
                sub = s.a[q]
                bb = np.broadcast_to(v, sub.shape)
                for z in np.ndindex(*sub.shape):
                    sub[z] = ite(c, bb[z], sub[z])
        return
    if (len(parts) <= s.a.ndim and all((d is None and (isinstance(p, (int, slice, np.integer)) and type(p) is not bool)) or type(d) is SymInt for p, d in parts)):
        axes = [i for i, (_, d) in enumerate(parts) if d is not None]
        dims = [s.a.shape[i] for i in axes]
        if int(np.prod(dims)) <= MAX_ITE:
            for i, n in zip(axes, dims):
                ix = parts[i][1]
                if not bool(sand(ix >= -n, ix < n)):
                    raise IndexError("index out of bounds")
            for combo in np.ndindex(*dims):
                c = sand(*[(sor(parts[i][1] == q, parts[i][1] == q - n) if parts[i][1].lo < 0 else (parts[i][1] == q)) for i, q, n in zip(axes, combo, dims)])
                if c is False:
                    continue
                k = [p for p, _ in parts]
                for i, q in zip(axes, combo):
                    k[i] = q
                k = tuple(k)
                tgt = s.a[k]
                if isinstance(tgt, np.ndarray):
                    bb = np.broadcast_to(v, tgt.shape)
                    for z in np.ndindex(*tgt.shape):
                        tgt[z] = ite(c, bb[z], tgt[z])
                else:
                    s.a[k] = ite(c, v.reshape(-1)[0], tgt)
            return
    conc = []
    for p, d in parts:
        if d is None:
            conc.append(p)
        elif type(d) is SymInt:
            conc.append(d.__index__())
        elif d.dtype.kind == "b":
            conc.append(np.array([bool(x) for x in d.a.reshape(-1)], dtype=bool).reshape(d.shape))
        else:
            conc.append(np.array([int(x) for x in d.a.reshape(-1)], dtype=np.int64).reshape(d.shape))
    k = tuple(conc) if len(conc) != 1 else conc[0]
    tgt = s.a[k]
    if isinstance(tgt, np.ndarray):
        s.a[k] = np.broadcast_to(v, tgt.shape)
    else:
        s.a[k] = v.reshape(-1)[0]


def float_bytes(v, n):
    f = REAL_UF.get(("bits", n))
    if f is None:
        f = REAL_UF[("bits", n)] = z3.Function(f"uf_float_bits{n}", z3.RealSort(), z3.BitVecSort(8 * n))
    b = f(real_expr(v))
    return [SymInt(z3.Extract(8 * k + 7, 8 * k, b), 0, 255) for k in range(n)]


def _to_byte_array(s):
    """last axis expanded to little-endian bytes (uint8)."""
    dt = s.dtype
    n = dt.itemsize
    shp = s.shape if s.a.ndim else (1,)
    flat = s.a.reshape(-1)
    out = []
    for v in flat:
        if not is_sym(v) and not isinstance(v, Fraction):
            out += list(np.array(v, dtype=dt).tobytes())
            continue
        if dt.kind == "b":
            out.append(to_int(v))
            continue
        if dt.kind == "f":
            # an arbitrary but fixed bit pattern per value
            out += float_bytes(v, n)
            continue
        if dt.kind not in "iu":
            raise Unsupported("bytes of a symbolic value")
        b = wrap_to(to_int(v), n * 8, False).to_bytes(n, "little")
        parts = list(b.parts) if type(b) is SymBytes else list(b)
        if dt.byteorder == ">":
            parts.reverse()
        out += parts
    a = _objarr(out).reshape(shp[:-1] + (shp[-1] * n,))
    return SymArray(a, np.dtype(np.uint8))


def _from_byte_array(by, dt):
    from .sbytes import int_from_bytes
    n = dt.itemsize
    flat = by.a.reshape(-1)
    if by.shape[-1] % n:
        raise ValueError("view size mismatch")
    out = []
    for i in range(0, flat.size, n):
        parts = [flat[j] for j in range(i, i + n)]
        if all(type(p) is int for p in parts):
            out.append(np.frombuffer(bytes(parts), dtype=dt)[0].item())
        else:
            if dt.kind not in "iub":
                raise Unsupported("symbolic bytes to float")
            out.append(int_from_bytes(SymBytes(parts), "big" if dt.byteorder == ">" else "little", signed=dt.kind == "i"))
    return SymArray(_objarr(out).reshape(by.shape[:-1] + (by.shape[-1] // n,)), dt)


# ---------------------------------------------------------------- numpy module stand-in

def _sym_args(args, kwargs):
    return any(contains_sym(a) for a in args) or any(contains_sym(v) for v in kwargs.values())


class NumpyShim:
    """Stands in for `numpy`; everything concrete goes to the real module."""

    def __init__(self, allocate_symbolic=True):
        self._alloc = allocate_symbolic

    def __getattr__(self, name):
        v = getattr(_np, name)
        if isinstance(v, _np.ufunc):
            def uf(*a, **k):
                if _sym_args(a, k):
                    return do_ufunc(v.__name__, *a, **k)
                return v(*a, **k)
            uf.__name__ = name

            def reduce(x, *a, **k):
                if contains_sym(x):
                    axis = a[0] if a else k.get("axis", 0)
                    x = as_sym(x)
                    meth = {"add": "sum", "logical_and": "all", "logical_or": "any", "maximum": "max",
                            "minimum": "min", "multiply": "prod", "bitwise_or": "any"}.get(name)
                    if meth is None or (name == "bitwise_or" and x.dtype.kind != "b"):
                        raise Unsupported(f"{name}.reduce")
                    return getattr(x, meth)(axis=axis)
                return v.reduce(x, *a, **k)
            uf.reduce = reduce
            uf.at = v.at
            uf.outer = lambda x, y: do_ufunc(name, as_sym(x).reshape(as_sym(x).shape + (1,) * as_sym(y).ndim), y) \
                if contains_sym(x) or contains_sym(y) else v.outer(x, y)
            return uf
        if isinstance(v, type) and issubclass(v, _np.generic):
            return _ScalarType.get(v)
        if callable(v) and not isinstance(v, type):
            def f(*a, **k):
                if _sym_args(a, k):
                    if all(_concrete_ok(x) for x in a) and all(_concrete_ok(x) for x in k.values()):
                        a = tuple(_conc(x) for x in a)
                        k = {q: _conc(x) for q, x in k.items()}
                        return v(*a, **k)
                    raise Unsupported(f"numpy.{name} on symbolic data")
                return v(*a, **k)
            f.__name__ = name
            return f
        return v

    @property
    def ndarray(self):
        return _np.ndarray

    @property
    def dtype(self):
        return _np.dtype

    # -- creation
    def _mk(self, r):
        return from_np(r) if (self._alloc and active() and ctx().symbolic and r.dtype.kind in "biuf"
                              and r.size <= 65536) else r

    def empty(self, shape, dtype=float, order="C", **k):
        return self._mk(_np.zeros(_shape(shape), dtype))

    def zeros(self, shape, dtype=float, order="C", **k):
        return self._mk(_np.zeros(_shape(shape), dtype))

    def ones(self, shape, dtype=float, order="C", **k):
        return self._mk(_np.ones(_shape(shape), dtype))

    def full(self, shape, v, dtype=None, order="C", **k):
        if contains_sym(v):
            s = as_sym(v)
            dt = np.dtype(dtype) if dtype is not None else s.dtype
            out = np.empty(_shape(shape), dtype=object)
            r = SymArray(out, dt)
            setitem(r, Ellipsis, s)
            return r
        return self._mk(_np.full(_shape(shape), v, dtype))

    def empty_like(self, x, dtype=None, order="K", subok=True, shape=None):
        return self._mk(_np.zeros(x.shape if shape is None else _shape(shape), dtype or x.dtype))

    zeros_like = empty_like

    def ones_like(self, x, dtype=None, **k):
        return self._mk(_np.ones(x.shape, dtype or x.dtype))

    def full_like(self, x, v, dtype=None, **k):
        return self.full(x.shape, v, dtype or x.dtype)

    def asarray(self, x, dtype=None, order=None, **k):
        if contains_sym(x):
            return as_sym(x, dtype)
        return _np.asarray(x, dtype=dtype)

    def ascontiguousarray(self, x, dtype=None):
        r = self.asarray(x, dtype)
        return r if type(r) is SymArray else _np.ascontiguousarray(r)

    asanyarray = asarray

    def array(self, x, dtype=None, copy=True, order=None, ndmin=0, **k):
        if contains_sym(x):
            r = as_sym(x, dtype)
            return r.copy() if copy else r
        return self._mk(_np.array(x, dtype=dtype, copy=copy, ndmin=ndmin))

    def copy(self, x, *a, **k):
        return x.copy() if type(x) is SymArray else _np.copy(x)

    def arange(self, *a, **k):
        if _sym_args(a, k):
            a = tuple(int(x) if contains_sym(x) else x for x in a)
        return _np.arange(*a, **k)

    def fromiter(self, it, dtype, count=-1):
        items = list(it)
        if contains_sym(items):
            return as_sym(items, dtype)
        return _np.fromiter(items, dtype, count)

    def frombuffer(self, buf, dtype=float, count=-1, offset=0):
        if type(buf) is SymBytes:
            dt = np.dtype(dtype)
            parts = buf.parts[offset:]
            if count >= 0:
                if len(parts) < count * dt.itemsize:
                    raise ValueError("buffer is smaller than requested size")
                parts = parts[:count * dt.itemsize]
            if len(parts) % dt.itemsize:
                raise ValueError("buffer size must be a multiple of element size")
            return _from_byte_array(SymArray(_objarr(parts), np.dtype(np.uint8)), dt)
        return _np.frombuffer(buf, dtype, count, offset)

    # -- shape
    def _wrap_shape(name):
        def f(self, x, *a, **k):
            if type(x) is SymArray:
                return SymArray(getattr(_np, name)(x.a, *[_conc(v) for v in a], **k), x.dtype, x)
            return getattr(_np, name)(_conc(x) if contains_sym(x) and not _is_symseq(x) else x, *a, **k)
        f.__name__ = name
        return f

    for _n in ("reshape", "transpose", "swapaxes", "moveaxis", "expand_dims", "squeeze", "flip", "fliplr", "flipud",
               "rot90", "ravel", "broadcast_to", "tile", "roll", "repeat", "delete", "diagonal", "atleast_1d", "atleast_2d"):
        locals()[_n] = _wrap_shape(_n)
    del _n, _wrap_shape

    def shape(self, x):
        return x.shape if type(x) is SymArray else _np.shape(x)

    def ndim(self, x):
        return x.ndim if type(x) is SymArray else (0 if is_sym(x) else _np.ndim(x))

    def size(self, x, axis=None):
        return x.size if type(x) is SymArray else _np.size(x, axis)

    def _join(name):
        def f(self, seq, axis=0, **k):
            seq = list(seq) if not isinstance(seq, (list, tuple)) else seq
            if contains_sym(seq):
                ss = [as_sym(x) for x in seq]
                dt = _np.result_type(*[s.dtype for s in ss]) if k.get("dtype") is None else np.dtype(k["dtype"])
                return SymArray(getattr(_np, name)([s.astype(dt, copy=False).a for s in ss], axis=axis), dt)
            return getattr(_np, name)(seq, axis=axis, **k)
        return f

    concatenate = _join("concatenate")
    stack = _join("stack")
    del _join

    def hstack(self, seq):
        seq = list(seq)
        return self.concatenate(seq, axis=0 if as_sym(seq[0]).ndim == 1 else 1)

    def vstack(self, seq):
        seq = [self.atleast_2d(s) for s in seq]
        return self.concatenate(seq, axis=0)

    def append(self, x, v, axis=None):
        return self.concatenate([as_sym(x).ravel(), as_sym(v).ravel()]) if axis is None else self.concatenate([x, v], axis=axis)

    def split(self, x, n, axis=0):
        if type(x) is SymArray:
            return [SymArray(p, x.dtype, x) for p in _np.split(x.a, n, axis)]
        return _np.split(x, n, axis)

    def pad(self, x, pad_width, mode="constant", constant_values=0, **k):
        if type(x) is SymArray:
            if mode != "constant":
                raise Unsupported("pad mode")
            r = _np.pad(x.a, pad_width, mode="constant", constant_values=cast_elem(constant_values, x.dtype))
            return SymArray(r, x.dtype)
        if mode == "constant":
            return _np.pad(x, pad_width, mode=mode, constant_values=constant_values, **k)
        return _np.pad(x, pad_width, mode=mode, **k)

    # -- elementwise
    def where(self, c, *xy):
        if not xy:
            return self.nonzero(c)
        x, y = xy
        if not (contains_sym(c) or contains_sym(x) or contains_sym(y)):
            return _np.where(c, x, y)
        cs, xs, ys = as_sym(c).astype(bool, copy=False), as_sym(x), as_sym(y)
        dt = _result_dtype([xs, ys], [x, y])
        r = _mapn(lambda p, a, b: ite(p, a, b), [cs, xs.astype(dt, copy=False), ys.astype(dt, copy=False)], dt)
        return r

    def clip(self, x, lo=None, hi=None, out=None, **k):
        if not (contains_sym(x) or contains_sym(lo) or contains_sym(hi)):
            return _np.clip(x, lo, hi, out=out, **k) if not k else _np.clip(x, **k)
        r = x
        if lo is not None:
            r = do_ufunc("maximum", r, lo)
        if hi is not None:
            r = do_ufunc("minimum", r, hi)
        if out is not None:
            setitem(out, Ellipsis, r)
            return out
        return r

    def round(self, x, decimals=0, out=None):
        if not contains_sym(x):
            return _np.round(x, decimals)
        if decimals:
            raise Unsupported("round decimals")
        s = as_sym(x)
        if s.dtype.kind in "iub":
            return s.copy()
        return _unwrap(_map1(round_half_even, s, s.dtype), None)

    around = round

    def sum(self, x, axis=None, dtype=None, out=None, keepdims=False, **k):
        if not contains_sym(x):
            return _np.sum(x, axis=axis, dtype=dtype, keepdims=keepdims)
        s = as_sym(x)
        dt = np.dtype(dtype) if dtype is not None else _sum_dtype(s.dtype)
        s = s.astype(dt, copy=False)
        return _reduce(s, lambda p, q: _arith("add", p, q, dt), 0.0 if dt.kind == "f" else 0, axis, keepdims, dt)

    def _red(name):
        def f(self, x, axis=None, **k):
            if not contains_sym(x):
                return getattr(_np, name)(x, axis=axis, **k)
            k.pop("out", None)
            return getattr(as_sym(x), {"amax": "max", "amin": "min"}.get(name, name))(axis=axis, **k)
        return f

    for _n in ("all", "any", "max", "min", "amax", "amin", "mean", "prod", "argmax", "argmin", "cumsum"):
        locals()[_n] = _red(_n)
    del _n, _red

    def count_nonzero(self, x, axis=None):
        if not contains_sym(x):
            return _np.count_nonzero(x, axis=axis)
        return self.sum(as_sym(x).astype(bool), axis=axis)

    def nonzero(self, x):
        if not contains_sym(x):
            return _np.nonzero(x)
        s = as_sym(x).astype(bool)
        m = np.array([bool(v) for v in s.a.reshape(-1)], dtype=bool).reshape(s.shape)   # forks
        return _np.nonzero(m)

    def flatnonzero(self, x):
        if not contains_sym(x):
            return _np.flatnonzero(x)
        return self.nonzero(as_sym(x).ravel())[0]

    def argwhere(self, x):
        return _np.stack(self.nonzero(x), axis=1) if contains_sym(x) else _np.argwhere(x)

    def isin(self, x, vals, **k):
        if not (contains_sym(x) or contains_sym(vals)):
            return _np.isin(x, vals, **k)
        s = as_sym(x)
        vs = list(as_sym(vals).a.reshape(-1))
        return _map1(lambda v: sor(*[_cmp_elem("eq", v, w) for w in vs]), s, np.dtype(bool))

    def array_equal(self, x, y, **k):
        if not (contains_sym(x) or contains_sym(y)):
            return _np.array_equal(x, y, **k)
        a, b = as_sym(x), as_sym(y)
        if a.shape != b.shape:
            return False
        return sand(*[_cmp_elem("eq", p, q) for p, q in zip(a.a.reshape(-1), b.a.reshape(-1))])

    def allclose(self, x, y, *a, **k):
        raise Unsupported("allclose")

    def sort(self, x, axis=-1, kind=None):
        if not contains_sym(x):
            return _np.sort(x, axis=axis, kind=kind)
        s = as_sym(x)
        if s.ndim != 1:
            raise Unsupported("sort nd")
        v = list(s.a)
        n = len(v)
        for i in range(n):               # bubble network, no forks
            for j in range(n - 1 - i):
                c = v[j] <= v[j + 1]
                v[j], v[j + 1] = ite(c, v[j], v[j + 1]), ite(c, v[j + 1], v[j])
        return SymArray(_objarr(v), s.dtype)

    def argsort(self, x, axis=-1, kind=None, **k):
        if not contains_sym(x):
            return _np.argsort(x, axis=axis, kind=kind)
        s = as_sym(x)
        if s.ndim != 1:
            raise Unsupported("argsort nd")
        import functools
        v = list(s.a)

        def cmp(i, j):
            if bool(v[i] < v[j]):
                return -1
            if bool(v[j] < v[i]):
                return 1
            return 0
        return _np.array(sorted(range(len(v)), key=functools.cmp_to_key(cmp)), dtype=np.intp)

    def unique(self, x, return_index=False, return_inverse=False, return_counts=False, axis=None):
        if not contains_sym(x):
            return _np.unique(x, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts, axis=axis)
        s = as_sym(x)
        if axis is not None:
            raise Unsupported("unique axis")
        if any(is_sym(v) and type(v) is not SymInt for v in s.a.reshape(-1)):
            raise Unsupported("unique of symbolic reals")
        c = np.array([int(v) for v in s.a.reshape(-1)], dtype=s.dtype).reshape(s.shape)
        return _np.unique(c, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts)

    def searchsorted(self, a, v, side="left", sorter=None):
        if not (contains_sym(a) or contains_sym(v)):
            return _np.searchsorted(a, v, side=side)
        arr = as_sym(a)
        s = as_sym(v)
        op = "lt" if side == "left" else "le"
        r = _map1(lambda x: _count([_cmp_elem(op, w, x) for w in arr.a]), s, np.dtype(np.int64))
        return _unwrap(r, None)

    def diff(self, x, n=1, axis=-1):
        if not contains_sym(x):
            return _np.diff(x, n=n, axis=axis)
        s = as_sym(x)
        if s.ndim != 1 or n != 1:
            raise Unsupported("diff")
        return s[1:] - s[:-1]

    def dot(self, x, y):
        if not (contains_sym(x) or contains_sym(y)):
            return _np.dot(x, y)
        a, b = as_sym(x), as_sym(y)
        dt = _np.result_type(a.dtype, b.dtype)
        a, b = a.astype(dt, copy=False), b.astype(dt, copy=False)
        if a.ndim == 1 and b.ndim == 1:
            return NP.sum(a * b)
        if a.ndim == 2 and b.ndim == 1:
            return NP.sum(a * b, axis=1)
        if a.ndim == 1 and b.ndim == 2:
            return NP.sum(a.reshape(-1, 1) * b, axis=0)
        if a.ndim >= 2 and b.ndim == 2:
            r = a.reshape(a.shape + (1,)) * b
            return NP.sum(r, axis=a.ndim - 1)
        raise Unsupported("dot")

    matmul = dot

    def einsum(self, *a, **k):
        if _sym_args(a, k):
            raise Unsupported("einsum")
        return _np.einsum(*a, **k)

    def take(self, x, idx=None, axis=None, indices=None, **k):
        idx = indices if idx is None else idx
        if not (contains_sym(x) or contains_sym(idx)):
            return _np.take(x, idx, axis=axis, **k)
        s = as_sym(x)
        if axis is None:
            return s.ravel()[idx]
        key = [slice(None)] * (axis % s.ndim) + [idx]
        return s[tuple(key)]

    def unpackbits(self, x, axis=None, count=None, bitorder="big"):
        if not contains_sym(x):
            return _np.unpackbits(x, axis=axis, count=count, bitorder=bitorder)
        s = as_sym(x)
        if s.dtype != np.uint8:
            raise TypeError("Expected an input array of unsigned byte data type")
        if axis is None:
            s = s.ravel()
            axis = 0
        axis %= s.ndim
        m = np.moveaxis(s.a, axis, -1)
        out = np.empty(m.shape[:-1] + (m.shape[-1] * 8,), dtype=object)
        for idx in np.ndindex(*m.shape):
            for b in range(8):
                sh = 7 - b if bitorder == "big" else b
                out[idx[:-1] + (idx[-1] * 8 + b,)] = (m[idx] >> sh) & 1
        if count is not None:
            n = out.shape[-1]
            if count < 0:
                out = out[..., :n + count]
            else:
                out = out[..., :count]
                if count > n:
                    pad = np.zeros(out.shape[:-1] + (count - n,), dtype=object)
                    out = np.concatenate([out, pad], axis=-1)
        return SymArray(np.moveaxis(out, -1, axis), np.dtype(np.uint8))

    def packbits(self, x, axis=None, bitorder="big"):
        if not contains_sym(x):
            return _np.packbits(x, axis=axis, bitorder=bitorder)
        s = as_sym(x)
        if axis is None:
            s = s.ravel()
            axis = 0
        axis %= s.ndim
        m = np.moveaxis(s.astype(bool).a, axis, -1)
        n = m.shape[-1]
        out = np.empty(m.shape[:-1] + ((n + 7) // 8,), dtype=object)
        for idx in np.ndindex(*out.shape):
            acc = 0
            for b in range(8):
                p = idx[-1] * 8 + b
                if p < n:
                    sh = 7 - b if bitorder == "big" else b
                    acc = acc + (to_int(m[idx[:-1] + (p,)]) << sh)
            out[idx] = acc
        return SymArray(np.moveaxis(out, -1, axis), np.dtype(np.uint8))

    def copyto(self, dst, src, casting=None, where=True):
        if type(dst) is SymArray:
            if where is True:
                dst[...] = src
            else:
                dst[...] = self.where(where, src, dst)
            return
        if contains_sym(src):
            raise Unsupported("copyto real array")
        _np.copyto(dst, src, where=where)

    def bincount(self, x, weights=None, minlength=0):
        if not _sym_args((x, weights), {}):
            return _np.bincount(x, weights, minlength)
        raise Unsupported("bincount")

    def shares_memory(self, a, b):
        return type(a) is SymArray and type(b) is SymArray and _np.shares_memory(a.a, b.a) or (
            type(a) is not SymArray and type(b) is not SymArray and _np.shares_memory(a, b))

    def result_type(self, *a):
        return _np.result_type(*[x.dtype if type(x) is SymArray else x for x in a])

    def can_cast(self, f, t, casting="safe"):
        return _np.can_cast(f.dtype if type(f) is SymArray else f, t, casting)

    def isscalar(self, x):
        return is_sym(x) or (type(x) is SymArray and x._flags == "scalar") or _np.isscalar(x)

    def errstate(self, **k):
        return _np.errstate(**k)

    def iinfo(self, d):
        return _np.iinfo(d.real if isinstance(d, _ScalarTypeMeta) else d)

    def finfo(self, d):
        return _np.finfo(d)


def _count(cs):
    r = 0
    for c in cs:
        r = r + to_int(c)
    return r


def _is_symseq(x):
    return type(x) in (list, tuple)


def _concrete_ok(x):
    if type(x) is SymArray:
        return x.is_concrete()
    return not contains_sym(x)


def _conc(x):
    if type(x) is SymArray and x.is_concrete():
        return x.concrete()
    return x


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(v.__index__() for v in s)
    return s.__index__()


class _ScalarTypeMeta(type):
    pass


class _ScalarType:
    """np.uint64 etc.: the real type, but calling it on symbolic data builds a scalar.

    A subclass would break `dtype=` uses, so the real type is returned and the loader
    rewrites *calls* of np.<type>(x) through `call_scalar_type`."""
    @staticmethod
    def get(t):
        return t


def call_scalar_type(t, *args):
    if args and contains_sym(args[0]):
        x = args[0]
        if type(x) is SymInt:
            dt = np.dtype(t)
            if dt.kind in "iu":
                _range_check(x, dt)
        s = as_sym(x).astype(t)
        if s.a.ndim == 0:
            return box(s.a[()], s.dtype)
        return s
    return t(*args)


NP = NumpyShim()
