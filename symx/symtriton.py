"""Executes the Python body of a `@triton.jit` kernel symbolically.

`Launcher(kernel_fn)[grid](...)` runs the undecorated kernel function once per program id with a stand-in
`triton.language`: values are object arrays of exact elements, pointers are (buffer, offsets), loads and
stores are masked, out-of-bounds unmasked accesses are reported.  Programs run in an arbitrary but fixed
order; every store address is recorded so that a race (two programs writing one cell) is reported.
"""
from __future__ import annotations

import itertools
from fractions import Fraction

import numpy as np
import torch

from . import symtorch as st
from .engine import Unsupported
from .values import is_sym, SymBool, sand, sor, snot


class OutOfBounds(Exception):
    pass


class Race(Exception):
    pass


def _a(x):
    if isinstance(x, V):
        return x.a
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def _norm1(x):
    if type(x) is float and x == x and x not in (st.INF, -st.INF):
        return Fraction(x)
    return x


def _bin(f):
    def g(self, other):
        if isinstance(other, Ptr):
            return NotImplemented
        return V(st.bcast(f, list(np.broadcast_arrays(self.a, _a(other)))))

    def r(self, other):
        return V(st.bcast(f, list(np.broadcast_arrays(_a(other), self.a))))
    return g, r


def _num(f):
    def g(x, y):
        x, y = _norm1(x), _norm1(y)
        if isinstance(x, Fraction) and type(y) in (int, bool):
            y = Fraction(int(y))
        if isinstance(y, Fraction) and type(x) in (int, bool):
            x = Fraction(int(x))
        if st._pykind(x) == "f" or st._pykind(y) == "f":
            x, y = st._norm(x, "f"), st._norm(y, "f")
        return f(x, y)
    return g


def _and(x, y):
    return sand(x, y) if (is_sym(x) or is_sym(y) or isinstance(x, bool)) else x & y


def _or(x, y):
    return sor(x, y) if (is_sym(x) or is_sym(y) or isinstance(x, bool)) else x | y


def _add(x, y):
    return st.e_add(x, y) if st._pykind(x) == "f" else x + y


def _sub(x, y):
    return st.e_sub(x, y) if st._pykind(x) == "f" else x - y


def _mul(x, y):
    return st.e_mul(x, y) if st._pykind(x) == "f" else x * y


def _div(x, y):
    return st.e_div(st._norm(x, "f"), st._norm(y, "f"))


class V:
    """tensor value inside a kernel"""
    __array_priority__ = 1000
    _kernel_value = True

    def __init__(self, a):
        self.a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) or a.dtype != object else a

    shape = property(lambda s: s.a.shape)
    __add__, __radd__ = _bin(_num(_add))
    __sub__, __rsub__ = _bin(_num(_sub))
    __mul__, __rmul__ = _bin(_num(_mul))
    __truediv__, __rtruediv__ = _bin(_num(_div))
    __floordiv__, __rfloordiv__ = _bin(lambda x, y: x // y)
    __mod__, __rmod__ = _bin(lambda x, y: x % y)
    __lt__, __gt__ = _bin(_num(st.e_cmp("lt")))[0], _bin(_num(st.e_cmp("gt")))[0]
    __le__, __ge__ = _bin(_num(st.e_cmp("le")))[0], _bin(_num(st.e_cmp("ge")))[0]
    __eq__, __ne__ = _bin(_num(st.e_cmp("eq")))[0], _bin(_num(st.e_cmp("ne")))[0]
    __and__, __rand__ = _bin(_and)
    __or__, __ror__ = _bin(_or)
    __hash__ = None

    def __neg__(self):
        return V(st.bcast(lambda x: -x, [self.a]))

    def __invert__(self):
        return V(st.bcast(lambda x: snot(x) if isinstance(x, (bool, SymBool, np.bool_)) else ~x, [self.a]))

    def __getitem__(self, i):
        return V(self.a[i])

    def to(self, dt, **kw):
        if isinstance(dt, _PtrType):
            if self.a.ndim:
                raise Unsupported("vector of pointers")
            return dt.mem.at(int(self.a[()]))
        if dt in ("f",):
            return V(st.bcast(lambda x: st._norm(x, "f"), [self.a]))
        if dt in ("i",):
            return V(st.bcast(lambda x: st._norm(x, "i"), [self.a]))
        raise Unsupported(f"cast {dt}")

    def __bool__(self):
        return bool(self.a[()])

    def __index__(self):
        return int(self.a[()])


class Buf:
    """device memory: a list of cells"""

    def __init__(self, get, put, n, name=""):
        self.get, self.put, self.n, self.name = get, put, n, name

    @staticmethod
    def of(t, name=""):
        """memory behind a torch tensor (its whole storage)"""
        if isinstance(t, st.SymTensor):
            k = st.kind_of(t.dtype)

            def put(i, v):
                t._store[i] = st._norm(v, k)
            b = Buf(lambda i: t._store[i], put, len(t._store), name)
            b.base = int(t._idx.reshape(-1)[0]) if t._idx.size else 0
            return b
        flat = torch.as_strided(t.detach(), (t.untyped_storage().nbytes() // t.element_size(),), (1,), 0)

        def put(i, v):
            flat[i] = v if type(v) in (int, float, bool) else float(v)

        def get(i):
            v = flat[i].item()
            return _norm1(v)
        b = Buf(get, put, flat.numel(), name)
        b.base = t.storage_offset()
        return b


class Ptr:
    def __init__(self, buf, off):
        self.buf, self.off = buf, off

    def __add__(self, o):
        return Ptr(self.buf, V(_a(self.off)) + o)

    __radd__ = __add__


class _PtrType:
    def __init__(self, mem):
        self.mem = mem


class Memory:
    """address space for kernels taking integer addresses; 4 bytes per element"""

    def __init__(self, base=1 << 20):
        self.next, self.map = base, {}

    def alloc(self, buf, addr=None):
        if addr is None:
            addr, self.next = self.next, self.next + 4 * (buf.n + 64)
        self.map[addr] = buf
        return addr

    def at(self, addr):
        for a, b in self.map.items():
            if a <= addr < a + 4 * b.n or addr == a:
                return Ptr(b, (addr - a) // 4)
        raise OutOfBounds(f"address {addr}")


class Lang:
    float32, int32, int64, bfloat16, constexpr = "f", "i", "i", "f", None

    def __init__(self, mem=None):
        self.mem, self.pid, self.writes, self.order = mem, (0,), None, None

    def program_id(self, axis):
        return V(_a(self.pid[axis]))

    def pointer_type(self, dt):
        return _PtrType(self.mem)

    @staticmethod
    def arange(a, b):
        o = np.empty(b - a, dtype=object)
        o[:] = list(range(a, b))
        return V(o)

    @staticmethod
    def static_range(*a):
        return range(*[int(x) for x in a])

    range = static_range

    def load(self, p, mask=None, other=None):
        off = _a(p.off)
        m = np.broadcast_to(_a(True if mask is None else mask), off.shape)
        off, m = np.broadcast_arrays(off, m)
        o = np.broadcast_to(_a(0 if other is None else other), off.shape)
        out = np.empty(off.shape, dtype=object)
        for i in np.ndindex(off.shape):
            mm, k = m[i], off[i]
            if is_sym(mm):
                mm = bool(mm)
            if not mm:
                out[i] = _norm1(o[i])
                continue
            if is_sym(k):
                out[i] = self._select(p.buf, k)
                continue
            k = int(k)
            if not 0 <= k < p.buf.n:
                raise OutOfBounds(f"load {p.buf.name}[{k}] of {p.buf.n}")
            out[i] = p.buf.get(k)
        return V(out)

    @staticmethod
    def _select(buf, k):
        return buf.get(int(k))   # forks over feasible addresses

    def store(self, p, v, mask=None):
        off = _a(p.off)
        v = _a(v)
        m = _a(True if mask is None else mask)
        off, v, m = np.broadcast_arrays(off, v, m)
        for i in np.ndindex(off.shape):
            if not bool(m[i]):
                continue
            k = int(off[i])
            if not 0 <= k < p.buf.n:
                raise OutOfBounds(f"store {p.buf.name}[{k}] of {p.buf.n}")
            w = self.writes.setdefault((id(p.buf), k), self.pid)
            if w != self.pid:
                raise Race(f"{p.buf.name}[{k}] written by programs {w} and {self.pid}")
            p.buf.put(k, v[i])

    @staticmethod
    def sqrt(x):
        return V(st.bcast(st_sqrt, [_a(x)]))

    @staticmethod
    def exp(x):
        return V(st.bcast(lambda e: st_fn("exp", e), [_a(x)]))

    @staticmethod
    def log(x):
        return V(st.bcast(lambda e: st_fn("log", e), [_a(x)]))

    @staticmethod
    def fma(a, b, c):
        return V(_a(a)) * V(_a(b)) + V(_a(c))

    @staticmethod
    def where(c, a, b):
        c, a, b = np.broadcast_arrays(_a(c), _a(a), _a(b))

        def f(x, y, z):
            y, z = _norm1(y), _norm1(z)
            return st.e_where(x, y, z)
        return V(st.bcast(f, [c, a, b]))

    @staticmethod
    def trans(x):
        return V(x.a.T)

    @staticmethod
    def dot(a, b, acc=None, out_dtype=None, **kw):
        r = V(st._mm2(a.a, b.a))
        return r if acc is None else acc + r

    @staticmethod
    def _red(x, axis, f):
        a = x.a if axis is not None else x.a.reshape(-1)
        a = np.moveaxis(a, axis or 0, -1)
        out = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = f([_norm1(e) for e in a[i]])
        return V(out)

    def sum(self, x, axis=None):
        return self._red(x, axis, lambda r: st.s_sum(r) if st._pykind(r[0]) == "f" else st.i_sum(r))

    def _best(self, r, lt):
        b = r[0]
        for y in r[1:]:
            b = st.e_where(_num(lt)(y, b), y, b)
        return b

    def min(self, x, axis=None):
        return self._red(x, axis, lambda r: self._best(r, st.e_cmp("lt")))

    def max(self, x, axis=None):
        return self._red(x, axis, lambda r: self._best(r, st.e_cmp("gt")))

    def argmin(self, x, axis=None, tie_break_left=True):
        def f(r):
            b = 0
            for j in range(1, len(r)):
                if bool(_num(st.e_cmp("lt"))(r[j], r[b])):
                    b = j
            return b
        return self._red(x, axis, f)

    @staticmethod
    def zeros(shape, dtype=None):
        o = np.empty(tuple(shape), dtype=object)
        o[...] = Fraction(0)
        return V(o)


def st_fn(name, e):
    with st.mode():
        t = getattr(torch, name)(st.mk(_a(st._norm(_norm1(e), "f")), torch.float32))
    return t.data_array().reshape(())[()]


def st_sqrt(e):
    return st_fn("sqrt", e)


class Launcher:
    """stand-in for a JITFunction: kernel[grid](args) executes every program symbolically"""

    def __init__(self, fn, lang, glob=None, defer=None):
        import types
        f = getattr(fn, "fn", fn)
        g = dict(f.__globals__)
        g["tl"] = lang
        g.update(glob or {})
        self.fn = types.FunctionType(f.__code__, g, f.__name__, f.__defaults__, f.__closure__)
        self.lang, self.defer, self.launches = lang, defer, 0

    def __getitem__(self, grid):
        def launch(*args, num_warps=None, num_stages=None, **kw):
            self.launches += 1
            run = lambda: self._run(grid, args, kw)
            if self.defer:
                self.defer(run)
            else:
                run()
        return launch

    def _run(self, grid, args, kw):
        conv = [Ptr(b, b.base) if isinstance(x, torch.Tensor) and (b := Buf.of(x, str(i))) is not None else Ptr(x.buf, 0) if isinstance(x, Table) else x for i, x in enumerate(args)]
        self.lang.writes = {}
        for pid in itertools.product(*[range(int(g)) for g in grid]):
            self.lang.pid = pid
            self.fn(*[V(_a(_norm1(x))) if isinstance(x, (int, float, Fraction)) or is_sym(x) else x for x in conv[:0]] + conv, **kw)


class Table:
    """integer table in device memory (pointer tables)"""

    def __init__(self, values):
        self.v = list(values)
        self.buf = Buf(lambda i: self.v[i], lambda i, x: self.v.__setitem__(i, x), len(self.v), "table")
