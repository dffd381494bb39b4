"""ctypes / io models: structures and streams over byte strings with symbolic content."""
from __future__ import annotations

import ctypes as _ctypes
import io as _io

from .engine import ctx, Unsupported
from .sbytes import SymBytes, has_sym
from .values import to_int, wrap_to, is_sym


def _field(data, off, size, bits, bitoff, signed):
    v = 0
    for i in range(size):
        v = v | (to_int(data[off + i]) << (8 * i)) if i else to_int(data[off])
    if bits:
        v = (v >> bitoff) & ((1 << bits) - 1)
        n = bits
    else:
        n = 8 * size
    if signed:
        v = wrap_to(v, n, True)
    return v


def _kind(t):
    return t._type_ in "bhilq" if hasattr(t, "_type_") and isinstance(t._type_, str) else None


class _SMeta(type(_ctypes.Structure)):
    def __new__(m, name, bases, ns):
        if "_fields_" in ns:
            ns["_fields_"] = [(f[0], f[1].t if isinstance(f[1], CType) else f[1]) + tuple(f[2:]) for f in ns["_fields_"]]
        return super().__new__(m, name, bases, ns)

    def __mul__(cls, n):
        return super().__mul__(int(n))


class Structure(_ctypes.Structure, metaclass=_SMeta):
    _symx_data = None

    def __getattribute__(self, name):
        d = object.__getattribute__(self, "__dict__").get("_symx_data")
        if d is not None and not name.startswith("_"):
            for f in type(self)._fields_:
                if f[0] == name:
                    desc = getattr(type(self), name)
                    bits = desc.size >> 16 if len(f) > 2 else 0
                    return _field(d, desc.offset, _ctypes.sizeof(f[1]), bits, desc.size & 0xFFFF if bits else 0, _kind(f[1]))
        return super().__getattribute__(name)

    @classmethod
    def from_buffer_copy(cls, b, offset=0):
        if has_sym(b):
            n = _ctypes.sizeof(cls)
            if len(b) - offset < n:
                raise ValueError(f"Buffer size too small ({len(b)} instead of at least {n + offset} bytes)")
            r = cls()
            r.__dict__["_symx_data"] = list(b[offset:offset + n])
            return r
        return super().from_buffer_copy(bytes(b), offset)

    from_buffer = from_buffer_copy


class CArr:
    def __init__(self, t, n):
        self.t, self.n, self.data = t, n, [0] * (_ctypes.sizeof(t.t) * n)

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self[j] for j in range(self.n)[i]]
        k = _ctypes.sizeof(self.t.t)
        i = range(self.n)[i]
        return _field(self.data, i * k, k, 0, 0, _kind(self.t.t))

    def __iter__(self):
        return (self[i] for i in range(self.n))


class CArrType:
    def __init__(self, t, n):
        self.t, self.n = t, n

    def __call__(self):
        return CArr(self.t, self.n)

    def from_buffer_copy(self, b, offset=0):
        r = CArr(self.t, self.n)
        if len(b) - offset < len(r.data):
            raise ValueError("Buffer size too small")
        r.data = list(b[offset:offset + len(r.data)])
        return r


class CType:
    def __init__(self, t):
        self.t = t

    def __mul__(self, n):
        n = int(n)
        if n < 0:
            raise ValueError("Array length must be >= 0")
        return CArrType(self, n)

    __rmul__ = __mul__

    def __call__(self, *a):
        return self.t(*a)


def sizeof(x):
    if isinstance(x, CArr):
        return len(x.data)
    if isinstance(x, CArrType):
        return _ctypes.sizeof(x.t.t) * x.n
    if isinstance(x, CType):
        return _ctypes.sizeof(x.t)
    return _ctypes.sizeof(x)


class CTypesShim:
    Structure = Structure
    sizeof = staticmethod(sizeof)

    def __getattr__(self, n):
        v = getattr(_ctypes, n)
        if isinstance(v, type) and issubclass(v, _ctypes._SimpleCData):
            v = CType(v)
        setattr(self, n, v)
        return v


class SymStream:
    """Readable binary stream over a byte string; `chunk(want)` may shorten a read (raw streams)."""

    def __init__(self, data, chunk=None):
        self.data, self.pos, self.chunk = data, 0, chunk

    @property
    def __class__(self):
        return _io.BytesIO

    def _take(self, n):
        avail = len(self.data) - self.pos
        k = avail if n is None or n < 0 else min(int(n), avail)
        if self.chunk is not None and k > 1:
            k = self.chunk(k)
        r = self.data[self.pos:self.pos + k]
        self.pos += k
        return r if len(r) else b""

    def read(self, n=-1):
        return self._take(n)

    read1 = read

    def readinto(self, buf):
        n = sizeof(buf) if isinstance(buf, CArr) else memoryview(buf).nbytes
        r = self._take(n)
        k = len(r)
        if isinstance(buf, CArr):
            buf.data[:k] = list(r)
        elif not isinstance(buf, Structure):
            memoryview(buf).cast("B")[:k] = bytes(r)
        else:
            d = list(bytes(buf)) if buf.__dict__.get("_symx_data") is None else list(buf.__dict__["_symx_data"])
            d[:k] = list(r)
            buf.__dict__["_symx_data"] = d
        return k

    def tell(self):
        return self.pos

    def seek(self, p, whence=0):
        self.pos = int(p) if whence == 0 else (self.pos + int(p) if whence == 1 else len(self.data) + int(p))
        return self.pos

    def getvalue(self):
        return self.data

    def getbuffer(self):
        return self.data

    def close(self):
        pass

    closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class IOShim:
    def BytesIO(self, data=b""):
        if has_sym(data) or isinstance(data, SymBytes):
            return SymStream(data)
        return _io.BytesIO(data)

    def __getattr__(self, n):
        return getattr(_io, n)


CTYPES = CTypesShim()
IO = IOShim()
