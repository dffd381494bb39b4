"""Symbolic byte strings (concrete length, symbolic content), struct and hash models."""
from __future__ import annotations

import hashlib as _hashlib
import struct as _struct

import z3

from .engine import ctx, active, Unsupported, PathInfeasible
from .values import SymInt, SymBool, SymReal, to_int, sand, i_cmp, wrap_to, mk, _rep, real_expr, width_for, is_sym


class SymBytes:
    _symx = True

    def __init__(self, parts, origin=None):
        self.parts = list(parts)
        self.origin = origin

    @property
    def __class__(self):
        return bytes

    @staticmethod
    def of(x):
        if type(x) is SymBytes:
            return x
        if isinstance(x, (bytes, bytearray, memoryview)):
            return SymBytes(list(bytes(x)))
        return None

    def __len__(self):
        return len(self.parts)

    def __iter__(self):
        return iter(self.parts)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.parts[i]).norm()
        return self.parts[i]

    def norm(self):
        if all(type(p) is int for p in self.parts):
            return bytes(self.parts)
        return self

    def __add__(self, o):
        o = SymBytes.of(o)
        if o is None:
            return NotImplemented
        return SymBytes(self.parts + o.parts)

    def __radd__(self, o):
        o = SymBytes.of(o)
        if o is None:
            return NotImplemented
        return SymBytes(o.parts + self.parts)

    def __mul__(self, n):
        return SymBytes(self.parts * int(n))

    def __eq__(self, o):
        b = SymBytes.of(o)
        if b is None:
            return False
        if len(b.parts) != len(self.parts):
            return False
        if self.origin is not None and b.origin is not None:
            if self.origin[0] != b.origin[0]:
                return False
            return self.origin[1] == b.origin[1]
        return sand(*[(x == y) for x, y in zip(self.parts, b.parts)])

    def __ne__(self, o):
        from .values import snot
        return snot(self.__eq__(o))

    def __hash__(self):
        # forks over contents only where symbolic: avoid by a constant hash,
        # dict lookups then compare with == (which forks on equality).
        return 7919 + len(self.parts)

    def hex(self):
        return SymStr(self)

    def tobytes(self):
        return self

    def __bytes__(self):
        return bytes(int(p) for p in self.parts)

    def __repr__(self):
        return f"<SymBytes {len(self.parts)}>"

    def bv_le(self):
        """BV with parts[0] the least significant byte."""
        es = [z3.BitVecVal(p, 8) if type(p) is int else _rep(p, 8, False) for p in self.parts]
        es.reverse()
        return es[0] if len(es) == 1 else z3.Concat(*es)

    def decode(self, *a, **k):
        return bytes(self).decode(*a, **k)

    def startswith(self, p):
        return self[:len(p)] == p

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymStr:
    """hex string of SymBytes: equality only."""
    _symx = True

    def __init__(self, b):
        self.b = b

    @property
    def __class__(self):
        return str

    def __len__(self):
        return 2 * len(self.b)

    def lower(self):
        return self

    def __eq__(self, o):
        if type(o) is SymStr:
            return self.b == o.b
        if isinstance(o, str):
            try:
                return self.b == bytes.fromhex(o)
            except ValueError:
                return False
        return False

    def __ne__(self, o):
        from .values import snot
        return snot(self.__eq__(o))

    def __hash__(self):
        return 104729 + len(self.b)

    def __len__(self):
        return 2 * len(self.b)

    def __repr__(self):
        return "<SymStr>"

    def __format__(self, s):
        return repr(self)

    def encode(self, *a):
        return self.b      # injective image is enough for hashing/equality

    def __deepcopy__(self, memo):
        return self


def has_sym(x):
    if is_sym(x) or type(x) in (SymBytes, SymStr):
        return True
    if type(x) in (list, tuple):
        return any(has_sym(v) for v in x)
    return False


def bytes_join(sep, items):
    items = list(items)
    if isinstance(sep, (bytes, bytearray)) or type(sep) is SymBytes:
        if any(type(i) is SymBytes for i in items) or type(sep) is SymBytes:
            out = []
            s = SymBytes.of(sep).parts
            for k, it in enumerate(items):
                if k and s:
                    out += s
                out += SymBytes.of(it).parts
            return SymBytes(out).norm()
    return sep.join(items)


def int_from_bytes(b, byteorder="big", *, signed=False):
    if type(b) is WordBytes:
        if byteorder != "little" or signed:
            raise Unsupported("hash word read with another byte order")
        return b.word
    b = SymBytes.of(b) if type(b) is SymBytes else b
    if type(b) is not SymBytes:
        return int.from_bytes(b, byteorder, signed=signed)
    parts = list(b.parts)
    if byteorder == "big":
        parts.reverse()
    if not parts:
        return 0
    # recognise an unmodified to_bytes image
    e = z3.simplify(SymBytes(parts).bv_le())
    w = e.size()
    if signed:
        v = SymInt(e, -(1 << (w - 1)), (1 << (w - 1)) - 1)
    else:
        v = SymInt(e, 0, (1 << w) - 1)
    if z3.is_bv_value(e):
        return v.decode(e.as_long())
    return v


# ------------------------------------------------------------------------- struct

_FMT = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
        "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False), "?": (1, None)}


def _parse(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "@"
    if fmt and fmt[0] in "@=<>!":
        order, fmt = fmt[0], fmt[1:]
    if order in "@=":
        little = True
    else:
        little = order == "<"
    items, num = [], ""
    for c in fmt:
        if c.isspace():
            continue
        if c.isdigit():
            num += c
            continue
        n = int(num) if num else 1
        num = ""
        if c in "sp":
            items.append((c, n))
        elif c == "x":
            items += [("x", 1)] * n
        else:
            items += [(c, 1)] * n
    return order, little, items


def struct_pack(fmt, *values):
    if not any(has_sym(v) for v in values):
        return _struct.pack(fmt, *values)
    order, little, items = _parse(fmt)
    if order == "@" and len(items) > 1:
        raise Unsupported("native-aligned struct of symbolic values")
    out, vi = [], 0
    for c, n in items:
        if c == "x":
            out.append(0)
            continue
        v = values[vi]
        vi += 1
        if c == "s":
            p = SymBytes.of(v).parts[:n]
            out += p + [0] * (n - len(p))
            continue
        if c not in _FMT:
            if has_sym(v):
                raise Unsupported(f"struct format {c} of symbolic value")
            out += list(_struct.pack(("<" if little else ">") + c, v))
            continue
        size, signed = _FMT[c]
        if signed is None:
            v = 1 if bool(v) else 0
            signed = False
        v = to_int(v)
        if v is None:
            raise _struct.error("required argument is not an integer")
        try:
            b = v.to_bytes(size, "little" if little else "big", signed=signed)
        except OverflowError as e:
            raise _struct.error(str(e))
        out += list(b.parts) if type(b) is SymBytes else list(b)
    if vi != len(values):
        raise _struct.error("pack expected a different number of items")
    return SymBytes(out).norm()


def struct_unpack(fmt, data):
    if type(data) is not SymBytes:
        return _struct.unpack(fmt, data)
    order, little, items = _parse(fmt)
    if len(data) != _struct.calcsize(fmt):
        raise _struct.error("unpack requires a buffer of a different size")
    if order == "@" and len({n for _, n in items}) > 1:
        raise Unsupported("native-aligned struct of symbolic values")
    out, pos = [], 0
    for c, n in items:
        if c == "x":
            pos += 1
            continue
        if c == "s":
            out.append(data[pos:pos + n])
            pos += n
            continue
        if c not in _FMT:
            size = _struct.calcsize("<" + c)
            out += list(_struct.unpack(("<" if little else ">") + c, bytes(data[pos:pos + size])))
            pos += size
            continue
        size, signed = _FMT[c]
        v = int_from_bytes(data[pos:pos + size], "little" if little else "big", signed=bool(signed))
        if signed is None:
            v = v != 0
        out.append(v)
        pos += size
    return tuple(out)


class StructShim:
    error = _struct.error
    calcsize = staticmethod(_struct.calcsize)
    pack = staticmethod(struct_pack)
    unpack = staticmethod(struct_unpack)

    class Struct:
        def __init__(self, fmt):
            self.format = fmt if isinstance(fmt, str) else fmt.decode()
            self.size = _struct.calcsize(fmt)

        def pack(self, *v):
            return struct_pack(self.format, *v)

        def unpack(self, d):
            return struct_unpack(self.format, d)

        def unpack_from(self, d, offset=0):
            return struct_unpack(self.format, d[offset:offset + self.size])

        def iter_unpack(self, d):
            for i in range(0, len(d), self.size):
                yield struct_unpack(self.format, d[i:i + self.size])

        def pack_into(self, buf, offset, *v):
            d = self.pack(*v)
            buf[offset:offset + self.size] = d

    @staticmethod
    def unpack_from(fmt, d, offset=0):
        return struct_unpack(fmt, d[offset:offset + _struct.calcsize(fmt)])

    def __getattr__(self, n):
        return getattr(_struct, n)


STRUCT = StructShim()


# ------------------------------------------------------------------------- hashing

class HashMode:
    """uf: digest is an uninterpreted function of the message (any value possible).
    inj: digests are equal exactly when the messages are (collision freedom)."""
    mode = "auto"    # auto: real hash on concrete data, uf on symbolic data
    word_hook = None     # callable() -> 64-bit word placed in the first 8 digest bytes
    max_digests = None   # bounded unrolling of rejection loops: abandon the path beyond


_UF = {}


def _uf(params, nbits, outbits):
    k = (params, nbits, outbits)
    f = _UF.get(k)
    if f is None:
        f = _UF[k] = z3.Function(f"H_{abs(hash(params)) % 10**8}_{nbits}", z3.BitVecSort(nbits), z3.BitVecSort(outbits))
    return f


class SymHash:
    def __init__(self, algo, data=b"", params=(), digest_size=32, factory=None):
        self.algo = algo
        self.params = params
        self.digest_size = digest_size
        self.factory = factory
        self.name = algo
        self.parts = []
        if len(data):
            self.update(data)

    def update(self, data):
        if type(data) is SymBytes:
            if data.origin is not None:
                self.parts.append(data)
            else:
                self.parts += data.parts
        elif hasattr(data, "_sym_tobytes"):
            self.update(data._sym_tobytes())
        else:
            self.parts += list(bytes(data))

    def copy(self):
        h = SymHash(self.algo, b"", self.params, self.digest_size, self.factory)
        h.parts = list(self.parts)
        return h

    def _flat(self):
        out = []
        for p in self.parts:
            if type(p) is SymBytes:
                out += p.parts
            else:
                out.append(p)
        return out

    def digest(self):
        mode = HashMode.mode
        c = ctx() if active() else None
        if c is not None and c.symbolic and HashMode.max_digests is not None:
            c.n_digests = getattr(c, "n_digests", 0) + 1
            if c.n_digests > HashMode.max_digests:
                raise PathInfeasible()
        if HashMode.word_hook is not None:
            return WordBytes(HashMode.word_hook(), self.digest_size)
        conc = all(type(p) is int for p in self.parts)
        if mode == "auto" and conc:
            h = self.factory()
            h.update(bytes(self.parts))
            return h.digest()
        if mode == "inj":
            if conc:
                h = self.factory()
                h.update(bytes(self.parts))
                d = h.digest()
                return SymBytes(list(d), origin=((self.algo, self.params), _Msg(self.parts)))
            # opaque bytes for the content, origin for equality
            name = ctx().fresh_name("digest")
            bv = z3.BitVec(name, 8 * self.digest_size)
            parts = [SymInt(z3.Extract(8 * i + 7, 8 * i, bv), 0, 255) for i in range(self.digest_size)]
            return SymBytes(parts, origin=((self.algo, self.params), _Msg(self.parts)))
        flat = self._flat()
        m = SymBytes(flat).bv_le() if flat else z3.BitVecVal(0, 1)
        bv = _uf((self.algo, self.params), m.size(), 8 * self.digest_size)(m)
        if not hasattr(c, "hash_log"):
            c.hash_log = []
        c.hash_log.append((self.algo, self.params, m, len(flat), bv, self.digest_size))
        parts = [SymInt(z3.Extract(8 * i + 7, 8 * i, bv), 0, 255) for i in range(self.digest_size)]
        return SymBytes(parts)

    def hexdigest(self):
        d = self.digest()
        return d.hex()


class WordBytes:
    """A digest whose first eight bytes (little endian) are a given symbolic word."""
    _symx = True

    def __init__(self, word, n):
        self.word, self.n = word, n

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, st = i.indices(self.n)
            if a == 0 and st == 1 and b <= 8:
                return WordBytes(self.word if b == 8 else self.word % (1 << (8 * b)), b)
        raise Unsupported("digest bytes used in an unexpected way")


class FakeDigest:
    """Concrete counterpart of word_hook."""

    def __init__(self, hook, size):
        self.hook, self.digest_size, self.name = hook, size, "blake2b"

    def update(self, d):
        pass

    def copy(self):
        return self

    def digest(self):
        return int(self.hook()).to_bytes(8, "little") + bytes(self.digest_size - 8)

    def hexdigest(self):
        return self.digest().hex()


class hash_words:
    """Every keyed hash computed inside yields hook() as its 64-bit word."""

    def __init__(self, c, hook):
        self.c, self.hook = c, hook

    def __enter__(self):
        if self.c.symbolic:
            HashMode.word_hook = self.hook
        else:
            self.saved = _hashlib.blake2b
            _hashlib.blake2b = lambda data=b"", digest_size=64, **kw: FakeDigest(self.hook, digest_size)

    def __exit__(self, *a):
        if self.c.symbolic:
            HashMode.word_hook = None
        else:
            _hashlib.blake2b = self.saved


class _Msg:
    def __init__(self, parts):
        self.parts = list(parts)

    def __eq__(self, o):
        if len(self.parts) != len(o.parts):
            return False
        cs = []
        for a, b in zip(self.parts, o.parts):
            c = (a == b)
            if c is False:
                return False
            cs.append(c)
        return sand(*cs)

    def __hash__(self):
        return len(self.parts)


class HashlibShim:
    def blake2b(self, data=b"", *, digest_size=64, key=b"", salt=b"", person=b"", **kw):
        return SymHash("blake2b", data, (digest_size, bytes(key), bytes(salt), bytes(person)), digest_size,
                       lambda: _hashlib.blake2b(digest_size=digest_size, key=key, salt=salt, person=person))

    def blake2s(self, data=b"", *, digest_size=32, key=b"", salt=b"", person=b"", **kw):
        return SymHash("blake2s", data, (digest_size, bytes(key), bytes(salt), bytes(person)), digest_size,
                       lambda: _hashlib.blake2s(digest_size=digest_size, key=key, salt=salt, person=person))

    def sha256(self, data=b"", **kw):
        return SymHash("sha256", data, (), 32, _hashlib.sha256)

    def sha1(self, data=b"", **kw):
        return SymHash("sha1", data, (), 20, _hashlib.sha1)

    def md5(self, data=b"", **kw):
        return SymHash("md5", data, (), 16, _hashlib.md5)

    def __getattr__(self, n):
        return getattr(_hashlib, n)


HASHLIB = HashlibShim()


def eval_hash_log(c, m):
    out = []
    for algo, params, msg, n, bv, size in getattr(c, "hash_log", []):
        mv = m.eval(msg, model_completion=True).as_long() if n else 0
        dv = m.eval(bv, model_completion=True).as_long()
        out.append([algo, mv.to_bytes(n, "little").hex(), dv.to_bytes(size, "little").hex()])
    return out


class TableHash:
    """Concrete replay: the digests the solver chose, the real function elsewhere."""

    def __init__(self, algo, table, real, kw, data=b""):
        self.algo, self.table, self.real, self.kw = algo, table, real, kw
        self.buf = bytes(data)
        self.digest_size = real(**kw).digest_size
        self.name = algo

    def update(self, d):
        self.buf += bytes(d)

    def copy(self):
        return TableHash(self.algo, self.table, self.real, self.kw, self.buf)

    def digest(self):
        d = self.table.get((self.algo, self.buf))
        if d is not None and len(d) == self.digest_size:
            return d
        h = self.real(**self.kw)
        h.update(self.buf)
        return h.digest()

    def hexdigest(self):
        return self.digest().hex()


class patched_hashes:
    def __init__(self, log):
        self.table = {(a, bytes.fromhex(m)): bytes.fromhex(d) for a, m, d in log or []}

    def __enter__(self):
        self.saved = {}
        if not self.table:
            return self
        for algo in {k[0] for k in self.table}:
            real = getattr(_hashlib, algo)
            self.saved[algo] = real
            setattr(_hashlib, algo, lambda data=b"", _a=algo, _r=real, **kw: TableHash(_a, self.table, _r, kw, data))
        return self

    def __exit__(self, *a):
        for algo, real in self.saved.items():
            setattr(_hashlib, algo, real)
