"""A model of json, bytes.fromhex and struct.pack(">d") for values with symbolic leaves.

json.dumps of a tree (None, bool, str, int, list, dict with string keys) is injective, so a text is represented by an
interned token: a tree equal to an earlier one gets the same token (equality is decided on the path).  Hex strings of
symbolic bytes and of symbolic floats stay symbolic leaves of the tree."""
import builtins
import contextlib
import json as _json
import struct as _struct

from .engine import ctx, Unsupported
from .values import is_sym, sand
from .sbytes import SymBytes, SymStr
from .harness import eq


class HexStr(SymStr):
    """the hexadecimal text of a symbolic float's bytes"""

    def __eq__(self, o):
        if type(o) is HexStr:
            return eq(self.b.v, o.b.v)
        if type(o) is SymStr or not isinstance(o, str) or len(o) != 16 or o.lower() != o:
            return False
        try:
            v = _struct.unpack(">d", builtins.bytes.fromhex(o))[0]
        except ValueError:
            return False
        return eq(self.b.v, v) if v == v and abs(v) != float("inf") and o != "8" + "0" * 15 else False

    __hash__ = None


class F64:
    """the eight bytes of a symbolic (finite, non-negative-zero) float"""

    def __init__(self, v):
        self.v = v

    def __len__(self):
        return 8

    def hex(self):
        return HexStr(self)


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.bytes)

    def __call__(cls, *a, **k):
        return builtins.bytes(*a, **k)


class Bytes(metaclass=_Meta):
    @staticmethod
    def fromhex(t):
        return t.b if type(t) in (HexStr, SymStr) else builtins.bytes.fromhex(t)


class Struct:
    def pack(self, f, *v):
        if f == ">d" and is_sym(v[0]):
            return F64(v[0])
        return _struct.pack(f, *v)

    def unpack(self, f, b):
        return (b.v,) if type(b) is F64 else _struct.unpack(f, b)

    def __getattr__(self, n):
        return getattr(_struct, n)


def tree(v, sort):
    if isinstance(v, (list, tuple)):
        return [tree(x, sort) for x in v]
    if type(v) is dict:
        if any(not isinstance(k, str) for k in v):
            raise Unsupported("json key")
        return {k: tree(v[k], sort) for k in (sorted(v) if sort else v)}
    if v is None or isinstance(v, (bool, int, str, float)):
        return v
    raise TypeError(f"Object of type {type(v).__name__} is not JSON serializable")


def symbolic(v):
    if type(v) is list:
        return any(symbolic(x) for x in v)
    if type(v) is dict:
        return any(symbolic(x) for x in v.values())
    return is_sym(v) or type(v) in (HexStr, SymStr)


def same_tree(a, b):
    if type(a) is list or type(b) is list:
        return len(a) == len(b) and sand(*[same_tree(x, y) for x, y in zip(a, b)]) if type(a) is type(b) is list else False
    if type(a) is dict or type(b) is dict:
        return list(a) == list(b) and sand(*[same_tree(a[k], b[k]) for k in a]) if type(a) is type(b) is dict else False
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        return eq(a, b) if isinstance(a, bool) and isinstance(b, bool) else False
    if isinstance(a, str) or isinstance(b, str):
        return a == b if isinstance(a, str) and isinstance(b, str) else False
    if isinstance(a, float) != isinstance(b, float):
        return False
    return eq(a, b)


class Json:
    def __init__(self):
        self.known = []          # (tree, options, token)

    def dumps(self, v, sort_keys=False, **kw):
        t = tree(v, sort_keys)
        opts = sorted((k, repr(x)) for k, x in kw.items())
        for u, o, tok in self.known:
            if o == opts and bool(same_tree(t, u)):
                return tok
        tok = _json.dumps(t, **kw) if not symbolic(t) else '"\\u0000text%d"' % len(self.known)
        self.known.append((t, opts, tok))
        return tok

    def loads(self, s, **kw):
        for u, _, tok in self.known:
            if s == tok:
                return tree(u, False)
        return _json.loads(s, **kw)

    def __getattr__(self, n):
        return getattr(_json, n)


class Injective:
    """a hash without collisions: the digest is the message"""

    def __init__(self, data=b""):
        self.parts = SymBytes.of(b"h")
        self.update(data)

    def update(self, d):
        d = SymBytes.of(d)
        if d is None:
            raise TypeError("object supporting the buffer API required")
        self.parts = SymBytes(self.parts.parts + d.parts)

    def digest(self):
        return self.parts.norm()

    def hexdigest(self):
        d = self.digest()
        return d.hex()


@contextlib.contextmanager
def install(module, hashes=False):
    """for the duration, `module` uses the models"""
    if not ctx().symbolic:
        yield
        return
    from types import SimpleNamespace as NS
    saved = {n: module.__dict__.get(n, KeyError) for n in ("json", "bytes", "struct", "hashlib")}
    module.json, module.bytes, module.struct = Json(), Bytes, Struct()
    if hashes:
        module.hashlib = NS(sha256=Injective)
    try:
        yield
    finally:
        for n, v in saved.items():
            if v is KeyError:
                module.__dict__.pop(n, None)
            else:
                setattr(module, n, v)
