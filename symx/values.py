"""Symbolic scalars.

SymInt models Python's unbounded int exactly: a bit-vector plus an interval
[lo, hi] that always contains the value; results are computed at a width large
enough for their interval, so nothing wraps.  lo >= 0: unsigned representation,
otherwise two's complement.
"""
from __future__ import annotations

import numbers
from fractions import Fraction

import z3

from .engine import ctx, Unsupported

MAXW = 4096


def width_for(lo, hi):
    if lo >= 0:
        return max(1, hi.bit_length())
    return max((-lo - 1).bit_length(), hi.bit_length() if hi > 0 else 0) + 1


def is_intlike(x):
    t = type(x)
    if t is int or t is bool or t is SymInt or t is SymBool:
        return True
    import numpy as np
    return isinstance(x, (np.integer, np.bool_)) and not _is_sym(x)


def _is_sym(x):
    return type(x) in (SymInt, SymBool, SymReal, SymZ)


def to_int(x):
    """int-like -> int | SymInt"""
    t = type(x)
    if t is int or t is SymInt or t is SymZ:
        return x
    if t is bool:
        return int(x)
    if t is SymBool:
        return x.as_int()
    import numpy as np
    if isinstance(x, (np.integer, np.bool_)):
        return int(x)
    if hasattr(x, "_sym_scalar"):
        return to_int(x._sym_scalar())
    return None


def _rep(x, w, signed):
    """BV of width w for int|SymInt; signed two's complement target if signed."""
    if type(x) is int:
        return z3.BitVecVal(x, w)
    e = x.e
    k = e.size()
    if k == w:
        return e
    if k > w:
        return z3.Extract(w - 1, 0, e)
    return z3.ZeroExt(w - k, e) if x.lo >= 0 else z3.SignExt(w - k, e)


def mk(e, lo, hi):
    """e has width >= width_for(lo,hi); shrink to it and wrap."""
    if lo == hi:
        return lo
    w = width_for(lo, hi)
    k = e.size()
    if k > w:
        e = z3.Extract(w - 1, 0, e)
    elif k < w:
        raise Unsupported(f"width {k} < {w}")
    if w > MAXW:
        raise Unsupported("integer too wide")
    return SymInt(e, lo, hi)


def _iv(x):
    if type(x) is int:
        return x, x
    return x.lo, x.hi


def _as_bool_result(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def i_add(a, b):
    al, ah = _iv(a); bl, bh = _iv(b)
    lo, hi = al + bl, ah + bh
    w = width_for(lo, hi)
    return mk(_rep(a, w, lo < 0) + _rep(b, w, lo < 0), lo, hi)


def i_sub(a, b):
    if a is b:
        return 0
    al, ah = _iv(a); bl, bh = _iv(b)
    lo, hi = al - bh, ah - bl
    w = width_for(lo, hi)
    return mk(_rep(a, w, lo < 0) - _rep(b, w, lo < 0), lo, hi)


def i_mul(a, b):
    al, ah = _iv(a); bl, bh = _iv(b)
    if type(a) is int:
        a, b, al, ah, bl, bh = b, a, bl, bh, al, ah
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
    c = (al * bl, al * bh, ah * bl, ah * bh)
    lo, hi = min(c), max(c)
    w = width_for(lo, hi)
    w = max(w, width_for(al, ah), width_for(bl, bh))
    if type(b) is int and b > 0 and b & (b - 1) == 0:
        e = _rep(a, w, lo < 0) << (b.bit_length() - 1)
    else:
        e = _rep(a, w, lo < 0) * _rep(b, w, lo < 0)
    return mk(e, lo, hi)


def i_neg(a):
    return i_sub(0, a)


def i_divmod(a, b):
    """Python floor semantics; b known nonzero on this path."""
    al, ah = _iv(a); bl, bh = _iv(b)
    if bl <= 0 <= bh and type(b) is not int:
        if (b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        # narrow the interval by sign
        if bl == 0:
            bl = 1
            b = SymInt(b.e, 0, bh)
        elif bh == 0:
            bh = -1
    if type(b) is int and b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if al >= 0 and bl > 0:
        qlo, qhi = al // bh, ah // bl
        rlo, rhi = 0, min(ah, bh - 1)
        if ah < bl:
            return 0, a
        w = max(width_for(al, ah), width_for(bl, bh))
        x, y = _rep(a, w, False), _rep(b, w, False)
        if type(b) is int and b & (b - 1) == 0:
            k = b.bit_length() - 1
            q = z3.LShR(x, k) if k else x
            r = x & (b - 1)
        else:
            q, r = z3.UDiv(x, y), z3.URem(x, y)
        return mk(q, qlo, qhi), mk(r, rlo, rhi)
    m = max(abs(al), abs(ah)) + 1
    n = max(abs(bl), abs(bh)) + 1
    w = max(width_for(-m, m), width_for(-n, n)) + 1
    x, y = _rep(a, w, True), _rep(b, w, True)
    q0 = x / y           # signed truncating
    r0 = z3.SRem(x, y)
    adj = z3.And(r0 != 0, (r0 < 0) != (y < 0))
    q = z3.If(adj, q0 - 1, q0)
    r = z3.If(adj, r0 + y, r0)
    if bl > 0:
        rlo, rhi = 0, bh - 1
        qs = [al // bl, al // bh, ah // bl, ah // bh]
        qlo, qhi = min(qs), max(qs)
    elif bh < 0:
        rlo, rhi = bl + 1, 0
        qs = [al // bl, al // bh, ah // bl, ah // bh]
        qlo, qhi = min(qs), max(qs)
    else:
        rlo, rhi = min(bl + 1, 0), max(bh - 1, 0)
        qlo, qhi = -m, m
    return mk(q, qlo, qhi), mk(r, rlo, rhi)


def i_bit(op, a, b):
    al, ah = _iv(a); bl, bh = _iv(b)
    if al >= 0 and bl >= 0:
        w = max(width_for(al, ah), width_for(bl, bh))
        x, y = _rep(a, w, False), _rep(b, w, False)
        top = (1 << max(ah.bit_length(), bh.bit_length())) - 1
        if op == "and":
            return mk(x & y, 0, min(ah, bh))
        if op == "or":
            return mk(x | y, max(al, bl), top)
        return mk(x ^ y, 0, top)
    if op == "and" and (al >= 0 or bl >= 0):
        w = max(width_for(al, ah), width_for(bl, bh)) + 1
        e = _rep(a, w, True) & _rep(b, w, True)
        return mk(e, 0, ah if al >= 0 else bh)
    w = max(width_for(min(al, -1), ah), width_for(min(bl, -1), bh))
    x, y = _rep(a, w, True), _rep(b, w, True)
    e = {"and": x & y, "or": x | y, "xor": x ^ y}[op]
    return mk(e, -(1 << (w - 1)), (1 << (w - 1)) - 1)


def i_shl(a, b):
    bl, bh = _iv(b)
    if bh < 0 or (bl < 0 and type(b) is not int and bool(b < 0)):
        raise ValueError("negative shift count")
    if type(b) is int:
        return i_mul(a, 1 << b)
    if bh > 512:
        raise Unsupported("symbolic shift too large")
    al, ah = _iv(a)
    lo = al << (bh if al < 0 else max(bl, 0))
    hi = ah << (bh if ah > 0 else max(bl, 0))
    w = max(width_for(lo, hi), width_for(*_iv(b)))
    return mk(_rep(a, w, lo < 0) << _rep(b, w, False), lo, hi)


def i_shr(a, b):
    bl, bh = _iv(b)
    if bl < 0:
        if type(b) is int or bool(b < 0):
            raise ValueError("negative shift count")
        bl = 0
    al, ah = _iv(a)
    lo = al >> (bh if al >= 0 else bl)
    hi = ah >> (bl if ah >= 0 else bh)
    if lo == hi:
        return lo
    w = max(width_for(al, ah), width_for(bl, bh))
    if al < 0:
        w = max(w, width_for(min(al, -1), ah), width_for(0, bh) + 1)
        e = _rep(a, w, True) >> _rep(b, w, False)
    else:
        e = z3.LShR(_rep(a, w, False), _rep(b, w, False))
    return mk(e, lo, hi)


def i_cmp(op, a, b):
    al, ah = _iv(a); bl, bh = _iv(b)
    if op == "eq":
        if ah < bl or bh < al:
            return False
        if al == ah == bl == bh:
            return True
        if a is b:
            return True
    elif op == "ne":
        r = i_cmp("eq", a, b)
        return (not r) if type(r) is bool else SymBool(z3.Not(r.e))
    elif op == "lt":
        if ah < bl:
            return True
        if al >= bh:
            return False
    elif op == "le":
        if ah <= bl:
            return True
        if al > bh:
            return False
    elif op == "gt":
        return i_cmp("lt", b, a)
    elif op == "ge":
        return i_cmp("le", b, a)
    signed = al < 0 or bl < 0
    if signed:
        w = max(width_for(min(al, -1), ah), width_for(min(bl, -1), bh))
    else:
        w = max(width_for(al, ah), width_for(bl, bh))
    x, y = _rep(a, w, signed), _rep(b, w, signed)
    if op == "eq":
        return _as_bool_result(x == y)
    if op == "lt":
        return _as_bool_result(x < y if signed else z3.ULT(x, y))
    return _as_bool_result(x <= y if signed else z3.ULE(x, y))


def i_ite(c, a, b):
    """c: z3 Bool; a,b int|SymInt."""
    al, ah = _iv(a); bl, bh = _iv(b)
    lo, hi = min(al, bl), max(ah, bh)
    if lo == hi:
        return lo
    w = width_for(lo, hi)
    return mk(z3.If(c, _rep(a, w, lo < 0), _rep(b, w, lo < 0)), lo, hi)


def wrap_to(x, bits, signed):
    """Reduce int|SymInt modulo 2**bits into the dtype range."""
    if type(x) is SymZ:
        return z_wrap(x, bits, signed)
    lo_t = -(1 << (bits - 1)) if signed else 0
    hi_t = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
    if type(x) is int:
        x &= (1 << bits) - 1
        if signed and x > hi_t:
            x -= 1 << bits
        return x
    if x.lo >= lo_t and x.hi <= hi_t:
        return x
    e = _rep(x, bits, x.lo < 0)
    return SymInt(e, lo_t, hi_t)


def mod_op(op, a, b, bits, signed):
    """add/sub/mul modulo 2**bits without building the wide product."""
    if type(a) is SymZ or type(b) is SymZ:
        return wrap_to({"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b}[op](), bits, signed)
    lo_t = -(1 << (bits - 1)) if signed else 0
    hi_t = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
    f = {"add": i_add, "sub": i_sub, "mul": i_mul}[op]
    al, ah = _iv(a); bl, bh = _iv(b)
    if type(a) is int and type(b) is int:
        return wrap_to(f(a, b), bits, signed)
    if op == "add":
        lo, hi = al + bl, ah + bh
    elif op == "sub":
        lo, hi = al - bh, ah - bl
    else:
        c = (al * bl, al * bh, ah * bl, ah * bh)
        lo, hi = min(c), max(c)
    if lo >= lo_t and hi <= hi_t:
        return f(a, b)
    x, y = _rep(a, bits, True), _rep(b, bits, True)
    e = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y}[op]()
    return SymInt(e, lo_t, hi_t)


class _SymBase:
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def _intop(f, swap=False):
    def op(self, other):
        o = _coerce_int(other)
        if o is None:
            return NotImplemented
        s = self if type(self) is SymInt else self.as_int()
        return f(o, s) if swap else f(s, o)
    return op


def _coerce_int(other):
    t = type(other)
    if t is int or t is SymInt:
        return other
    if t is bool:
        return int(other)
    if t is SymBool:
        return other.as_int()
    import numpy as np
    if isinstance(other, np.generic):
        if isinstance(other, (np.integer, np.bool_)):
            return int(other)
        return None
    if isinstance(other, int) and not hasattr(other, "_symx"):  # IntEnum etc.
        try:
            return int(other)
        except TypeError:
            return None
    return None


class SymInt(_SymBase):
    __slots__ = ("e", "lo", "hi", "__weakref__")
    _symx = True
    __array_priority__ = 900

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    @property
    def __class__(self):
        return int

    def decode(self, raw):
        if self.lo >= 0:
            return raw
        w = self.e.size()
        return raw - (1 << w) if raw >> (w - 1) else raw

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .symnp import do_ufunc
        if method != "__call__":
            raise Unsupported(f"ufunc method {method}")
        return do_ufunc(ufunc.__name__, *inputs, **kw)

    __add__ = _intop(i_add)
    __radd__ = _intop(i_add, True)
    __sub__ = _intop(i_sub)
    __rsub__ = _intop(i_sub, True)
    __mul__ = _intop(i_mul)

    def __rmul__(self, other):
        if type(other) in (list, tuple, str, bytes):
            return other * int(self)
        return _intop(i_mul, True)(self, other)

    __floordiv__ = _intop(lambda a, b: i_divmod(a, b)[0])
    __rfloordiv__ = _intop(lambda a, b: i_divmod(a, b)[0], True)
    __mod__ = _intop(lambda a, b: i_divmod(a, b)[1])
    __rmod__ = _intop(lambda a, b: i_divmod(a, b)[1], True)
    __divmod__ = _intop(i_divmod)
    __rdivmod__ = _intop(i_divmod, True)
    __and__ = _intop(lambda a, b: i_bit("and", a, b))
    __rand__ = _intop(lambda a, b: i_bit("and", a, b), True)
    __or__ = _intop(lambda a, b: i_bit("or", a, b))
    __ror__ = _intop(lambda a, b: i_bit("or", a, b), True)
    __xor__ = _intop(lambda a, b: i_bit("xor", a, b))
    __rxor__ = _intop(lambda a, b: i_bit("xor", a, b), True)
    __lshift__ = _intop(i_shl)
    __rlshift__ = _intop(i_shl, True)
    __rshift__ = _intop(i_shr)
    __rrshift__ = _intop(i_shr, True)

    def _real_op(self, name, other):
        if isinstance(other, (float, Fraction)) or type(other) is SymReal:
            return getattr(self.as_real(), name)(other)
        return NotImplemented

    def __truediv__(self, other):
        o = _coerce_int(other)
        if o is not None:
            if bool(o == 0):
                raise ZeroDivisionError("division by zero")
            return SymReal((self.as_real() / o).e, (self, o))
        return NotImplemented if not isinstance(other, float) else self.as_real() / other

    def __rtruediv__(self, other):
        return SymReal(real_expr(other)) / self

    def __neg__(self):
        return i_neg(self)

    def __pos__(self):
        return self

    def __invert__(self):
        return i_sub(-1, self)

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return i_neg(self)
        n = i_neg(self)
        return i_ite(as_z3bool(self < 0), n, self) if True else None

    def __pow__(self, k, m=None):
        if type(k) is not int or k < 0 or k > 64:
            raise Unsupported("symbolic pow")
        r = 1
        for _ in range(k):
            r = r * self
        return r if m is None else r % m

    def __rpow__(self, base):
        if base == 2:
            return i_shl(1, self)
        return base ** int(self)

    def _cmp(self, op, other):
        o = _coerce_int(other)
        if o is None:
            if isinstance(other, float) or type(other) is SymReal or isinstance(other, Fraction):
                if isinstance(other, float) and other in (float("inf"), float("-inf")):
                    return {"lt": other > 0, "le": other > 0, "gt": other < 0, "ge": other < 0,
                            "eq": False, "ne": True}[op]
                return self.as_real()._cmp(op, other)
            return NotImplemented
        return i_cmp(op, self, o)

    def __eq__(self, other):
        r = self._cmp("eq", other)
        return r

    def __ne__(self, other):
        return self._cmp("ne", other)

    def __lt__(self, other):
        return self._cmp("lt", other)

    def __le__(self, other):
        return self._cmp("le", other)

    def __gt__(self, other):
        return self._cmp("gt", other)

    def __ge__(self, other):
        return self._cmp("ge", other)

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return ctx().branch(self.e != 0)

    def __hash__(self):
        return hash(ctx().concretize(self))

    def __index__(self):
        return ctx().concretize(self)

    def __int__(self):
        return ctx().concretize(self)

    def __float__(self):
        return float(ctx().concretize(self))

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return f"<SymInt {self.lo}..{self.hi}>"

    def __format__(self, spec):
        return repr(self)

    __str__ = __repr__

    def as_real(self):
        return SymReal(z3.ToReal(z3.BV2Int(self.e, self.lo < 0)))

    def bit_length(self):
        a = abs(self)
        if type(a) is int:
            return a.bit_length()
        r = a.lo.bit_length()
        for k in range(a.lo.bit_length(), a.hi.bit_length()):
            r = i_add(r, to_int(i_cmp("ge", a, 1 << k)))
        return r

    def bit_count(self):
        a = abs(self)
        r = 0
        for k in range(a.hi.bit_length()):
            r = r + ((a >> k) & 1)
        return r

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .sbytes import SymBytes
        length = int(length)
        if signed:
            ok = i_cmp("ge", self, -(1 << (8 * length - 1))) if length else False
            ok2 = i_cmp("lt", self, 1 << (8 * length - 1)) if length else False
        else:
            if bool(self < 0):
                raise OverflowError("can't convert negative int to unsigned")
            ok, ok2 = True, i_cmp("lt", self, 1 << (8 * length))
        if not (bool(ok) and bool(ok2)):
            raise OverflowError("int too big to convert")
        if length == 0:
            return b""
        w = 8 * length
        e = _rep(self, w, self.lo < 0) if self.e.size() <= w else z3.Extract(w - 1, 0, self.e)
        parts = [SymInt(z3.Extract(8 * i + 7, 8 * i, e), 0, 255) for i in range(length)]
        if byteorder == "big":
            parts.reverse()
        return SymBytes(parts)

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def is_integer(self):
        return True

    def conjugate(self):
        return self

    def item(self):
        return self


def as_z3bool(c):
    if type(c) is SymBool:
        return c.e
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if z3.is_expr(c):
        return c
    if type(c) in (SymInt, SymZ):
        return c.e != 0
    if hasattr(c, "_sym_scalar"):
        return as_z3bool(c._sym_scalar())
    return z3.BoolVal(bool(c))


class SymBool(_SymBase):
    __slots__ = ("e",)
    _symx = True
    __array_ufunc__ = SymInt.__array_ufunc__
    lo, hi = 0, 1

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def as_int(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), 0, 1)

    def __bool__(self):
        return ctx().branch(self.e)

    def _lg(self, f, other):
        if type(other) is SymBool or isinstance(other, bool):
            return _as_bool_result(z3.simplify(f(self.e, as_z3bool(other))))
        import numpy as np
        if isinstance(other, np.bool_):
            return _as_bool_result(z3.simplify(f(self.e, z3.BoolVal(bool(other)))))
        return None

    def __and__(self, other):
        r = self._lg(z3.And, other)
        return r if r is not None else self.as_int().__and__(other)

    __rand__ = __and__

    def __or__(self, other):
        r = self._lg(z3.Or, other)
        return r if r is not None else self.as_int().__or__(other)

    __ror__ = __or__

    def __xor__(self, other):
        r = self._lg(z3.Xor, other)
        return r if r is not None else self.as_int().__xor__(other)

    __rxor__ = __xor__

    def __eq__(self, other):
        r = self._lg(lambda a, b: a == b, other)
        return r if r is not None else self.as_int().__eq__(other)

    def __ne__(self, other):
        r = self._lg(lambda a, b: a != b, other)
        return r if r is not None else self.as_int().__ne__(other)

    def __invert__(self):
        # numpy-style logical not is what modelled arrays use
        return _as_bool_result(z3.simplify(z3.Not(self.e)))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "<SymBool>"

    def __format__(self, spec):
        return repr(self)

    __str__ = __repr__

    def item(self):
        return self


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "floordiv", "rfloordiv", "mod", "rmod",
           "lshift", "rlshift", "rshift", "rrshift", "truediv", "rtruediv", "lt", "le", "gt", "ge",
           "neg", "pos", "abs", "pow", "divmod", "rdivmod"):
    def _mkm(nm):
        def m(self, *a):
            return getattr(SymInt, nm)(self.as_int(), *a)
        return m
    setattr(SymBool, f"__{_n}__", _mkm(f"__{_n}__"))


def sand(*cs):
    """Conjunction without forking."""
    es = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        es.append(as_z3bool(c))
    if not es:
        return True
    return _as_bool_result(z3.simplify(z3.And(*es)) if len(es) > 1 else es[0])


def sor(*cs):
    es = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        es.append(as_z3bool(c))
    if not es:
        return False
    return _as_bool_result(z3.simplify(z3.Or(*es)) if len(es) > 1 else es[0])


def snot(c):
    if isinstance(c, bool) and type(c) is bool:
        return not c
    return _as_bool_result(z3.simplify(z3.Not(as_z3bool(c))))


def simplies(a, b):
    return sor(snot(a), b)


def is_sym(x):
    return type(x) in (SymInt, SymBool, SymReal, SymZ)


def ite(c, a, b):
    """Merge two values under a condition without forking when possible."""
    if type(c) is bool:
        return a if c else b
    if a is b:
        return a
    ce = as_z3bool(c)
    if z3.is_true(ce):
        return a
    if z3.is_false(ce):
        return b
    ta, tb = type(a), type(b)
    if ta in (bool, SymBool) and tb in (bool, SymBool):
        return _as_bool_result(z3.simplify(z3.If(ce, as_z3bool(a), as_z3bool(b))))
    if ta is SymZ or tb is SymZ:
        return SymZ(z3.If(ce, _zexpr(a), _zexpr(b)))
    if ta is SymReal or tb is SymReal or ta is float or tb is float or ta is Fraction or tb is Fraction:
        return SymReal(z3.If(ce, real_expr(a), real_expr(b)))
    ia, ib = to_int(a), to_int(b)
    if ia is not None and ib is not None:
        return i_ite(ce, ia, ib)
    if ta is tb and ta is tuple and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if a == b:
        return a
    return a if SymBool(ce) else b


# ----------------------------------------------------------------------------- reals

def real_expr(x):
    t = type(x)
    if t is SymReal:
        return x.e
    if t is SymInt or t is SymZ:
        return x.as_real().e
    if t is SymBool:
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if t is bool:
        return z3.RealVal(int(x))
    if t is int:
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}") if x.denominator != 1 else z3.RealVal(x.numerator)
    if getattr(x, "_symtensor", False) or t.__module__.startswith("torch"):
        raise Unsupported("tensor operand")
    if isinstance(x, float) or isinstance(x, numbers.Real) or hasattr(x, "__float__"):
        f = float(x)
        if f != f or f in (float("inf"), float("-inf")):
            raise Unsupported(f"non-finite {f} in real arithmetic")
        return real_expr(Fraction(f))
    raise Unsupported(f"not a real: {type(x)}")


def _realop(f, swap=False):
    def op(self, other):
        if getattr(other, "_symtensor", False) or type(other).__module__.startswith("torch"):
            return NotImplemented
        try:
            o = real_expr(other)
        except Unsupported:
            return NotImplemented
        return SymReal(f(o, self.e) if swap else f(self.e, o))
    return op


class SymReal(_SymBase):
    __slots__ = ("e", "ratio")
    _symx = True
    __array_ufunc__ = SymInt.__array_ufunc__

    def __init__(self, e, ratio=None):
        self.e = e
        self.ratio = ratio      # (num, den) ints when this is their quotient

    @property
    def __class__(self):
        return float

    __add__ = _realop(lambda a, b: a + b)
    __radd__ = _realop(lambda a, b: a + b, True)
    __sub__ = _realop(lambda a, b: a - b)
    __rsub__ = _realop(lambda a, b: a - b, True)
    __mul__ = _realop(lambda a, b: a * b)
    __rmul__ = _realop(lambda a, b: a * b, True)

    def __truediv__(self, other):
        if getattr(other, "_symtensor", False):
            return NotImplemented
        o = real_expr(other)
        return SymReal(self.e / o)

    def __rtruediv__(self, other):
        return SymReal(real_expr(other) / self.e)

    def __neg__(self):
        return SymReal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, k):
        if isinstance(k, float) and k == int(k):
            k = int(k)
        if type(k) is int and 0 <= k <= 16:
            r = z3.RealVal(1)
            for _ in range(k):
                r = r * self.e
            return SymReal(r)
        raise Unsupported("real pow")

    def _cmp(self, op, other):
        if isinstance(other, float) and type(other) is not SymReal:
            if other in (float("inf"), float("-inf")):
                return {"lt": other > 0, "le": other > 0, "gt": other < 0, "ge": other < 0,
                        "eq": False, "ne": True}[op]
            if other != other:
                return op == "ne"
        try:
            o = real_expr(other)
        except Unsupported:
            return NotImplemented
        e = {"eq": lambda: self.e == o, "ne": lambda: self.e != o, "lt": lambda: self.e < o,
             "le": lambda: self.e <= o, "gt": lambda: self.e > o, "ge": lambda: self.e >= o}[op]()
        return _as_bool_result(z3.simplify(e))

    def __eq__(self, o):
        return self._cmp("eq", o)

    def __ne__(self, o):
        return self._cmp("ne", o)

    def __lt__(self, o):
        return self._cmp("lt", o)

    def __le__(self, o):
        return self._cmp("le", o)

    def __gt__(self, o):
        return self._cmp("gt", o)

    def __ge__(self, o):
        return self._cmp("ge", o)

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __hash__(self):
        return id(self.e)

    def __float__(self):
        s = z3.simplify(self.e)
        if z3.is_rational_value(s):
            return float(Fraction(s.numerator_as_long(), s.denominator_as_long()))
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        raise Unsupported("int() of a symbolic real")

    def __repr__(self):
        return "<SymReal>"

    def __format__(self, spec):
        return repr(self)

    __str__ = __repr__

    def floor(self):
        return z3.ToInt(self.e)

    def item(self):
        return self

    def is_integer(self):
        return _as_bool_result(z3.IsInt(self.e))


# ----------------------------------------------------------------------------- linear integers

def _zop(f, swap=False):
    def op(self, other):
        o = _zexpr(other)
        if o is None:
            if isinstance(other, float) and type(other) is not SymReal:
                a, b = SymReal(z3.ToReal(self.e)), SymReal(real_expr(other))
                return SymReal(f(b.e, a.e) if swap else f(a.e, b.e))
            return NotImplemented
        return _zmk(f(o, self.e) if swap else f(self.e, o))
    return op


def _zexpr(x):
    t = type(x)
    if t is SymZ:
        return x.e
    if t is int:
        return z3.IntVal(x)
    if t is bool:
        return z3.IntVal(int(x))
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if t is SymInt:
        return z3.BV2Int(x.e, x.lo < 0)
    import numpy as np
    if isinstance(x, np.integer):
        return z3.IntVal(int(x))
    return None


def _zmk(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymZ(e)


def z_wrap(x, bits, signed):
    """Forks on whether the value fits the machine type, so that in-range values stay linear."""
    lo = -(1 << (bits - 1)) if signed else 0
    hi = lo + (1 << bits) - 1
    if ctx().branch(z3.And(x.e >= lo, x.e <= hi)):
        return x
    return _zmk((x.e - lo) % (1 << bits) + lo)


class SymZ(_SymBase):
    """Symbolic Python int in integer arithmetic (no bit operations beyond masks/shifts by constants)."""
    __slots__ = ("e",)
    _symx = True
    lo = -(1 << 200)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def decode(self, raw):
        return raw

    __add__ = _zop(lambda a, b: a + b)
    __radd__ = _zop(lambda a, b: a + b, True)
    __sub__ = _zop(lambda a, b: a - b)
    __rsub__ = _zop(lambda a, b: a - b, True)
    __mul__ = _zop(lambda a, b: a * b)
    __rmul__ = _zop(lambda a, b: a * b, True)

    def _dm(self, other):
        o = _zexpr(other)
        if o is None:
            return None
        if type(other) is int and other > 0:
            return _zmk(self.e / o), _zmk(self.e % o)
        if bool(other == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if bool(other > 0):
            return _zmk(self.e / o), _zmk(self.e % o)
        raise Unsupported("SymZ division by a negative value")

    def __floordiv__(self, o):
        r = self._dm(o)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        r = self._dm(o)
        return NotImplemented if r is None else r[1]

    def __divmod__(self, o):
        return self._dm(o)

    def __rfloordiv__(self, o):
        return SymZ(_zexpr(o))._dm(self)[0]

    def __rmod__(self, o):
        return SymZ(_zexpr(o))._dm(self)[1]

    def __lshift__(self, k):
        return self * (1 << int(k))

    def __rshift__(self, k):
        return self // (1 << int(k))

    def __and__(self, m):
        if type(m) is int and m >= 0 and (m & (m + 1)) == 0:
            return self % (m + 1)
        raise Unsupported("SymZ &")

    __rand__ = __and__

    def __neg__(self):
        return _zmk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return _zmk(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.e) / real_expr(o), (self, o) if not isinstance(o, float) else None)

    def __rtruediv__(self, o):
        return SymReal(real_expr(o) / z3.ToReal(self.e), (o, self) if not isinstance(o, float) else None)

    def _cmp(self, op, other):
        if isinstance(other, float) and type(other) is not SymReal or type(other) is SymReal:
            return SymReal(z3.ToReal(self.e))._cmp(op, other)
        o = _zexpr(other)
        if o is None:
            return NotImplemented
        e = {"eq": lambda: self.e == o, "ne": lambda: self.e != o, "lt": lambda: self.e < o,
             "le": lambda: self.e <= o, "gt": lambda: self.e > o, "ge": lambda: self.e >= o}[op]()
        return _as_bool_result(z3.simplify(e))

    def __eq__(self, o):
        return self._cmp("eq", o)

    def __ne__(self, o):
        return self._cmp("ne", o)

    def __lt__(self, o):
        return self._cmp("lt", o)

    def __le__(self, o):
        return self._cmp("le", o)

    def __gt__(self, o):
        return self._cmp("gt", o)

    def __ge__(self, o):
        return self._cmp("ge", o)

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __index__(self):
        return ctx().concretize(self)

    __int__ = __index__

    def __hash__(self):
        return hash(ctx().concretize(self))

    def __float__(self):
        return float(ctx().concretize(self))

    def __repr__(self):
        return "<SymZ>"

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def as_real(self):
        return SymReal(z3.ToReal(self.e))

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def item(self):
        return self

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        lo = -(1 << (8 * length - 1)) if signed else 0
        if not ctx().branch(z3.And(self.e >= lo, self.e < lo + (1 << (8 * length)))):
            raise OverflowError("int too big to convert")
        return mk(z3.Int2BV(self.e, 8 * length), 0, (1 << (8 * length)) - 1).to_bytes(length, byteorder)
