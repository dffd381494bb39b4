"""Symbolic torch tensors.

`SymTensor` is a real `torch.Tensor` subclass whose elements are exact reals / ints / bools
(Fraction, int, bool or symbolic values).  Every aten operation the code under test executes -
including the ones autograd issues in a backward pass - reaches `__torch_dispatch__`, which
computes the result element by element with the values of `values.py`.  Shapes, dtypes and
strides come from running the same aten operation on torch's own meta tensors; pure data
movement (views, cat, gather, ...) is run by torch itself on tensors of element positions.

Floating point is modelled as exact real arithmetic; exp/log/sigmoid/... are uninterpreted
functions with a few rewrites (log(exp x) = x, ...).  Counterexamples are replayed with plain
float64 tensors on the uninstrumented code.
"""
from __future__ import annotations

import contextlib
import itertools
import math
import os
import sys
from fractions import Fraction

import numpy as np
import torch

from . import values
import z3
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map

from .engine import ctx, active, Unsupported
from .values import (SymInt, SymBool, SymReal, SymZ, is_sym, ite, real_expr, to_int, sand, sor, snot, as_z3bool,
                     _as_bool_result)

INF = float("inf")


def _special(x):
    return type(x) is float


def _norm(x, kind):
    """element for a dtype kind ('f','i','b')"""
    t = type(x)
    if kind == "f":
        if t is SymReal or t is Fraction:
            return x
        if t is SymInt or t is SymZ:
            return x.as_real()
        if t is SymBool:
            return SymReal(z3.If(x.e, z3.RealVal(1), z3.RealVal(0)))
        if t is bool or t is int:
            return Fraction(int(x))
        f = float(x)
        if f != f or f in (INF, -INF):
            return f
        return Fraction(f)
    if kind == "i":
        if t in (int, SymInt, SymZ):
            return x
        if t is bool:
            return int(x)
        if t is SymBool:
            return x.as_int()
        if t is Fraction:
            return math.trunc(x)
        if t is SymReal:
            from .instrument import real_to_int
            return real_to_int(x, "trunc")
        return int(x)
    if t is bool or t is SymBool:
        return x
    if _special(x):
        return True
    r = (x != 0)
    return r if type(r) is SymBool else bool(r)


def kind_of(dtype):
    if dtype == torch.bool:
        return "b"
    if dtype.is_floating_point:
        return "f"
    if dtype.is_complex:
        raise Unsupported("complex tensor")
    return "i"


def _obj(shape, vals):
    a = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        a[i] = v
    return a.reshape(shape)


class SymTensor(torch.Tensor):
    _symtensor = True

    @staticmethod
    def __new__(cls, store, idx, dtype, strides=None, requires_grad=False, device="cpu"):
        shape = tuple(idx.shape)
        if strides is None:
            strides = _contig(shape)
        r = torch.Tensor._make_wrapper_subclass(cls, shape, strides=strides, dtype=dtype, layout=torch.strided,
                                                device=device, requires_grad=requires_grad)
        r._store = store      # 1-D object array, shared between aliases
        r._idx = idx          # int64 array of positions, this tensor's shape
        return r

    # ---- data access
    def data_array(self):
        return self._store[self._idx] if self._idx.ndim else _obj((), [self._store[int(self._idx)]])

    def elements(self):
        return list(self.data_array().reshape(-1))

    def write(self, arr):
        k = kind_of(self.dtype)
        arr = np.broadcast_to(arr, self._idx.shape)
        for p, v in zip(self._idx.reshape(-1), arr.reshape(-1)):
            self._store[int(p)] = _norm(v, k)

    # ---- scalar conversions
    def item(self):
        e = self.elements()
        if len(e) != 1:
            raise RuntimeError(f"a Tensor with {len(e)} elements cannot be converted to Scalar")
        return unbox(e[0])

    def _sym_scalar(self):
        return self.item()

    def __bool__(self):
        e = self.elements()
        if len(e) != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return bool(_norm(e[0], "b"))

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return int(self.item())

    def tolist(self):
        def go(a):
            return unbox(a[()]) if a.ndim == 0 else [go(x) if isinstance(x, np.ndarray) else unbox(x) for x in a]
        return go(self.data_array())

    def __repr__(self):
        return f"SymTensor({tuple(self.shape)}, {self.dtype})"

    def __format__(self, spec):
        return repr(self)

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        d = self.data_array().copy()
        r = mk(d, self.dtype)
        if isinstance(self, torch.nn.Parameter):
            r = torch.nn.Parameter(r, self.requires_grad)
        else:
            r.requires_grad_(self.requires_grad)
        memo[id(self)] = r
        return r

    def numpy(self, force=False):
        from .symnp import SymArray
        return SymArray(np.array([[unbox(x)] for x in self.elements()], dtype=object)[:, 0].reshape(self.shape)
                        if self.numel() else np.empty(tuple(self.shape), dtype=object),
                        np.dtype(str(self.dtype).replace("torch.", "")))

    def new_tensor(self, data, dtype=None, device=None, requires_grad=False, **kw):
        return tensor(data, dtype=dtype or self.dtype)

    def data_ptr(self):
        """a distinct address for every storage of the current run"""
        d = ctx().__dict__.setdefault("_addr", {})
        k = id(self._store)
        if k not in d:
            d[k] = (self._store, (len(d) + 1) << 20)
        return d[k][1] + 4 * (int(self._idx.reshape(-1)[0]) if self._idx.size else 0)

    def new_full(self, size, fill_value, dtype=None, **kw):
        if _symkw(fill_value):
            return mk(_obj(tuple(size), [fill_value] * int(np.prod(tuple(size)))), dtype or self.dtype)
        return super().new_full(size, fill_value, dtype=dtype, **kw)

    def register_hook(self, hook):
        return super().register_hook(hook)

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def _contig(shape):
    st, n = [], 1
    for s in reversed(shape):
        st.append(n)
        n *= max(s, 1)
    return tuple(reversed(st))


def unbox(e):
    """element -> python / symbolic scalar as the code sees it"""
    if type(e) is Fraction:
        f = float(e)
        return f if Fraction(f) == e else SymReal(real_expr(e))
    return e


def mk(arr, dtype, strides=None, requires_grad=False):
    """object array -> fresh SymTensor"""
    arr = np.asarray(arr, dtype=object)
    k = kind_of(dtype)
    flat = np.empty(arr.size, dtype=object)
    for i, v in enumerate(arr.reshape(-1)):
        flat[i] = _norm(v, k)
    return SymTensor(flat, np.arange(arr.size, dtype=np.int64).reshape(arr.shape), dtype, strides, requires_grad)


def tensor(data, dtype=None, device=None, requires_grad=False, **kw):
    """torch.tensor replacement accepting symbolic values."""
    if isinstance(data, SymTensor):
        return mk(data.data_array().copy(), dtype or data.dtype)
    if isinstance(data, torch.Tensor):
        return mk(_obj(tuple(data.shape), [_norm(x, kind_of(data.dtype)) for x in data.reshape(-1).tolist()]), dtype or data.dtype)
    shape, flat = _flatten(data)
    if dtype is None:
        ks = {_pykind(x) for x in flat}
        dtype = torch.get_default_dtype() if "f" in ks or not flat else (torch.int64 if "i" in ks else torch.bool)
    return mk(_obj(shape, flat), dtype, requires_grad=requires_grad)


def _pykind(x):
    t = type(x)
    if t in (bool, SymBool) or isinstance(x, np.bool_):
        return "b"
    if t in (int, SymInt, SymZ) or isinstance(x, np.integer):
        return "i"
    return "f"


def _flatten(d):
    if isinstance(d, SymTensor):
        return tuple(d.shape), d.elements()
    if isinstance(d, torch.Tensor):
        return tuple(d.shape), d.reshape(-1).tolist()
    if isinstance(d, np.ndarray):
        return d.shape, list(d.reshape(-1).tolist())
    from .symnp import SymArray
    if type(d) is SymArray:
        return tuple(d.a.shape), list(d.a.reshape(-1))
    if isinstance(d, (list, tuple)):
        parts = [_flatten(x) for x in d]
        if not parts:
            return (0,), []
        if any(p[0] != parts[0][0] for p in parts):
            raise ValueError("expected sequence of equal length")
        return (len(d),) + parts[0][0], [x for p in parts for x in p[1]]
    return (), [d]


# ------------------------------------------------------------------ element arithmetic

def e_add(a, b):
    if type(a) is Fraction and not a:
        return b
    if type(b) is Fraction and not b:
        return a
    if _special(a) or _special(b):
        if is_sym(a):
            return b
        if is_sym(b):
            return a
        return _norm(float(a) + float(b), "f")
    return a + b


def e_neg(a):
    return -a


def e_sub(a, b):
    if _special(a) or _special(b):
        return e_add(a, e_neg(b))
    if type(b) is Fraction and not b:
        return a
    if a is b and type(a) is SymReal:
        return Fraction(0)
    return a - b


def e_mul(a, b):
    for x, y in ((a, b), (b, a)):
        if type(x) is Fraction:
            if not x and not _special(y):
                return Fraction(0)
            if x == 1:
                return y
    if _special(a) or _special(b):
        if is_sym(a) or is_sym(b):
            x, y = (b, a) if is_sym(a) else (a, b)
            if x != x:
                return x
            return x if bool(y > 0) else -x if bool(y < 0) else float("nan")
        return _norm(float(a) * float(b), "f")
    # factor conditionals on indicator values out of products
    return a * b


def e_div(a, b):
    if _special(a) or _special(b):
        if is_sym(a) and b in (INF, -INF):
            return Fraction(0)
        if is_sym(a) or a != a or is_sym(b) and b != b:
            return float("nan")
        if is_sym(b):
            return a if bool(b >= 0) else -a
        return _norm(float(np.float64(float(a)) / np.float64(float(b))), "f")
    if type(b) is Fraction:
        if b == 0:
            if type(a) is Fraction:
                return float("nan") if a == 0 else (INF if a > 0 else -INF)
            raise Unsupported("symbolic / 0")
        return a * (1 / b) if b != 1 else a
    if type(a) is Fraction and a == 0 and not is_sym(b):
        return Fraction(0)
    return e_mul(a, inv(b))


def inv(b):
    """1/b as an uninterpreted function with b*inv(b)=1: quotients become polynomials in the inverses."""
    be = z3.simplify(real_expr(b))
    if z3.is_rational_value(be):
        return 1 / Fraction(be.numerator_as_long(), be.denominator_as_long())
    if z3.is_app(be) and be.decl().name() == "t_inv":
        return SymReal(be.arg(0))
    r = uf("inv", b)
    seen = ctx().__dict__.setdefault("_uf_axioms", {})
    key = ("inv", be.get_id())
    if key not in seen:
        seen[key] = be
        ctx().add(z3.Implies(be != 0, z3.And(r.e * be == 1, (r.e > 0) == (be > 0))))
    return r


class _Poly:
    """Commutative polynomial normal form over atoms (variables, uninterpreted applications, if-then-else terms,
    inverses of non-constant divisors); arguments of atoms are normalised recursively."""
    LIMIT = 60000

    def __init__(self):
        self.memo, self.keep, self.atoms = {}, [], {}

    def atom(self, e):
        self.keep.append(e)
        self.atoms[e.get_id()] = e
        return {((e.get_id(), 1),): Fraction(1)}

    def of(self, e):
        k = e.get_id()
        r = self.memo.get(k)
        if r is None:
            self.keep.append(e)
            r = self.memo[k] = self._of(e)
        return r

    def mul(self, p, q):
        if len(p) * len(q) > self.LIMIT:
            raise OverflowError
        out = {}
        for m, a in p.items():
            for n, b in q.items():
                d = dict(m)
                for x, k in n:
                    d[x] = d.get(x, 0) + k
                key = tuple(sorted(d.items()))
                out[key] = out.get(key, 0) + a * b
        return {m: v for m, v in out.items() if v}

    def _of(self, e):
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return {(): v} if v else {}
        if z3.is_app(e):
            k = e.decl().kind()
            ch = e.children()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                out = dict(self.of(ch[0]))
                for c in ch[1:]:
                    for m, v in self.of(c).items():
                        out[m] = out.get(m, 0) + (v if k == z3.Z3_OP_ADD else -v)
                return {m: v for m, v in out.items() if v}
            if k == z3.Z3_OP_UMINUS:
                return {m: -v for m, v in self.of(ch[0]).items()}
            if k == z3.Z3_OP_MUL:
                out = self.of(ch[0])
                for c in ch[1:]:
                    out = self.mul(out, self.of(c))
                return out
            if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 \
                    and 0 <= ch[1].numerator_as_long() <= 8:
                out = {(): Fraction(1)}
                for _ in range(ch[1].numerator_as_long()):
                    out = self.mul(out, self.of(ch[0]))
                return out
            if k == z3.Z3_OP_DIV:
                d = self.of(ch[1])
                if set(d) == {()}:
                    return {m: v / d[()] for m, v in self.of(ch[0]).items()}
                if d:
                    return self.mul(self.of(ch[0]), self.of(real_expr(inv(SymReal(self.back(d))))))
            if k == z3.Z3_OP_ITE and e.sort() == z3.RealSort():
                cond, x, y = self.cond(ch[0]), self.of(ch[1]), self.of(ch[2])
                if z3.is_true(cond) or x == y:
                    return x
                if z3.is_false(cond):
                    return y
                if z3.is_not(cond):
                    cond, x, y = cond.arg(0), y, x
                return self.atom(z3.If(cond, self.back(x), self.back(y)))
            if k == z3.Z3_OP_TO_REAL:
                return self.of_int(ch[0])
            if ch and e.sort() == z3.RealSort():
                new = [self.back(self.of(c)) if c.sort() == z3.RealSort() else z3.simplify(c) for c in ch]
                return self.atom(e.decl()(*new))
        return self.atom(e)

    def of_int(self, e):
        """polynomial of ToReal(e) for an integer expression e"""
        key = ("i", e.get_id())
        r = self.memo.get(key)
        if r is None:
            self.keep.append(e)
            r = self.memo[key] = self._of_int(e)
        return r

    def _of_int(self, e):
        if z3.is_int_value(e):
            v = Fraction(e.as_long())
            return {(): v} if v else {}
        if z3.is_app(e) and e.children():
            k, ch = e.decl().kind(), e.children()
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                op = {z3.Z3_OP_ADD: lambda a, b: a + b, z3.Z3_OP_SUB: lambda a, b: a - b, z3.Z3_OP_MUL: lambda a, b: a * b}.get(k)
                rs = [z3.ToReal(c) for c in ch]
                t = -rs[0] if op is None else rs[0]
                for c in rs[1:]:
                    t = op(t, c)
                return self.of(t)
            if k == z3.Z3_OP_ITE:
                return self.of(z3.If(ch[0], z3.ToReal(ch[1]), z3.ToReal(ch[2])))
            if k == z3.Z3_OP_TO_INT:
                return self.atom(z3.ToReal(z3.ToInt(self.back(self.of(ch[0])))))
            new = [self.canon(c) for c in ch]
            return self.atom(z3.ToReal(e.decl()(*new)))
        return self.atom(z3.ToReal(e))

    def canon(self, e):
        if e.sort() == z3.RealSort():
            return self.back(self.of(e))
        if e.sort() == z3.BoolSort():
            return self.cond(e)
        if z3.is_app(e) and e.children():
            if e.decl().kind() == z3.Z3_OP_TO_INT:
                return z3.ToInt(self.back(self.of(e.arg(0))))
            return e.decl()(*[self.canon(c) for c in e.children()])
        return e

    def cond(self, e):
        """canonical form of a condition: real comparisons become `polynomial >= 0` with a unit leading coefficient"""
        k = ("c", e.get_id())
        r = self.memo.get(k)
        if r is None:
            self.keep.append(e)
            r = self.memo[k] = self._cond(e)
            self.keep.append(r)
        return r

    def _cond(self, e):
        if not z3.is_app(e) or not e.children():
            return e
        k, ch = e.decl().kind(), e.children()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
            new = [self.cond(x) for x in ch]
            if k == z3.Z3_OP_NOT:
                return new[0].arg(0) if z3.is_not(new[0]) else z3.Not(new[0])
            return e.decl()(*new)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and ch[0].sort() == z3.RealSort():
            a, b = self.of(ch[0]), self.of(ch[1])
            if k in (z3.Z3_OP_LE, z3.Z3_OP_GT):
                a, b = b, a
            d = dict(a)
            for m, v in b.items():
                d[m] = d.get(m, 0) - v
            d = {m: v for m, v in d.items() if v}
            lead = d[min(d, key=lambda m: (-len(m), m))] if d else 1
            lead = abs(lead) if k != z3.Z3_OP_EQ else lead
            d = {m: v / lead for m, v in d.items()}
            if set(d) <= {()}:
                v = d.get((), 0)
                t = v == 0 if k == z3.Z3_OP_EQ else v >= 0
                if k in (z3.Z3_OP_LT, z3.Z3_OP_GT):
                    t = not t
                return z3.BoolVal(bool(t))
            p = self.back(d)
            if k == z3.Z3_OP_EQ:
                return p == 0
            return p >= 0 if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) else z3.Not(p >= 0)
        if ch[0].sort() == z3.IntSort():
            return e.decl()(*[self.canon(c) for c in ch])
        return e

    def back(self, p):
        terms = []
        for m in sorted(p):
            fs = [real_expr(p[m])] if p[m] != 1 or not m else []
            for x, k in m:
                fs += [self.atoms[x]] * k
            terms.append(z3.Product(*fs) if len(fs) > 1 else fs[0])
        e = z3.Sum(*terms) if len(terms) > 1 else terms[0] if terms else z3.RealVal(0)
        self.keep.append(e)
        return e


def poly_equal(a, b):
    """True when a - b normalises to 0 (commutative ring normal form), else None."""
    a, b = real_expr(a), real_expr(b)
    if a.eq(b):
        return True
    P = ctx().__dict__.setdefault("_poly", None) or _Poly()
    ctx()._poly = P
    try:
        p, q = P.of(a), P.of(b)
    except OverflowError:
        return None
    if p == q:
        return True
    d = dict(p)
    for m, v in q.items():
        d[m] = d.get(m, 0) - v
    d = {m: v for m, v in d.items() if v}
    if set(d) <= {()}:
        return not d
    if os.environ.get("SYMX_DEBUG_POLY"):
        print("not an identity:", str(P.back(d))[:4000], file=sys.stderr, flush=True)
    return None


def e_cmp(op):
    def f(a, b):
        if type(a) is SymReal or type(b) is SymReal:
            if type(a) is not SymReal:
                r = getattr(b, {"lt": "__gt__", "gt": "__lt__", "le": "__ge__", "ge": "__le__", "eq": "__eq__", "ne": "__ne__"}[op])(a)
            else:
                r = getattr(a, f"__{op}__")(b)
            return r
        if type(a) in (bool, SymBool) or type(b) in (bool, SymBool):
            if type(a) in (bool, SymBool) and type(b) in (bool, SymBool):
                if type(a) is bool and type(b) is bool:
                    pass
                elif op in ("eq", "ne"):
                    e = as_z3bool(a) == as_z3bool(b)
                    return _as_bool_result(z3.simplify(e if op == "eq" else z3.Not(e)))
            a, b = _norm(a, "i"), _norm(b, "i")
        r = {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b,
             "eq": lambda: a == b, "ne": lambda: a != b}[op]()
        return r if type(r) is SymBool else bool(r)
    return f


e_lt, e_gt, e_ge, e_le, e_eq, e_ne = map(e_cmp, ("lt", "gt", "ge", "le", "eq", "ne"))


def e_max(a, b):
    return ite(e_ge(a, b), a, b) if not (_special(a) or _special(b)) else (a if e_ge(a, b) else b)


def e_min(a, b):
    return ite(e_le(a, b), a, b) if not (_special(a) or _special(b)) else (a if e_le(a, b) else b)


def e_where(c, a, b):
    if type(c) is bool:
        return a if c else b
    if _special(a) or _special(b):
        return a if bool(c) else b
    return ite(c, a, b)


_UF = {}


def uf(name, *args):
    f = _UF.get((name, len(args)))
    if f is None:
        f = _UF[(name, len(args))] = z3.Function(f"t_{name}", *([z3.RealSort()] * (len(args) + 1)))
    return SymReal(f(*[z3.simplify(real_expr(a)) for a in args]))


def _is_app(e, name):
    return z3.is_app(e) and e.decl().name() == name and e.decl().kind() == z3.Z3_OP_UNINTERPRETED


def _axiom(fn):
    """Assert a fact about a fresh UF application on this path."""
    ctx().add(fn)


def _fn1(name, exact, rewrites=(), axioms=None):
    def f(x):
        if _special(x):
            return _norm(exact(float(x)), "f")
        if type(x) is Fraction:
            r = exact(float(x))
            fr = _norm(r, "f")
            if _EXACT.get((name, x)) is not None:
                return _EXACT[(name, x)]
            if name in ("sqrt",) and not _special(fr) and fr * fr == x:
                return fr
        e = z3.simplify(real_expr(x))
        for (inner, out) in rewrites:
            if _is_app(e, "t_" + inner):
                return out(SymReal(e.arg(0)))
        r = uf(name, x)
        if axioms is not None:
            key = (name, e.get_id())
            seen = ctx().__dict__.setdefault("_uf_axioms", {})
            if key not in seen:
                seen[key] = e
                for a in axioms(r.e, e):
                    _axiom(a)
        return r
    return f


_EXACT = {("exp", Fraction(0)): Fraction(1), ("log", Fraction(1)): Fraction(0), ("sigmoid", Fraction(0)): Fraction(1, 2),
          ("tanh", Fraction(0)): Fraction(0), ("sqrt", Fraction(0)): Fraction(0), ("sqrt", Fraction(1)): Fraction(1)}


def _safe(f):
    def g(x):
        try:
            return f(x)
        except OverflowError:
            return INF
        except ValueError:
            return float("nan") if x != 0 else -INF
    return g


f_exp = _fn1("exp", _safe(math.exp), [("log", lambda x: x)], lambda r, x: [r > 0])
f_log = _fn1("log", _safe(math.log), [("exp", lambda x: x)])
f_sigmoid = _fn1("sigmoid", lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0, [], lambda r, x: [r > 0, r < 1, (r >= z3.RealVal("1/2")) == (x >= 0)])
f_tanh = _fn1("tanh", math.tanh, [], lambda r, x: [r > -1, r < 1])
f_sqrt = _fn1("sqrt", _safe(math.sqrt), [], lambda r, x: [z3.Implies(x >= 0, z3.And(r >= 0, r * r == x))])
f_softplus = _fn1("softplus", lambda x: math.log1p(math.exp(-abs(x))) + max(x, 0), [], lambda r, x: [r > 0])
f_erf = _fn1("erf", math.erf)
f_log1p = lambda x: f_log(e_add(x, Fraction(1)))
f_expm1 = lambda x: e_sub(f_exp(x), Fraction(1))


def f_rsqrt(x):
    return e_div(Fraction(1), f_sqrt(x))


def lse(row):
    """log(sum(exp(row))) as one uninterpreted function of the row (max-free)."""
    row = [x for x in row if not (_special(x) and x == -INF)]
    if len(row) == 1:
        return row[0]
    return uf(f"lse", *row)


def e_round(x):
    if type(x) is Fraction:
        return Fraction(round(x))
    if is_sym(x):
        from .symnp import round_half_even
        return round_half_even(x)
    return x


def e_floor(x):
    if type(x) is Fraction:
        return Fraction(math.floor(x))
    if type(x) is SymReal:
        return SymReal(z3.ToReal(z3.ToInt(x.e)))
    return x


def e_pow(x, k):
    if type(k) is int or (type(k) is Fraction and k.denominator == 1):
        k = int(k)
        if k >= 0:
            r = Fraction(1)
            for _ in range(k):
                r = e_mul(r, x)
            return r
        return e_div(Fraction(1), e_pow(x, -k))
    if type(k) is Fraction and k == Fraction(1, 2):
        return f_sqrt(x)
    if type(k) is Fraction and k == Fraction(-1, 2):
        return f_rsqrt(x)
    if type(x) is Fraction and type(k) is Fraction and not is_sym(x):
        return _norm(float(x) ** float(k), "f")
    return uf("pow", x, k)


def e_sign(x):
    return e_where(e_gt(x, Fraction(0)), Fraction(1), e_where(e_lt(x, Fraction(0)), Fraction(-1), Fraction(0)))


# ------------------------------------------------------------------ dispatch

H = {}


def op(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f
    return deco


VIEWS = {"view", "_unsafe_view", "expand", "permute", "transpose", "t", "select", "slice", "unsqueeze", "squeeze", "alias", "detach",
         "unbind", "split", "split_with_sizes", "chunk", "as_strided", "diagonal", "unfold", "_reshape_alias", "narrow", "movedim",
         "lift_fresh", "view_as", "expand_as", "reshape", "flatten", "swapaxes"}
MOVES = {"cat", "stack", "repeat", "flip", "roll", "index_select", "gather", "tile", "repeat_interleave",
         "clone", "contiguous", "take", "take_along_dim", "rot90", "pixel_shuffle", "channel_shuffle"}
FACTORY = {"zeros", "ones", "full", "empty", "arange", "eye", "linspace", "scalar_tensor", "empty_strided", "tril_indices", "triu_indices",
           "tensor", "full_like", "randperm"}


def arr_of(x, like_kind=None):
    if isinstance(x, SymTensor):
        return x.data_array()
    if isinstance(x, torch.Tensor):
        k = kind_of(x.dtype)
        with _plain():
            v = x.detach().reshape(-1).tolist()
        return _obj(tuple(x.shape), [_norm(e, k) for e in v])
    return _obj((), [_norm(x, _pykind(x))])


class _PlainGuard:
    depth = 0


@contextlib.contextmanager
def _plain():
    with torch._C._DisableTorchDispatch():
        yield


def to_meta(x):
    if isinstance(x, torch.Tensor):
        if isinstance(x, SymTensor) or x.device.type != "meta":
            m = torch.empty_strided(tuple(x.shape), tuple(x.stride()) if not isinstance(x, SymTensor) else _strides(x),
                                    dtype=x.dtype, device="meta")
            return m
        return x
    if isinstance(x, torch.device):
        return torch.device("meta")
    return x


def _strides(x):
    return tuple(torch.Tensor.stride(x))


def meta_call(func, args, kwargs):
    with _plain():
        kw = dict(kwargs)
        if "pin_memory" in kw:
            kw["pin_memory"] = None
        return func(*tree_map(to_meta, args), **tree_map(to_meta, kw))


def name_of(func):
    return func._schema.name.split("::", 1)[1]


def wrap_like(meta, arr):
    arr = np.asarray(arr, dtype=object)
    if tuple(arr.shape) != tuple(meta.shape):
        arr = np.broadcast_to(arr, tuple(meta.shape)) if arr.size != meta.numel() else arr.reshape(tuple(meta.shape))
    strides = tuple(meta.stride())
    return mk(arr, meta.dtype, strides)


LOG = []


def dispatch(func, args, kwargs):
    name = name_of(func)
    if func.namespace not in ("aten", "prims"):
        d = custom(func, args, kwargs)
        if d is not NotImplemented:
            return d
        raise Unsupported(f"torch op {func}")
    if name in VIEWS and (args and isinstance(args[0], SymTensor)):
        return view_op(func, args, kwargs)
    if name.startswith("_foreach_"):
        return foreach(func, name, args, kwargs)
    if name in SPECIAL:
        return SPECIAL[name](func, args, kwargs)
    base = name
    out = None
    if name.endswith("_") and not name.endswith("__"):
        base, out = name[:-1], args[0]
    elif "out" in kwargs:
        kwargs = dict(kwargs)
        out = kwargs.pop("out")
    if out is not None:
        if not isinstance(out, SymTensor):
            raise Unsupported(f"in-place {func} of a symbolic value into a plain tensor")
        if base in MOVES:
            meta = meta_call(_functional(func, base), args, kwargs)
            r = move_op(_functional(func, base), args, kwargs).data_array()
        elif base in H:
            r = H[base](args, kwargs, None)
        else:
            raise Unsupported(f"torch op {func}")
        out.write(np.asarray(r, dtype=object))
        return out
    if base in MOVES:
        return move_op(func, args, kwargs)
    if base in H:
        meta = meta_call(func, args, kwargs)
        r = H[base](args, kwargs, meta)
        if isinstance(meta, (tuple, list)):
            return type(meta)(None if m is None else wrap_like(m, x) for m, x in zip(meta, r)) if type(meta) in (tuple, list) \
                else tuple(wrap_like(m, x) for m, x in zip(meta, r))
        return wrap_like(meta, r)
    # composite: let torch decompose it
    if torch._C._dispatch_has_kernel_for_dispatch_key(func.name(), "CompositeImplicitAutograd"):
        with torch._C._EnablePreservedTensorDispatch() if False else contextlib.nullcontext():
            r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    table = decomp_table()
    if func in table:
        return table[func](*args, **kwargs)
    raise Unsupported(f"torch op {func}")


_TABLE = None


def decomp_table():
    global _TABLE
    if _TABLE is None:
        from torch._decomp import decomposition_table
        _TABLE = decomposition_table
    return _TABLE


def _functional(func, base):
    pk = getattr(torch.ops.aten, base)
    ov = func._overloadname
    return getattr(pk, ov) if ov in pk.overloads() else pk.default


def view_op(func, args, kwargs):
    x = args[0]
    with _plain():
        base = torch.from_numpy(np.array(x._idx, order="C", copy=True))
        st = _strides(x)
        # an index tensor with the same strides as x, so .view() accepts/refuses the same shapes
        need = 1 + sum((s - 1) * t for s, t in zip(x.shape, st)) if x.numel() else 0
        buf = torch.empty(max(need, 0), dtype=torch.int64)
        it = torch.as_strided(buf, tuple(x.shape), st)
        if all(t != 0 or s <= 1 for s, t in zip(x.shape, st)):
            it.copy_(base)
        else:
            sel = [slice(0, 1) if t == 0 and s > 1 else slice(None) for s, t in zip(x.shape, st)]
            it[tuple(sel)] = base[tuple(sel)]
        r = func(it, *args[1:], **kwargs)

    def w(t):
        return SymTensor(x._store, t.numpy().copy(), x.dtype, tuple(t.stride()))
    if isinstance(r, (list, tuple)):
        return type(r)(w(t) for t in r)
    return w(r)


def move_op(func, args, kwargs):
    meta = meta_call(func, args, kwargs)
    store = []
    n_first = True
    name = name_of(func)
    data_args = {"index_select": 1, "gather": 1, "take": 1, "take_along_dim": 1, "repeat_interleave": 1}.get(name)

    def enc(x):
        if isinstance(x, torch.Tensor):
            a = arr_of(x)
            off = len(store)
            store.extend(a.reshape(-1))
            with _plain():
                return torch.arange(off, off + a.size, dtype=torch.int64).reshape(tuple(x.shape))
        return x

    def conc(x):
        if isinstance(x, SymTensor):
            vals = [int(v) for v in x.elements()]     # forks on symbolic indices
            with _plain():
                return torch.tensor(vals, dtype=x.dtype).reshape(tuple(x.shape))
        return x
    if data_args is None:
        a2 = tree_map(enc, args)
        k2 = {k: v for k, v in kwargs.items()}
    else:
        a2 = [enc(args[0])] + [tree_map(conc, a) for a in args[1:]]
        k2 = tree_map(conc, kwargs)
    k2.pop("memory_format", None)
    with _plain():
        r = func(*a2, **k2)
    st = _obj((len(store),), store)
    return wrap_like(meta, st[r.numpy()] if r.ndim else st[[int(r)]].reshape(()))


def foreach(func, name, args, kwargs):
    inplace = name.endswith("_")
    base = name[len("_foreach_"):].rstrip("_")
    pk = getattr(torch.ops.aten, base + ("_" if inplace else ""))
    f = {"add": torch.add, "sub": torch.sub, "mul": torch.mul, "div": torch.div, "sqrt": torch.sqrt, "neg": torch.neg, "pow": torch.pow,
         "addcmul": torch.addcmul, "addcdiv": torch.addcdiv, "lerp": torch.lerp, "copy": None, "norm": None, "zero": None, "abs": torch.abs,
         "maximum": torch.maximum, "clamp_max": torch.clamp_max, "clamp_min": torch.clamp_min, "reciprocal": torch.reciprocal,
         "sign": torch.sign, "exp": torch.exp}.get(base)
    lists = args[0]
    outs = []
    for i, t in enumerate(lists):
        a = [x[i] if isinstance(x, (list, tuple)) else x for x in args[1:]]
        if base == "copy":
            t.copy_(a[0]); continue
        if base == "zero":
            t.zero_(); continue
        if base == "norm":
            outs.append(torch.linalg.vector_norm(t, *a, **kwargs)); continue
        if f is None:
            raise Unsupported(f"torch op {func}")
        kw = dict(kwargs)
        if base in ("addcmul", "addcdiv"):
            if len(a) == 3:
                kw["value"] = a.pop()
            if isinstance(kw.get("value"), (list, tuple)):
                kw["value"] = kw["value"][i]
            if isinstance(kw.get("scalars"), (list, tuple)):
                kw["value"] = kw.pop("scalars")[i]
        r = f(t, *a, **kw)
        if inplace:
            t.copy_(r)
        else:
            outs.append(r)
    return None if inplace else outs


# ------------------------------------------------------------------ handlers  (args, kwargs, meta) -> object array(s)

def res_kind(args, meta):
    if meta is not None:
        return kind_of(meta.dtype)
    ks = set()
    for a in args:
        if isinstance(a, torch.Tensor):
            ks.add(kind_of(a.dtype))
        elif not isinstance(a, str) and a is not None:
            ks.add(_pykind(a))
    return "f" if "f" in ks else ("i" if "i" in ks else "b")


def bcast(f, arrs):
    arrs = np.broadcast_arrays(*arrs, subok=False) if len(arrs) > 1 else arrs
    shape = arrs[0].shape
    out = np.empty(shape, dtype=object)
    flats = [a.reshape(-1) for a in arrs]
    o = out.reshape(-1)
    for i in range(o.size):
        o[i] = f(*[x[i] for x in flats])
    return o.reshape(shape)


def cast(a, k):
    return bcast(lambda x: _norm(x, k), [a])


def binary(f, promote=True):
    def h(args, kwargs, meta):
        k = res_kind(args[:2], meta)
        A, B = arr_of(args[0]), arr_of(args[1])
        if promote:
            A, B = cast(A, k), cast(B, k)
        return bcast(f, [A, B])
    return h


def _add_h(sign):
    def h(args, kwargs, meta):
        k = res_kind(args[:2], meta)
        alpha = kwargs.get("alpha", args[2] if len(args) > 2 else 1)
        A, B = cast(arr_of(args[0]), k), cast(arr_of(args[1]), k)
        if k == "b":
            return bcast(lambda a, b: sor(a, b), [A, B])
        if k == "f":
            al = _norm(alpha, "f")
            return bcast(lambda a, b: (e_add if sign > 0 else e_sub)(a, e_mul(al, b)), [A, B])
        return bcast(lambda a, b: a + sign * alpha * b, [A, B])
    return h


H["add"] = _add_h(1)
H["sub"] = _add_h(-1)


@op("rsub")
def _rsub(args, kwargs, meta):
    return H["sub"]((args[1], args[0]) + tuple(args[2:]), kwargs, meta)


@op("mul", "multiply")
def _mul(args, kwargs, meta):
    k = res_kind(args[:2], meta)
    A, B = cast(arr_of(args[0]), k), cast(arr_of(args[1]), k)
    if k == "b":
        return bcast(lambda a, b: sand(a, b), [A, B])
    return bcast(e_mul if k == "f" else (lambda a, b: a * b), [A, B])


@op("div", "true_divide", "floor_divide")
def _div(args, kwargs, meta):
    rm = kwargs.get("rounding_mode")
    k = res_kind(args[:2], meta)
    A, B = arr_of(args[0]), arr_of(args[1])
    if rm is None and meta is None:
        k = "f"
    if k == "f":
        f = e_div
        if rm == "floor":
            f = lambda a, b: e_floor(e_div(a, b))
        elif rm == "trunc":
            f = lambda a, b: _norm(_norm(e_div(a, b), "i"), "f")
        return bcast(f, [cast(A, "f"), cast(B, "f")])
    if rm == "floor":
        return bcast(lambda a, b: a // b, [cast(A, k), cast(B, k)])

    def td(a, b):
        q = abs(a) // abs(b)
        return ite((a < 0) != (b < 0), -q, q)
    return bcast(td, [cast(A, k), cast(B, k)])


@op("remainder")
def _rem(args, kwargs, meta):
    k = res_kind(args[:2], meta)
    A, B = cast(arr_of(args[0]), k), cast(arr_of(args[1]), k)
    if k == "f":
        return bcast(lambda a, b: e_sub(a, e_mul(b, e_floor(e_div(a, b)))), [A, B])
    return bcast(lambda a, b: a % b, [A, B])


for nm, f in (("eq", e_eq), ("ne", e_ne), ("lt", e_lt), ("le", e_le), ("gt", e_gt), ("ge", e_ge)):
    def _mkcmp(f=f):
        def h(args, kwargs, meta):
            ks = {kind_of(a.dtype) if isinstance(a, torch.Tensor) else _pykind(a) for a in args[:2]}
            k = "f" if "f" in ks else ("i" if "i" in ks else "b")
            return bcast(f, [cast(arr_of(args[0]), k), cast(arr_of(args[1]), k)])
        return h
    H[nm] = _mkcmp()

H["maximum"] = binary(e_max)
H["minimum"] = binary(e_min)
H["logical_and"] = lambda a, k, m: bcast(lambda x, y: sand(_norm(x, "b"), _norm(y, "b")), [arr_of(a[0]), arr_of(a[1])])
H["logical_or"] = lambda a, k, m: bcast(lambda x, y: sor(_norm(x, "b"), _norm(y, "b")), [arr_of(a[0]), arr_of(a[1])])
H["logical_xor"] = lambda a, k, m: bcast(lambda x, y: e_ne(_norm(x, "b"), _norm(y, "b")), [arr_of(a[0]), arr_of(a[1])])
H["logical_not"] = lambda a, k, m: bcast(lambda x: snot(_norm(x, "b")), [arr_of(a[0])])


def _bit(fb, fi):
    def h(args, kwargs, meta):
        k = res_kind(args[:2], meta)
        A = [cast(arr_of(a), k) for a in args[:2]]
        return bcast(fb if k == "b" else fi, A)
    return h


H["bitwise_and"] = H["__and__"] = _bit(lambda a, b: sand(a, b), lambda a, b: a & b)
H["bitwise_or"] = H["__or__"] = _bit(lambda a, b: sor(a, b), lambda a, b: a | b)
H["bitwise_xor"] = H["__xor__"] = _bit(lambda a, b: e_ne(a, b), lambda a, b: a ^ b)
H["bitwise_left_shift"] = H["__lshift__"] = _bit(None, lambda a, b: a << b)
H["bitwise_right_shift"] = H["__rshift__"] = _bit(None, lambda a, b: a >> b)


@op("bitwise_not")
def _bnot(args, kwargs, meta):
    k = kind_of(args[0].dtype)
    return bcast((lambda x: snot(x)) if k == "b" else (lambda x: ~x), [arr_of(args[0])])


def unary(f, kind="f"):
    def h(args, kwargs, meta):
        a = arr_of(args[0])
        if kind:
            a = cast(a, kind)
        return bcast(f, [a])
    return h


for nm, f in dict(exp=f_exp, log=f_log, sigmoid=f_sigmoid, tanh=f_tanh, sqrt=f_sqrt, rsqrt=f_rsqrt, log1p=f_log1p, expm1=f_expm1,
                  erf=f_erf, reciprocal=lambda x: e_div(Fraction(1), x), softplus=None).items():
    if f is not None:
        H[nm] = unary(f)
H["exp2"] = unary(lambda x: f_exp(e_mul(x, _norm(math.log(2), "f"))))
H["neg"] = unary(e_neg, None)
H["abs"] = unary(lambda x: abs(x) if not is_sym(x) or type(x) is not SymReal else SymReal(z3.If(x.e >= 0, x.e, -x.e)), None)
H["relu"] = unary(lambda x: e_max(x, Fraction(0)) if type(x) in (SymReal, Fraction, float) else max(x, 0), None)
H["sign"] = H["sgn"] = unary(e_sign)
H["floor"] = unary(e_floor)
H["ceil"] = unary(lambda x: e_neg(e_floor(e_neg(x))))
H["trunc"] = unary(lambda x: e_where(e_ge(x, Fraction(0)), e_floor(x), e_neg(e_floor(e_neg(x)))))
H["isnan"] = unary(lambda x: _special(x) and x != x, None)
H["isinf"] = unary(lambda x: _special(x) and x in (INF, -INF), None)
H["isfinite"] = unary(lambda x: not _special(x), None)
H["silu"] = unary(lambda x: e_mul(x, f_sigmoid(x)))
H["square"] = unary(lambda x: e_mul(x, x), None)
H["mish"] = unary(lambda x: e_mul(x, f_tanh(f_softplus(x))))


@op("round")
def _round(args, kwargs, meta):
    if kwargs.get("decimals"):
        raise Unsupported("round decimals")
    return bcast(e_round, [arr_of(args[0])])


@op("hardtanh")
def _hardtanh(args, kwargs, meta):
    lo = _norm(args[1] if len(args) > 1 else -1.0, "f"); hi = _norm(args[2] if len(args) > 2 else 1.0, "f")
    return bcast(lambda x: e_min(e_max(x, lo), hi), [cast(arr_of(args[0]), "f")])


@op("leaky_relu")
def _leaky(args, kwargs, meta):
    s = _norm(args[1] if len(args) > 1 else 0.01, "f")
    return bcast(lambda x: e_where(e_gt(x, Fraction(0)), x, e_mul(s, x)), [arr_of(args[0])])


@op("threshold_backward")
def _thb(args, kwargs, meta):
    th = _norm(args[2], "f")
    return bcast(lambda g, x: e_where(e_gt(x, th), g, Fraction(0)), [arr_of(args[0]), arr_of(args[1])])


@op("sigmoid_backward")
def _sigb(args, kwargs, meta):
    return bcast(lambda g, y: e_mul(g, e_mul(y, e_sub(Fraction(1), y))), [arr_of(args[0]), arr_of(args[1])])


@op("tanh_backward")
def _tanhb(args, kwargs, meta):
    return bcast(lambda g, y: e_mul(g, e_sub(Fraction(1), e_mul(y, y))), [arr_of(args[0]), arr_of(args[1])])


@op("pow")
def _pow(args, kwargs, meta):
    k = res_kind(args[:2], meta)
    A, B = arr_of(args[0]), arr_of(args[1])
    if k == "f":
        return bcast(e_pow, [cast(A, "f"), cast(B, "f")])
    return bcast(lambda a, b: a ** b, [A, B])


@op("clamp", "clip", "clamp_min", "clamp_max")
def _clamp(args, kwargs, meta):
    lo = args[1] if len(args) > 1 else kwargs.get("min")
    hi = args[2] if len(args) > 2 else kwargs.get("max")
    return _clamp_impl(args[0], lo, hi, meta)


def _clamp_impl(x, lo, hi, meta):
    k = res_kind([v for v in (x, lo, hi) if v is not None], meta)
    r = cast(arr_of(x), k)
    mx = e_max if k == "f" else (lambda a, b: ite(a >= b, a, b))
    mn = e_min if k == "f" else (lambda a, b: ite(a <= b, a, b))
    if lo is not None:
        r = bcast(mx, [r, cast(arr_of(lo), k)])
    if hi is not None:
        r = bcast(mn, [r, cast(arr_of(hi), k)])
    return r


H["clamp_min"] = lambda a, kw, m: _clamp_impl(a[0], a[1] if len(a) > 1 else kw.get("min"), None, m)
H["clamp_max"] = lambda a, kw, m: _clamp_impl(a[0], None, a[1] if len(a) > 1 else kw.get("max"), m)


@op("where")
def _where(args, kwargs, meta):
    k = res_kind(args[1:3], meta)
    return bcast(e_where, [cast(arr_of(args[0]), "b"), cast(arr_of(args[1]), k), cast(arr_of(args[2]), k)])


@op("masked_fill")
def _mfill(args, kwargs, meta):
    k = kind_of(args[0].dtype)
    return bcast(lambda x, m, v: e_where(m, v, x), [arr_of(args[0]), cast(arr_of(args[1]), "b"), cast(arr_of(args[2]), k)])


@op("lerp")
def _lerp(args, kwargs, meta):
    A, B, W = (cast(arr_of(a), "f") for a in args[:3])
    return bcast(lambda a, b, w: e_add(a, e_mul(w, e_sub(b, a))), [A, B, W])


@op("addcmul")
def _addcmul(args, kwargs, meta):
    v = _norm(kwargs.get("value", args[3] if len(args) > 3 else 1), "f")
    return bcast(lambda a, b, c: e_add(a, e_mul(v, e_mul(b, c))), [cast(arr_of(x), "f") for x in args[:3]])


@op("addcdiv")
def _addcdiv(args, kwargs, meta):
    v = _norm(kwargs.get("value", args[3] if len(args) > 3 else 1), "f")
    return bcast(lambda a, b, c: e_add(a, e_mul(v, e_div(b, c))), [cast(arr_of(x), "f") for x in args[:3]])


# ---- reductions

def _axes(dim, nd):
    if dim is None or (isinstance(dim, (list, tuple)) and not dim):
        return tuple(range(nd))
    if isinstance(dim, int):
        dim = [dim]
    return tuple(d % nd if nd else 0 for d in dim)


def reduce(a, dim, keepdim, f):
    nd = a.ndim
    if nd == 0:
        return _obj((), [f([a[()]])])
    ax = _axes(dim, nd)
    keep = [i for i in range(nd) if i not in ax]
    b = a.transpose(keep + list(ax)).reshape([a.shape[i] for i in keep] + [-1]) if a.size else \
        np.empty([a.shape[i] for i in keep] + [int(np.prod([a.shape[i] for i in ax]))], dtype=object)
    oshape = b.shape[:-1]
    n = b.shape[-1]
    rows = b.reshape(-1, n) if n else np.empty((int(np.prod(oshape)), 0), dtype=object)
    out = _obj(oshape, [f(list(r)) for r in rows])
    if keepdim:
        out = out.reshape([1 if i in ax else a.shape[i] for i in range(nd)])
    return out


def s_sum(xs):
    if not xs:
        return Fraction(0)
    const = Fraction(0)
    sy = []
    for x in xs:
        if type(x) is Fraction:
            const += x
        elif _special(x):
            return x
        else:
            sy.append(real_expr(x))
    if not sy:
        return const
    if const:
        sy.append(real_expr(const))
    return SymReal(z3.Sum(sy) if len(sy) > 1 else sy[0])


def i_sum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


@op("sum")
def _sum(args, kwargs, meta):
    k = kind_of(meta.dtype) if meta is not None else kind_of(args[0].dtype)
    k = "i" if k == "b" else k
    dim = args[1] if len(args) > 1 else kwargs.get("dim")
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
    if isinstance(dim, torch.dtype):
        dim = None
    return reduce(cast(arr_of(args[0]), k), dim, keep, s_sum if k == "f" else i_sum)


@op("mean")
def _mean(args, kwargs, meta):
    dim = args[1] if len(args) > 1 else kwargs.get("dim")
    keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)

    def f(xs):
        if not xs:
            return float("nan")
        return e_div(s_sum(xs), Fraction(len(xs)))
    return reduce(cast(arr_of(args[0]), "f"), dim, keep, f)


def _var(xs, correction):
    m = e_div(s_sum(xs), Fraction(len(xs)))
    return e_div(s_sum([e_mul(e_sub(x, m), e_sub(x, m)) for x in xs]), Fraction(len(xs)) - _norm(correction, "f"))


@op("var")
def _var_h(args, kwargs, meta):
    dim = args[1] if len(args) > 1 else kwargs.get("dim")
    c = kwargs.get("correction", 1)
    if isinstance(dim, bool):
        dim, c = None, int(dim)
    c = 1 if c is None else c
    return reduce(arr_of(args[0]), dim, kwargs.get("keepdim", False), lambda xs: _var(xs, c))


@op("var_mean")
def _var_mean(args, kwargs, meta):
    dim = args[1] if len(args) > 1 else kwargs.get("dim")
    c = kwargs.get("correction", 1)
    keep = kwargs.get("keepdim", False)
    a = arr_of(args[0])
    return (reduce(a, dim, keep, lambda xs: _var(xs, c)), reduce(a, dim, keep, lambda xs: e_div(s_sum(xs), Fraction(len(xs)))))


@op("prod")
def _prod(args, kwargs, meta):
    dim = args[1] if len(args) > 1 else kwargs.get("dim")

    def f(xs):
        r = Fraction(1) if kind_of(args[0].dtype) == "f" else 1
        for x in xs:
            r = e_mul(r, x) if type(r) in (Fraction, SymReal) else r * x
        return r
    return reduce(arr_of(args[0]), dim, kwargs.get("keepdim", False), f)


def _red(f):
    r = None

    def g(xs):
        if not xs:
            raise RuntimeError("reduction of an empty tensor")
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return g


def _gmax(a, b):
    return e_max(a, b) if type(a) not in (int, SymInt, bool, SymBool) else ite(a >= b, a, b)


def _gmin(a, b):
    return e_min(a, b) if type(a) not in (int, SymInt, bool, SymBool) else ite(a <= b, a, b)


@op("amax")
def _amax(args, kwargs, meta):
    return reduce(arr_of(args[0]), args[1] if len(args) > 1 else kwargs.get("dim"), args[2] if len(args) > 2 else kwargs.get("keepdim", False), _red(_gmax))


@op("amin")
def _amin(args, kwargs, meta):
    return reduce(arr_of(args[0]), args[1] if len(args) > 1 else kwargs.get("dim"), args[2] if len(args) > 2 else kwargs.get("keepdim", False), _red(_gmin))


def _arg(better):
    def f(xs):
        best, bi = xs[0], 0
        for i, x in enumerate(xs[1:], 1):
            c = better(x, best)
            if _special(x) or _special(best):
                if c:
                    best, bi = x, i
                continue
            best = ite(c, x, best)
            bi = ite(c, i, bi)
        return bi
    return f


@op("argmax")
def _argmax(args, kwargs, meta):
    return reduce(arr_of(args[0]), args[1] if len(args) > 1 else kwargs.get("dim"), args[2] if len(args) > 2 else kwargs.get("keepdim", False), _arg(e_gt))


@op("argmin")
def _argmin(args, kwargs, meta):
    return reduce(arr_of(args[0]), args[1] if len(args) > 1 else kwargs.get("dim"), args[2] if len(args) > 2 else kwargs.get("keepdim", False), _arg(e_lt))


def _minmax(f, better):
    def h(args, kwargs, meta):
        a = arr_of(args[0])
        if len(args) == 1 and "dim" not in kwargs:
            return reduce(a, None, False, _red(f))
        if len(args) > 1 and isinstance(args[1], torch.Tensor):
            return bcast(f, [a, arr_of(args[1])])
        dim = args[1] if len(args) > 1 else kwargs["dim"]
        keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
        return (reduce(a, dim, keep, _red(f)), reduce(a, dim, keep, _arg(better)))
    return h


H["max"] = _minmax(_gmax, e_gt)
H["min"] = _minmax(_gmin, e_lt)
H["any"] = lambda a, k, m: reduce(cast(arr_of(a[0]), "b"), a[1] if len(a) > 1 else k.get("dim"), a[2] if len(a) > 2 else k.get("keepdim", False), lambda xs: sor(*xs) if xs else False)
H["all"] = lambda a, k, m: reduce(cast(arr_of(a[0]), "b"), a[1] if len(a) > 1 else k.get("dim"), a[2] if len(a) > 2 else k.get("keepdim", False), lambda xs: sand(*xs) if xs else True)


@op("cumsum")
def _cumsum(args, kwargs, meta):
    a = cast(arr_of(args[0]), kind_of(meta.dtype))
    d = args[1] if len(args) > 1 else kwargs["dim"]
    out = a.copy()
    if a.ndim == 0:
        return out
    m = np.moveaxis(out, d, 0)
    for i in range(1, m.shape[0]):
        m[i] = bcast(lambda x, y: e_add(x, y) if type(x) in (Fraction, SymReal) else x + y, [m[i - 1], m[i]])
    return out


@op("linalg_vector_norm", "norm")
def _norm_h(args, kwargs, meta):
    p = args[1] if len(args) > 1 else kwargs.get("ord", kwargs.get("p", 2))
    dim = args[2] if len(args) > 2 else kwargs.get("dim")
    keep = args[3] if len(args) > 3 else kwargs.get("keepdim", False)
    p = 2 if p is None else p

    def f(xs):
        if p == 2:
            return f_sqrt(s_sum([e_mul(x, x) for x in xs]))
        if p == INF:
            return _red(_gmax)([_abs(x) for x in xs])
        if p == 1:
            return s_sum([_abs(x) for x in xs])
        raise Unsupported(f"norm p={p}")
    return reduce(cast(arr_of(args[0]), "f"), dim, keep, f)


def _abs(x):
    return SymReal(z3.If(x.e >= 0, x.e, -x.e)) if type(x) is SymReal else abs(x)


# ---- softmax family

def _rows(a, dim, f):
    if a.ndim == 0:
        return _obj((), f([a[()]]))
    out = np.empty(a.shape, dtype=object)
    A, O = np.moveaxis(a, dim, -1), np.moveaxis(out, dim, -1)
    for i in np.ndindex(A.shape[:-1]):
        r = f(list(A[i]))
        for j, v in enumerate(r):
            O[i + (j,)] = v
    return out


def _lsm(row):
    l = lse(row)
    return [x if _special(x) and x == -INF else e_sub(x, l) for x in row]


def _sm(row):
    return [Fraction(0) if _special(x) and x == -INF else f_exp(x) for x in _lsm(row)]


H["_log_softmax"] = H["log_softmax"] = lambda a, k, m: _rows(cast(arr_of(a[0]), "f"), a[1], _lsm)
H["_softmax"] = H["softmax"] = lambda a, k, m: _rows(cast(arr_of(a[0]), "f"), a[1], _sm)


@op("logsumexp")
def _logsumexp(args, kwargs, meta):
    return reduce(cast(arr_of(args[0]), "f"), args[1], args[2] if len(args) > 2 else kwargs.get("keepdim", False), lse)


@op("_log_softmax_backward_data")
def _lsmb(args, kwargs, meta):
    g, y, d = arr_of(args[0]), arr_of(args[1]), args[2]
    s = reduce(g, d, True, s_sum)
    return bcast(lambda gg, yy, ss: e_sub(gg, e_mul(f_exp(yy), ss)), [g, y, s])


@op("_softmax_backward_data")
def _smb(args, kwargs, meta):
    g, y, d = arr_of(args[0]), arr_of(args[1]), args[2]
    gy = bcast(e_mul, [g, y])
    s = reduce(gy, d, True, s_sum)
    return bcast(lambda p, yy, ss: e_sub(p, e_mul(yy, ss)), [gy, y, s])


@op("log_sigmoid_forward")
def _lsig(args, kwargs, meta):
    a = arr_of(args[0])
    return (bcast(lambda x: e_neg(f_softplus(e_neg(x))), [a]), np.empty((0,), dtype=object))


H["softplus"] = lambda a, k, m: bcast(f_softplus, [arr_of(a[0])])


def _loss_red(vals, args, kwargs, pos, meta):
    red = args[pos] if len(args) > pos else kwargs.get("reduction", 1)
    if red == 0:
        return vals
    s = s_sum(list(vals.reshape(-1)))
    return _obj((), [s if red == 2 else (float("nan") if vals.size == 0 else e_div(s, Fraction(vals.size)))])


@op("mse_loss")
def _mse(args, kwargs, meta):
    d = bcast(e_sub, [cast(arr_of(args[0]), "f"), cast(arr_of(args[1]), "f")])
    return _loss_red(bcast(e_mul, [d, d]), args, kwargs, 2, meta)


@op("huber_loss")
def _huber(args, kwargs, meta):
    delta = _norm(args[3] if len(args) > 3 else kwargs.get("delta", 1.0), "f")
    d = bcast(lambda a, b: _abs(e_sub(a, b)), [arr_of(args[0]), arr_of(args[1])])
    h = Fraction(1, 2)
    v = bcast(lambda z: e_where(e_le(z, delta), e_mul(h, e_mul(z, z)), e_mul(delta, e_sub(z, e_mul(h, delta)))), [d])
    return _loss_red(v, args, kwargs, 2, meta)


@op("binary_cross_entropy_with_logits")
def _bce(args, kwargs, meta):
    x, t = arr_of(args[0]), arr_of(args[1])
    weight = args[2] if len(args) > 2 else kwargs.get("weight")
    pw = args[3] if len(args) > 3 else kwargs.get("pos_weight")
    if weight is not None:
        raise Unsupported("bce weight")
    one = Fraction(1)
    if pw is None:
        v = bcast(lambda a, b: e_add(e_mul(e_sub(one, b), a), f_softplus(e_neg(a))), [x, t])
    else:
        v = bcast(lambda a, b, w: e_add(e_mul(e_sub(one, b), a), e_mul(e_add(one, e_mul(e_sub(w, one), b)), f_softplus(e_neg(a)))),
                  [x, t, arr_of(pw)])
    return _loss_red(v, args, kwargs, 4, meta)


# ---- linear algebra

def _dot(r, c):
    return s_sum([e_mul(a, b) for a, b in zip(r, c)])


def _mm2(A, B):
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = _dot(A[i], B[:, j])
    return out


H["mm"] = lambda a, k, m: _mm2(cast(arr_of(a[0]), "f"), cast(arr_of(a[1]), "f"))
H["mv"] = lambda a, k, m: _mm2(arr_of(a[0]), arr_of(a[1]).reshape(-1, 1)).reshape(-1)
H["dot"] = lambda a, k, m: _obj((), [_dot(arr_of(a[0]), arr_of(a[1]))])


@op("bmm")
def _bmm(args, kwargs, meta):
    A, B = arr_of(args[0]), arr_of(args[1])
    out = np.empty((A.shape[0], A.shape[1], B.shape[2]), dtype=object)
    for i in range(A.shape[0]):
        out[i] = _mm2(A[i], B[i])
    return out


@op("addmm", "baddbmm")
def _addmm(args, kwargs, meta):
    beta, alpha = _norm(kwargs.get("beta", 1), "f"), _norm(kwargs.get("alpha", 1), "f")
    p = (_bmm if arr_of(args[1]).ndim == 3 else H["mm"])((args[1], args[2]), {}, None)
    b = np.broadcast_to(arr_of(args[0]), p.shape)
    return bcast(lambda x, y: e_add(e_mul(beta, x), e_mul(alpha, y)), [b, p])


@op("convolution")
def _conv(args, kwargs, meta):
    x, w, b, stride, padding, dilation, transposed, outpad, groups = args[:9]
    if transposed:
        raise Unsupported("transposed convolution")
    X, W = arr_of(x), arr_of(w)
    N, C = X.shape[:2]
    nd = X.ndim - 2
    out = np.empty(tuple(meta.shape), dtype=object)
    cpg, opg = C // groups, W.shape[0] // groups
    for n in range(N):
        for o in range(W.shape[0]):
            g = o // opg
            for pos in np.ndindex(out.shape[2:]):
                terms = []
                for c in range(cpg):
                    for kk in np.ndindex(W.shape[2:]):
                        ip = tuple(p * s + q * d - pd for p, s, q, d, pd in zip(pos, stride, kk, dilation, padding))
                        if all(0 <= i < L for i, L in zip(ip, X.shape[2:])):
                            terms.append(e_mul(X[(n, g * cpg + c) + ip], W[(o, c) + kk]))
                v = s_sum(terms)
                if b is not None:
                    v = e_add(v, arr_of(b)[o])
                out[(n, o) + pos] = v
    return out


@op("im2col")
def _im2col(args, kwargs, meta):
    x, k, dil, pad, stride = args[:5]
    X = arr_of(x)
    B, C, Hh, Ww = X.shape
    oh = (Hh + 2 * pad[0] - dil[0] * (k[0] - 1) - 1) // stride[0] + 1
    ow = (Ww + 2 * pad[1] - dil[1] * (k[1] - 1) - 1) // stride[1] + 1
    out = np.empty((B, C * k[0] * k[1], oh * ow), dtype=object)
    for b in range(B):
        for c in range(C):
            for i in range(k[0]):
                for j in range(k[1]):
                    for y in range(oh):
                        for z in range(ow):
                            r, q = y * stride[0] + i * dil[0] - pad[0], z * stride[1] + j * dil[1] - pad[1]
                            out[b, (c * k[0] + i) * k[1] + j, y * ow + z] = X[b, c, r, q] if 0 <= r < Hh and 0 <= q < Ww else Fraction(0)
    return out


@op("col2im")
def _col2im(args, kwargs, meta):
    x, size, k, dil, pad, stride = args[:6]
    X = arr_of(x)
    B, CK, L = X.shape
    C = CK // (k[0] * k[1])
    oh = (size[0] + 2 * pad[0] - dil[0] * (k[0] - 1) - 1) // stride[0] + 1
    ow = (size[1] + 2 * pad[1] - dil[1] * (k[1] - 1) - 1) // stride[1] + 1
    acc = {}
    for b in range(B):
        for c in range(C):
            for i in range(k[0]):
                for j in range(k[1]):
                    for y in range(oh):
                        for z in range(ow):
                            r, q = y * stride[0] + i * dil[0] - pad[0], z * stride[1] + j * dil[1] - pad[1]
                            if 0 <= r < size[0] and 0 <= q < size[1]:
                                acc.setdefault((b, c, r, q), []).append(X[b, (c * k[0] + i) * k[1] + j, y * ow + z])
    out = np.empty((B, C, size[0], size[1]), dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = s_sum(acc.get(i, []))
    return out


@op("_prelu_kernel")
def _prelu(args, kwargs, meta):
    return bcast(lambda x, w: e_where(e_gt(x, Fraction(0)), x, e_mul(w, x)), [arr_of(args[0]), arr_of(args[1])])


@op("convolution_backward")
def _conv_back(args, kwargs, meta):
    g, x, w, bias_sizes, stride, padding, dilation, transposed, outpad, groups, mask = args[:11]
    if transposed:
        raise Unsupported("transposed convolution")
    G, X, W = arr_of(g), arr_of(x), arr_of(w)
    N = X.shape[0]
    cpg, opg = X.shape[1] // groups, W.shape[0] // groups
    gx, gw = {}, {}
    for n in range(N):
        for o in range(W.shape[0]):
            gr = o // opg
            for pos in np.ndindex(G.shape[2:]):
                go = G[(n, o) + pos]
                for c in range(cpg):
                    for kk in np.ndindex(W.shape[2:]):
                        ip = tuple(p * s + q * d - pd for p, s, q, d, pd in zip(pos, stride, kk, dilation, padding))
                        if all(0 <= i < L for i, L in zip(ip, X.shape[2:])):
                            xi = (n, gr * cpg + c) + ip
                            if mask[0]:
                                gx.setdefault(xi, []).append(e_mul(go, W[(o, c) + kk]))
                            if mask[1]:
                                gw.setdefault((o, c) + kk, []).append(e_mul(go, X[xi]))

    def full(shape, d):
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            out[i] = s_sum(d.get(i, []))
        return out
    gb = None
    if mask[2]:
        gb = np.empty((W.shape[0],), dtype=object)
        for o in range(W.shape[0]):
            gb[o] = s_sum(list(G[:, o].reshape(-1)))
    return (full(X.shape, gx) if mask[0] else None, full(W.shape, gw) if mask[1] else None, gb)


# ---- construction / movement with values

@op("_to_copy")
def _to_copy(args, kwargs, meta):
    return arr_of(args[0])


H["fill"] = lambda a, k, m: np.broadcast_to(arr_of(a[1]), a[0].shape)
H["zero"] = lambda a, k, m: np.broadcast_to(_obj((), [0]), a[0].shape)
H["zeros_like"] = H["new_zeros"] = H["empty_like"] = H["new_empty"] = H["new_empty_strided"] = lambda a, k, m: np.broadcast_to(_obj((), [0]), tuple(m.shape))
H["ones_like"] = H["new_ones"] = lambda a, k, m: np.broadcast_to(_obj((), [1]), tuple(m.shape))
H["full_like"] = lambda a, k, m: np.broadcast_to(arr_of(a[1]), tuple(m.shape))
H["new_full"] = lambda a, k, m: np.broadcast_to(arr_of(a[2]), tuple(m.shape))
H["copy"] = lambda a, k, m: np.broadcast_to(arr_of(a[1]), tuple(a[0].shape))


@op("constant_pad_nd")
def _pad(args, kwargs, meta):
    a = arr_of(args[0])
    v = _norm(args[2] if len(args) > 2 else 0, kind_of(args[0].dtype))
    with _plain():
        it = torch.arange(a.size, dtype=torch.int64).reshape(a.shape)
        r = torch.ops.aten.constant_pad_nd(it, args[1], -1).numpy()
    flat = a.reshape(-1)
    return _obj(r.shape, [v if i < 0 else flat[i] for i in r.reshape(-1)])


@op("tril", "triu")
def _tri(args, kwargs, meta):
    raise Unsupported("tril")


def _conc_idx(t):
    """concrete index array (forks on symbolic entries)"""
    if isinstance(t, SymTensor):
        if t.dtype == torch.bool:
            return np.array([bool(x) for x in t.elements()], dtype=bool).reshape(tuple(t.shape))
        return np.array([int(x) for x in t.elements()], dtype=np.int64).reshape(tuple(t.shape))
    with _plain():
        return t.numpy()


def _np_index(indices):
    """torch aten.index semantics through torch itself on positions"""
    return [None if i is None else torch.from_numpy(np.array(_conc_idx(i), order="C", copy=True)) for i in indices]


def _index(func, args, kwargs):
    x, indices = args[0], args[1]
    a = arr_of(x)
    with _plain():
        pos = torch.arange(a.size, dtype=torch.int64).reshape(a.shape)
        r = torch.ops.aten.index.Tensor(pos, _np_index(indices))
    flat = a.reshape(-1)
    rn = r.numpy()
    return mk(flat[rn] if rn.ndim else _obj((), [flat[int(rn)]]), x.dtype)


def _index_put_(func, args, kwargs):
    x, indices, vals = args[0], args[1], args[2]
    acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
    inplace = name_of(func).endswith("_")
    t = x if inplace else mk(arr_of(x).copy(), x.dtype)
    if not isinstance(t, SymTensor):
        raise Unsupported("index_put_ into a plain tensor")
    if len(indices) == 1 and isinstance(indices[0], SymTensor) and indices[0].dtype == torch.bool and vals.numel() == 1 and not acc:
        m = indices[0].data_array()
        m = m.reshape(m.shape + (1,) * (t.dim() - m.ndim))
        v = arr_of(vals).reshape(())
        k = kind_of(t.dtype)
        t.write(bcast(lambda a, b, c: e_where(b, _norm(c, k), a), [t.data_array(), np.broadcast_to(m, tuple(t.shape)), np.broadcast_to(v, tuple(t.shape))]))
        return t
    with _plain():
        pos = torch.arange(t.numel(), dtype=torch.int64).reshape(tuple(t.shape))
        r = torch.ops.aten.index.Tensor(pos, _np_index(indices)).numpy()
    d = t.data_array().copy()
    flat = d.reshape(-1)
    V = np.broadcast_to(arr_of(vals), r.shape)
    k = kind_of(t.dtype)
    for p, v in zip(r.reshape(-1), V.reshape(-1)):
        v = _norm(v, k)
        flat[int(p)] = (e_add(flat[int(p)], v) if k == "f" else flat[int(p)] + v) if acc else v
    t.write(flat.reshape(tuple(t.shape)))
    return t


def _scatter(func, args, kwargs):
    name = name_of(func)
    inplace = name.endswith("_")
    base = name.rstrip("_")
    x, dim, index, src = args[0], args[1], args[2], args[3]
    add = base == "scatter_add" or kwargs.get("reduce") == "add" or (len(args) > 4 and args[4] in ("add", "sum"))
    t = x if inplace else mk(arr_of(x).copy(), x.dtype)
    d = t.data_array().copy()
    I = _conc_idx(index)
    S = arr_of(src)
    S = np.broadcast_to(S, I.shape) if S.ndim == 0 else S
    k = kind_of(t.dtype)
    for pos in np.ndindex(I.shape):
        q = list(pos)
        q[dim] = int(I[pos])
        q = tuple(q)
        v = _norm(S[pos], k)
        d[q] = (e_add(d[q], v) if k == "f" else d[q] + v) if add else v
    t.write(d)
    return t


def _index_add(func, args, kwargs):
    name = name_of(func)
    t = args[0] if name.endswith("_") else mk(arr_of(args[0]).copy(), args[0].dtype)
    dim, index, src = args[1], args[2], args[3]
    alpha = _norm(kwargs.get("alpha", 1), "f")
    d = t.data_array().copy()
    I = _conc_idx(index).reshape(-1)
    S = arr_of(src)
    k = kind_of(t.dtype)
    D, SS = np.moveaxis(d, dim, 0), np.moveaxis(S, dim, 0)
    for j, i in enumerate(I):
        D[int(i)] = bcast(lambda a, b: e_add(a, e_mul(alpha, _norm(b, "f"))) if k == "f" else a + b, [np.asarray(D[int(i)], dtype=object), np.asarray(SS[j], dtype=object)])
    t.write(d)
    return t


def _embedding(func, args, kwargs):
    w, i = args[0], args[1]
    I = _conc_idx(i)
    A = arr_of(w)
    if ((I < 0) | (I >= A.shape[0])).any():
        raise IndexError("index out of range in self")
    return mk(A[I.reshape(-1)].reshape(I.shape + (A.shape[1],)), w.dtype)


def _copy_(func, args, kwargs):
    dst, src = args[0], args[1]
    if not isinstance(dst, SymTensor):
        raise Unsupported("copy of a symbolic tensor into a plain tensor")
    dst.write(np.broadcast_to(arr_of(src), tuple(dst.shape)))
    return dst


def _item(func, args, kwargs):
    e = args[0].elements()[0]
    if is_sym(e):
        raise Unsupported("item() of a symbolic tensor inside torch")
    return unbox(e) if not isinstance(e, Fraction) else float(e)


def _nonzero(func, args, kwargs):
    a = args[0].data_array()
    hits = [p for p in np.ndindex(a.shape) if bool(_norm(a[p], "b"))]
    arr = np.empty((len(hits), a.ndim), dtype=object)
    for i, p in enumerate(hits):
        for j, v in enumerate(p):
            arr[i, j] = v
    return mk(arr, torch.int64)


def _masked_select(func, args, kwargs):
    a, m = np.broadcast_arrays(arr_of(args[0]), arr_of(args[1]))
    return mk(_obj((-1,), [x for x, y in zip(a.reshape(-1), m.reshape(-1)) if bool(y)]) if a.size else np.empty(0, dtype=object), args[0].dtype)


def _topk(func, args, kwargs):
    x = args[0]
    k = args[1]
    dim = args[2] if len(args) > 2 else kwargs.get("dim", -1)
    largest = args[3] if len(args) > 3 else kwargs.get("largest", True)
    return _sortlike(x, dim, largest, k)


def _sort(func, args, kwargs):
    x = args[0]
    if "stable" in kwargs:
        dim, desc = args[1] if len(args) > 1 else kwargs.get("dim", -1), kwargs.get("descending", args[2] if len(args) > 2 else False)
    else:
        dim, desc = args[1] if len(args) > 1 else kwargs.get("dim", -1), args[2] if len(args) > 2 else kwargs.get("descending", False)
    n = x.shape[dim] if x.dim() else 1
    return _sortlike(x, dim, desc, n)


def _sortlike(x, dim, desc, k):
    a = arr_of(x)
    A = np.moveaxis(a, dim, -1)
    V = np.empty(A.shape[:-1] + (k,), dtype=object)
    I = np.empty(A.shape[:-1] + (k,), dtype=object)
    better = e_gt if desc else e_lt
    for p in np.ndindex(A.shape[:-1]):
        rem = list(enumerate(A[p]))
        for j in range(k):
            bi = 0
            for q in range(1, len(rem)):
                if bool(better(rem[q][1], rem[bi][1])):       # forks
                    bi = q
            i, v = rem.pop(bi)
            V[p + (j,)], I[p + (j,)] = v, i
    return (mk(np.moveaxis(V, -1, dim), x.dtype), mk(np.moveaxis(I, -1, dim), torch.int64))


def _equal(func, args, kwargs):
    a, b = arr_of(args[0]), arr_of(args[1])
    if a.shape != b.shape:
        return False
    return bool(sand(*[e_eq(x, y) for x, y in zip(a.reshape(-1), b.reshape(-1))]))


def _unique(func, args, kwargs):
    raise Unsupported("unique")


def _native_ln(func, args, kwargs):
    x, shape, w, b, eps = args
    a = arr_of(x)
    nd = len(shape)
    lead = a.shape[:-nd]
    n = int(np.prod(shape))
    rows = a.reshape(-1, n)
    out, means, rstds = [], [], []
    W = None if w is None else arr_of(w).reshape(-1)
    B = None if b is None else arr_of(b).reshape(-1)
    for r in rows:
        m = e_div(s_sum(list(r)), Fraction(n))
        v = _var(list(r), 0)
        rs = f_rsqrt(e_add(v, _norm(eps, "f")))
        means.append(m); rstds.append(rs)
        for j, e in enumerate(r):
            y = e_mul(e_sub(e, m), rs)
            if W is not None:
                y = e_mul(y, W[j])
            if B is not None:
                y = e_add(y, B[j])
            out.append(y)
    return (mk(_obj(a.shape, out), x.dtype), mk(_obj(lead + (1,) * nd, means), x.dtype), mk(_obj(lead + (1,) * nd, rstds), x.dtype))


SPECIAL = {"is_pinned": lambda func, args, kwargs: False, "index": _index, "index_put_": _index_put_, "index_put": _index_put_, "_unsafe_index": _index, "scatter": _scatter,
           "scatter_": _scatter, "scatter_add": _scatter, "scatter_add_": _scatter, "scatter_reduce": _scatter, "index_add": _index_add,
           "index_add_": _index_add, "embedding": _embedding, "copy_": _copy_, "_local_scalar_dense": _item, "nonzero": _nonzero,
           "masked_select": _masked_select, "topk": _topk, "sort": _sort, "equal": _equal, "native_layer_norm": _native_ln}


def custom(func, args, kwargs):
    return NotImplemented


# ------------------------------------------------------------------ dunder arithmetic with symbolic scalars

def _lift(t, x):
    if is_sym(x) or type(x) is Fraction:
        dt = t.dtype
        if _pykind(x) == "f" and not dt.is_floating_point:
            dt = torch.get_default_dtype()
        elif _pykind(x) == "i" and dt == torch.bool:
            dt = torch.int64
        elif _pykind(x) == "b":
            dt = torch.bool
        return mk(_obj((), [x]), dt)
    return x


def _wrap_method(name):
    base = getattr(torch.Tensor, name)

    def m(self, *args, **kw):
        args = tuple(_lift(self, a) for a in args)
        return base(self, *args, **kw)
    m.__name__ = name
    return m


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__pow__", "__eq__", "__ne__",
           "__lt__", "__le__", "__gt__", "__ge__", "__iadd__", "__isub__", "__imul__", "__itruediv__", "__floordiv__", "__mod__",
           "add", "add_", "sub", "sub_", "mul", "mul_", "div", "div_", "pow", "fill_", "masked_fill", "masked_fill_", "clamp", "clamp_",
           "clamp_min", "clamp_min_", "clamp_max", "clamp_max_", "eq", "ne", "lt", "le", "gt", "ge", "lerp", "lerp_"):
    setattr(SymTensor, _n, _wrap_method(_n))


def _symkw(v):
    return is_sym(v) or type(v) is Fraction


def _wrap_alpha(name):
    """in-place / functional add, sub, addcmul, addcdiv with a symbolic alpha / value"""
    base = getattr(SymTensor, name)

    def m(self, *args, **kw):
        key = "value" if name.startswith("addc") else "alpha"
        v = kw.get(key)
        if v is None or not _symkw(v):
            return base(self, *args, **kw)
        kw = {k: x for k, x in kw.items() if k != key}
        first = args[0]
        first = _lift(first, v) * first if isinstance(first, SymTensor) else lift(first) * _lift(self, v)
        return base(self, first, *args[1:], **kw)
    m.__name__ = name
    return m


for _n in ("add", "add_", "sub", "sub_", "addcmul", "addcmul_", "addcdiv", "addcdiv_"):
    setattr(SymTensor, _n, _wrap_alpha(_n))


def _setitem(self, i, v):
    return torch.Tensor.__setitem__(self, i, _lift(self, v))


SymTensor.__setitem__ = _setitem


# ------------------------------------------------------------------ dispatch mode and torch function mode

def _has_sym(tree):
    found = []

    def f(x):
        if isinstance(x, SymTensor):
            found.append(1)
        return x
    tree_map(f, tree)
    return bool(found)


class Mode(TorchDispatchMode):
    """Makes freshly created tensors symbolic too, so that writing into them works."""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if _has_sym((args, kwargs)):
            return dispatch(func, args, kwargs)
        name = name_of(func)
        r = func(*args, **kwargs)
        if func.namespace == "aten" and not any(isinstance(x, torch.Tensor) for x in list(args) + list(kwargs.values())) \
                and name not in ("randperm",) and isinstance(r, torch.Tensor) and not r.dtype.is_complex and r.device.type == "cpu":
            return lift(r)
        return r


def lift(t):
    """concrete tensor -> SymTensor with the same values"""
    return mk(arr_of(t), t.dtype)


_PATCHED = []


def _contains_sym(d):
    if isinstance(d, SymTensor) or is_sym(d) or type(d) is Fraction:
        return True
    if isinstance(d, (list, tuple)):
        return any(_contains_sym(x) for x in d)
    from .symnp import SymArray
    return type(d) is SymArray


def patch_factories():
    """torch.tensor & co. accept symbolic data (falls through to torch otherwise)."""
    if _PATCHED:
        return
    _PATCHED.append(1)

    def wrap(name, conv):
        base = getattr(torch, name)

        def f(*a, **kw):
            if active() and a and _contains_sym(conv(a)):
                return g(*a, **kw)
            return base(*a, **kw)

        def g(*a, **kw):
            if name == "full":
                size, v = a[0], a[1]
                dt = kw.get("dtype") or {"b": torch.bool, "i": torch.int64, "f": torch.get_default_dtype()}[_pykind(v)]
                return mk(_obj(tuple(size), [v] * int(np.prod(tuple(size)))), dt)
            if isinstance(a[0], SymTensor):
                if name in ("as_tensor", "asarray", "from_numpy"):
                    dt = kw.get("dtype")
                    return a[0] if dt is None or dt == a[0].dtype else a[0].to(dt)
                return tensor(a[0], kw.get("dtype"))
            from .symnp import SymArray
            dt = kw.get("dtype")
            if dt is None and type(a[0]) is SymArray:
                dt = _np_dtype(a[0].dtype)
            return tensor(a[0], dt, requires_grad=kw.get("requires_grad", False))
        f.__name__ = name
        setattr(torch, name, f)
    def foreach_wrap(name):
        base = getattr(torch, name)
        inplace = name.endswith("_")
        op = name[len("_foreach_"):]

        def f(lists, *a, **kw):
            if not (active() and any(_symkw(x) for x in list(a) + list(kw.values()))):
                return base(lists, *a, **kw)
            out = []
            for i, t in enumerate(lists):
                t = t if isinstance(t, SymTensor) else lift(t)
                out.append(getattr(t, op)(*[x[i] if isinstance(x, (list, tuple)) else x for x in a], **kw))
            return None if inplace else tuple(out)
        f.__name__ = name
        setattr(torch, name, f)
    for op in ("add", "sub", "mul", "div", "lerp", "addcmul", "addcdiv", "pow", "clamp_min", "clamp_max"):
        for suffix in ("", "_"):
            if hasattr(torch, f"_foreach_{op}{suffix}"):
                foreach_wrap(f"_foreach_{op}{suffix}")

    def scalar_wrap(name):
        base = getattr(torch, name)

        def f(x, *a, **kw):
            if active() and isinstance(x, SymTensor) and any(_symkw(y) for y in list(a) + list(kw.values())):
                return getattr(x, name)(*a, **kw)
            return base(x, *a, **kw)
        f.__name__ = name
        setattr(torch, name, f)
    for op in ("add", "sub", "mul", "div", "clamp", "clamp_min", "clamp_max", "lerp", "addcmul", "addcdiv", "pow", "maximum", "where"):
        if op not in ("maximum", "where"):
            scalar_wrap(op)
    wrap("tensor", lambda a: a[0])
    wrap("as_tensor", lambda a: a[0])
    wrap("from_numpy", lambda a: a[0])
    wrap("full", lambda a: a[1] if len(a) > 1 else None)


def _np_dtype(dt):
    return torch.from_numpy(np.zeros(0, dt)).dtype


@contextlib.contextmanager
def mode():
    patch_factories()
    with Mode():
        yield


# ------------------------------------------------------------------ harness helpers

def real_tensor(c, name, shape, dtype=torch.float64, lo=None, hi=None, requires_grad=False):
    """Symbolic float tensor (symbolic run) or plain tensor of the replayed values."""
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    vals = [c.real(f"{name}_{i}", lo, hi) for i in range(n)]
    return make(c, vals, shape, dtype, requires_grad)


def bool_tensor(c, name, shape):
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    return make(c, [c.bool(f"{name}_{i}") for i in range(n)], shape, torch.bool)


def int_tensor(c, name, shape, lo, hi, dtype=torch.int64):
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    return make(c, [c.int(f"{name}_{i}", lo, hi) for i in range(n)], shape, dtype)


def make(c, vals, shape, dtype=torch.float64, requires_grad=False):
    vals = list(vals)
    if c.symbolic:
        t = mk(_obj(tuple(shape), vals), dtype)
        if requires_grad:
            t.requires_grad_(True)
        return t
    vals = [float(v) if isinstance(v, Fraction) else v for v in vals]
    t = torch.tensor(vals, dtype=dtype).reshape(tuple(shape))
    if requires_grad:
        t.requires_grad_(True)
    return t


def vals(t):
    """flat element list in either mode"""
    if isinstance(t, SymTensor):
        return t.elements()
    return t.detach().reshape(-1).tolist()


TOL = 1e-6


def close(a, b, tol=TOL):
    """equality: exact over the reals when symbolic, tolerance in replay"""
    if is_sym(a) or is_sym(b) or isinstance(a, Fraction) or isinstance(b, Fraction):
        if ctx().symbolic:
            if (type(a) is SymReal or type(b) is SymReal) and not _special(a) and not _special(b):
                r = poly_equal(a, b)
                if r is not None:
                    return r
            return e_eq(_norm(a, _pykind(a)) if not isinstance(a, Fraction) else a, _norm(b, _pykind(b)) if not isinstance(b, Fraction) else b)
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if a in (INF, -INF) or b in (INF, -INF):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def tsame(t, u, tol=TOL):
    if tuple(t.shape) != tuple(u.shape):
        return False
    return sand(*[close(a, b, tol) for a, b in zip(vals(t), vals(u))])


def _wrap_real(name):
    base = getattr(values.SymReal, name)

    def m(self, other):
        if getattr(other, "_kernel_value", False):
            return NotImplemented
        if isinstance(other, torch.Tensor):
            t = other if isinstance(other, SymTensor) else lift(other)
            return getattr(_lift(t, self), name)(t)
        return base(self, other)
    m.__name__ = name
    return m


for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__lt__", "__le__", "__gt__",
           "__ge__", "__eq__", "__ne__"):
    setattr(values.SymReal, _n, _wrap_real(_n))


_base_pow = values.SymReal.__pow__


def _real_pow(self, k):
    if isinstance(k, float) and k in (0.5, -0.5):
        return e_pow(self, Fraction(k))
    if type(k) in (int, float) and k == int(k) and k < 0:
        return e_div(Fraction(1), _base_pow(self, int(-k)))
    return _base_pow(self, k)


values.SymReal.__pow__ = _real_pow
