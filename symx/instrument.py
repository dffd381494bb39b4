"""Import hook: modules of /repo are loaded from their *current source* through a
semantics-preserving AST rewrite that routes a few builtins (int, min, max, type,
not, bytes.join, ...) and the numpy/struct/hashlib/math modules to models which
understand symbolic values and fall through to the originals on concrete ones.
"""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import math as _math
import operator as _operator
import os
import sys
import types
from fractions import Fraction

import z3

from .engine import Unsupported, active, ctx
from . import values as V
from .values import SymInt, SymBool, SymReal, is_sym, ite
from .sbytes import SymBytes, SymStr, STRUCT, HASHLIB, bytes_join, int_from_bytes, has_sym
from .symio import CTYPES, IO
from .symnp import NP, SymArray, as_sym, call_scalar_type, contains_sym, round_half_even, cast_elem
import numpy as _np

REPO = os.environ.get("SYMX_REPO", "/repo")
PREFIXES = ("dataset", "utils", "trainer", "model", "export", "train", "test_play", "tools")


# ------------------------------------------------------------------ runtime support

def _scalar(x):
    if type(x) is SymArray and x.a.ndim == 0:
        return x._sym_scalar()
    if getattr(x, "_symtensor", False):
        return x.item()
    return x


def int_(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) is SymArray or getattr(x, "_symtensor", False):
            x = x._sym_scalar()
        t = type(x)
        if t is SymInt or t is V.SymZ:
            return x
        if t is SymBool:
            return x.as_int()
        if t is SymReal:
            return real_to_int(x, "trunc")
        if isinstance(x, Fraction):
            return int(x)
        return int(x)
    return int(*a)


def real_to_int(x, mode):
    if x.ratio is not None:
        n, d = x.ratio
        if mode == "floor":
            return n // d
        if mode == "ceil":
            return -((-n) // d)
        if mode == "trunc":
            q = n // d
            if _lo(n) >= 0 and _lo(d) > 0:
                return q
            return ite((n % d != 0) & (q < 0) if is_sym(q) or is_sym(n) else (n % d != 0 and q < 0), q + 1, q)
    e = x.e
    fl = z3.ToInt(e)
    if mode == "ceil":
        fl = -z3.ToInt(-e)
    elif mode == "trunc":
        fl = z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
    elif mode == "round":
        fl = z3.ToInt(round_half_even(x).e)
    return SymInt(z3.Int2BV(fl, 64), -(1 << 63), (1 << 63) - 1)


def _lo(x):
    return x if type(x) is int else x.lo


def float_(*a):
    if a:
        x = _scalar(a[0])
        if type(x) is SymReal:
            return x
        if type(x) in (SymInt, SymBool, V.SymZ):
            return SymReal(V.real_expr(x))
    return float(*a)


def bool_(*a):
    return bool(*a)


def type_(*a):
    if len(a) == 1:
        t = type(a[0])
        if t in (SymInt, SymBool, SymReal, SymBytes, SymStr, SymArray, V.SymZ):
            return a[0].__class__
    return type(*a)


def not_(x):
    if type(x) is SymArray and x.a.ndim == 0:
        x = x._sym_scalar()
    if type(x) is SymBool:
        return V.snot(x)
    return not x


def _minmax(args, kw, pick):
    key = kw.get("key")
    if len(args) == 1:
        items = list(args[0])
    else:
        items = list(args)
    if not any(contains_sym(i) for i in items) and not (key and any(contains_sym(key(i)) for i in items)):
        return None, items
    if not items:
        if "default" in kw:
            return ("v", kw["default"]), items
        raise ValueError("iterable argument is empty")
    best = items[0]
    if key is None and all(not isinstance(i, (tuple, list)) for i in items):
        best = _scalar(best)
        for it in items[1:]:
            it = _scalar(it)
            c = (it < best) if pick == "min" else (it > best)
            best = ite(c, it, best)
        return ("v", best), items
    kb = key(best) if key else best
    for it in items[1:]:
        k = key(it) if key else it
        c = (k < kb) if pick == "min" else (k > kb)
        if bool(c):
            best, kb = it, k
    return ("v", best), items


def min_(*args, **kw):
    r, items = _minmax(args, kw, "min")
    if r is not None:
        return r[1]
    if len(args) == 1:
        return min(items, **kw)
    return min(*args, **kw)


def max_(*args, **kw):
    r, items = _minmax(args, kw, "max")
    if r is not None:
        return r[1]
    if len(args) == 1:
        return max(items, **kw)
    return max(*args, **kw)


def sum_(it, start=0):
    r = start
    if type(it) is SymArray:
        for v in it:
            r = r + v
        return r
    items = list(it)
    if not contains_sym(items):
        return sum(items, start)
    for v in items:
        r = r + v
    return r


def abs_(x):
    return abs(x)


def round_(x, *a):
    x = _scalar(x)
    if type(x) is SymReal and not a:
        return real_to_int(x, "round")
    return round(x, *a)


def bytes_(*a, **k):
    if a and type(a[0]) is SymBytes:
        return a[0]
    if a and isinstance(a[0], list) and has_sym(a[0]):
        return SymBytes([V.to_int(v) for v in a[0]])
    if a and type(a[0]) is SymArray:
        return a[0].tobytes()
    return bytes(*a, **k)


def bytearray_(*a, **k):
    if a and type(a[0]) is SymBytes:
        raise Unsupported("bytearray of symbolic bytes")
    return bytearray(*a, **k)


def str_(*a, **k):
    if a and type(a[0]) in (SymStr,):
        return a[0]
    return str(*a, **k)


def memoryview_(x):
    if type(x) in (SymBytes, SymArray):
        return x
    return memoryview(x)


def sorted_(it, *a, **k):
    return sorted(it, *a, **k)


def join_(sep, items=None, *rest):
    if rest or items is None:
        return sep.join(items, *rest) if items is not None else sep.join()
    if isinstance(sep, (bytes, bytearray)):
        return bytes_join(sep, items)
    return sep.join(items)


def int_attr(obj, name, args, kw):
    if name == "from_bytes":
        return int_from_bytes(*args, **kw)
    return getattr(obj, name)(*args, **kw)


def npcall(mod, name, args, kw):
    f = getattr(mod, name)
    if isinstance(f, type) and issubclass(f, _np.generic) and not kw:
        return call_scalar_type(f, *args)
    return f(*args, **kw)


def getitem_(obj, i):
    if type(obj) is _np.ndarray and (type(i) is SymArray or type(i) is tuple and any(type(x) is SymArray for x in i)):
        from .symnp import from_np
        return from_np(obj)[i]
    return obj[i]


class MathShim:
    def floor(self, x):
        x = _scalar(x)
        if type(x) is SymReal:
            return real_to_int(x, "floor")
        return x if type(x) in (SymInt, V.SymZ) else _math.floor(x)

    def ceil(self, x):
        x = _scalar(x)
        if type(x) is SymReal:
            return real_to_int(x, "ceil")
        return x if type(x) in (SymInt, V.SymZ) else _math.ceil(x)

    def trunc(self, x):
        return int_(x)

    def isfinite(self, x):
        return True if is_sym(x) else _math.isfinite(x)

    def isnan(self, x):
        return False if is_sym(x) else _math.isnan(x)

    def isinf(self, x):
        return False if is_sym(x) else _math.isinf(x)

    def prod(self, it, start=1):
        r = start
        for v in it:
            r = r * v
        return r

    def gcd(self, *a):
        if not any(is_sym(x) for x in a):
            return _math.gcd(*a)

        def g(x, y):
            x, y = abs(x), abs(y)
            while bool(y != 0):
                x, y = y, x % y
            return x
        r = a[0]
        for v in a[1:]:
            r = g(r, v)
        return r

    def lcm(self, *a):
        if not any(is_sym(x) for x in a):
            return _math.lcm(*a)
        r = a[0]
        for v in a[1:]:
            r = abs(r * v) // self.gcd(r, v)
        return r

    def isqrt(self, x):
        return _math.isqrt(int(x))

    def sqrt(self, x):
        if is_sym(x):
            from .symnp import real_uf
            return real_uf("sqrt", x)
        return _math.sqrt(x)

    def __getattr__(self, n):
        f = getattr(_math, n)
        if callable(f):
            def g(*a):
                if any(is_sym(x) for x in a):
                    from .symnp import real_uf
                    if n in ("exp", "log", "tanh", "cos", "sin", "log2", "log10", "expm1", "log1p"):
                        return real_uf(n, *a)
                    raise Unsupported(f"math.{n}")
                return f(*a)
            return g
        return f


class OperatorShim:
    def index(self, x):
        if type(x) is SymInt:
            return x
        if type(x) is SymArray and x.a.ndim == 0 and x.dtype.kind in "iu":
            return x._sym_scalar()
        return _operator.index(x)

    def __getattr__(self, n):
        return getattr(_operator, n)


MATH = MathShim()
OPERATOR = OperatorShim()

SX = types.SimpleNamespace(
    int_=int_, float_=float_, type_=type_, not_=not_, min_=min_, max_=max_, sum_=sum_, abs_=abs_, round_=round_,
    bytes_=bytes_, bytearray_=bytearray_, str_=str_, memoryview_=memoryview_, join_=join_, int_attr=int_attr,
    npcall=npcall, getitem_=getitem_, NP=NP, STRUCT=STRUCT, HASHLIB=HASHLIB, MATH=MATH, OPERATOR=OPERATOR,
    CTYPES=CTYPES, IO=IO)

_BUILTINS = {"int", "float", "type", "min", "max", "sum", "abs", "round", "bytes", "bytearray", "memoryview"}
_MODULES = {"numpy": "NP", "struct": "STRUCT", "hashlib": "HASHLIB", "math": "MATH", "operator": "OPERATOR", "ctypes": "CTYPES", "io": "IO"}


class Rewriter(ast.NodeTransformer):
    def __init__(self, tree):
        self.np_names = set()
        self.shadow = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name == "numpy":
                        self.np_names.add(a.asname or "numpy")
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                if n.name in _BUILTINS and not self._is_method(n, tree):
                    self.shadow.add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in _BUILTINS:
                self.shadow.add(n.id)
            elif isinstance(n, ast.arg) and n.arg in _BUILTINS:
                self.shadow.add(n.arg)

    @staticmethod
    def _is_method(n, tree):
        return False

    def _sx(self, name, node):
        return ast.copy_location(
            ast.Attribute(ast.copy_location(ast.Name("__sx__", ast.Load()), node), name, ast.Load()), node)

    def visit_Import(self, node):
        keep, out = [], []
        for a in node.names:
            if a.name in _MODULES:
                out.append(ast.copy_location(ast.Assign(
                    [ast.copy_location(ast.Name(a.asname or a.name, ast.Store()), node)],
                    self._sx(_MODULES[a.name], node)), node))
            else:
                keep.append(a)
        if keep:
            out.insert(0, ast.copy_location(ast.Import(keep), node))
        return out

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in _MODULES and node.module != "numpy":
            out = []
            for a in node.names:
                out.append(ast.copy_location(ast.Assign(
                    [ast.copy_location(ast.Name(a.asname or a.name, ast.Store()), node)],
                    ast.copy_location(ast.Attribute(self._sx(_MODULES[node.module], node), a.name, ast.Load()), node)), node))
            return out
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in _BUILTINS and f.id not in self.shadow:
            if f.id == "type" and len(node.args) != 1:
                return node
            node.func = self._sx(f.id + "_", f)
            return node
        if isinstance(f, ast.Attribute):
            plain = not any(isinstance(a, ast.Starred) for a in node.args) and not any(k.arg is None for k in node.keywords)
            if f.attr == "join" and len(node.args) == 1 and not node.keywords:
                return ast.copy_location(ast.Call(self._sx("join_", f), [f.value] + node.args, []), node)
            if f.attr == "from_bytes" and isinstance(f.value, ast.Name) and f.value.id == "int" and plain:
                kw = ast.copy_location(ast.Dict([ast.copy_location(ast.Constant(k.arg), node) for k in node.keywords],
                                                [k.value for k in node.keywords]), node)
                return ast.copy_location(ast.Call(self._sx("int_attr", f), [
                    f.value, ast.copy_location(ast.Constant("from_bytes"), node),
                    ast.copy_location(ast.Tuple(node.args, ast.Load()), node), kw], []), node)
            if isinstance(f.value, ast.Name) and f.value.id in self.np_names and plain:
                kw = ast.copy_location(ast.Dict([ast.copy_location(ast.Constant(k.arg), node) for k in node.keywords],
                                                [k.value for k in node.keywords]), node)
                return ast.copy_location(ast.Call(self._sx("npcall", f), [
                    f.value, ast.copy_location(ast.Constant(f.attr), node),
                    ast.copy_location(ast.Tuple(node.args, ast.Load()), node), kw], []), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        i = node.slice
        if isinstance(node.ctx, ast.Load) and (isinstance(i, (ast.Name, ast.Attribute, ast.Call, ast.BinOp, ast.Compare, ast.UnaryOp, ast.Subscript))
                                               or isinstance(i, ast.Tuple) and not any(isinstance(e, (ast.Slice, ast.Starred)) for e in i.elts)):
            return ast.copy_location(ast.Call(self._sx("getitem_", node), [node.value, i], []), node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(ast.Call(self._sx("not_", node), [node.operand], []), node)
        return node


class SymLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = ast.parse(src, path)
        tree = Rewriter(tree).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__sx__"] = SX
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, prefixes, exclude=()):
        self.prefixes = tuple(prefixes)
        self.exclude = tuple(exclude)

    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in self.prefixes or any(fullname == e or fullname.startswith(e + ".") for e in self.exclude):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path if path is not None else [REPO])
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = SymLoader(spec.loader.name, spec.loader.path)
        return spec


_installed = None


def install(symbolic=True, prefixes=PREFIXES, exclude=()):
    """Make `import dataset...` load from REPO, instrumented when symbolic."""
    global _installed
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if symbolic:
        if _installed is None:
            _installed = Finder(prefixes, exclude)
            sys.meta_path.insert(0, _installed)
