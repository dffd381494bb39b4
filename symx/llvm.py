"""Symbolic execution of the repository's C++ extensions.

The current sources are compiled (clang -O1 -emit-llvm) against a stand-in pybind11 header that registers
every bound function under its Python name; the resulting LLVM IR is interpreted here over byte-accurate memory in
which integers may be bit-vector terms.  Branches on symbolic conditions fork through the engine; reads at a symbolic
index become a selection over the table.  Every access is checked against the bounds and lifetime of its object, and a
failing assert() is a violation.  ``CppModule`` offers the bound functions to Python code under test, so the whole
pipeline (Python wrapper + extension) runs on symbolic boards.
"""
import hashlib
import importlib.util
import os
import re
import subprocess
import sys
import sysconfig

import numpy as np
import z3

from .engine import Unsupported, ctx
from .values import SymInt, SymBool, as_z3bool, to_int, _rep, mk
from .symnp import SymArray, _objarr, as_sym

REPO = os.environ.get("SYMX_REPO", "/repo")
STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cppstub")
SOURCES = {
    "line_encoding_cpp": ["dataset/pipeline/line_encoding_cpp/line_encoding.cpp"],
    "forbidden_point_cpp": ["dataset/pipeline/forbidden_point_cpp/forbidden_point.cpp", "dataset/pipeline/forbidden_point_cpp/board.cpp"],
    "dataset_planner_cpp": ["dataset/planner_cpp/packed_shuffle.cpp"],
}


def sources(name):
    """The extension's translation units as setup.py lists them (all .cpp files of its directory)."""
    d = os.path.dirname(SOURCES[name][0])
    return sorted(os.path.join(REPO, d, f) for f in os.listdir(os.path.join(REPO, d)) if f.endswith(".cpp"))


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ("k", "n", "el", "size", "align", "offs", "key")

    def __init__(self, k, n=0, el=None):
        self.k, self.n, self.el = k, n, el
        self.offs = None
        if k == "i":
            self.size = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
            self.align = self.size
        elif k == "p":
            self.size = self.align = 8
        elif k == "f":
            self.size = self.align = n // 8
        elif k == "a":
            self.size, self.align = el.size * n, el.align
        elif k == "s":
            off, al, self.offs = 0, 1, []
            for t in el:
                a = 1 if n else t.align
                off = (off + a - 1) // a * a
                self.offs.append(off)
                off += t.size
                al = max(al, a)
            self.size, self.align = (off + al - 1) // al * al, al
        else:
            self.size, self.align = 0, 1


PTR, VOID = Ty("p"), Ty("v")
_I = {}


def I(n):
    if n not in _I:
        _I[n] = Ty("i", n)
    return _I[n]


TOK = re.compile(r'''\s*(?:(c"(?:[^"])*")|([%@]"[^"]*"|[%@][-\w.$]+)|(![\w.]*|\#\d+)|(-?\d+\.\d+e[+-]\d+|0x[0-9A-F]+|-?\d+)|([A-Za-z_][\w.]*:?)|(\.\.\.)|("[^"]*")|(.))''')
ATTR = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "signext", "zeroext", "inreg", "returned", "nest", "immarg",
        "dead_on_unwind", "writable", "tail", "musttail", "notail", "dso_local", "local_unnamed_addr", "unnamed_addr", "internal", "private", "external",
        "linkonce_odr", "weak_odr", "hidden", "fastcc", "ccc", "coldcc", "nofree", "swiftself", "nuw", "nsw", "exact", "disjoint", "inbounds", "volatile", "nneg",
        "samesign", "constant", "global", "range", "noinline", "weak", "linkonce", "protected", "default", "thread_local", "initializes", "captures"}
PATTR = {"dereferenceable", "dereferenceable_or_null", "align", "sret", "byval", "memory", "allocsize", "elementtype", "range", "preallocated", "inalloca", "captures"}


def toks(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            break
        t = m.group(m.lastindex)
        i = m.end()
        if t is not None and t.strip():
            out.append(t)
    return out


class P:
    """Pointer: object + offset (int, or (const, [(scale, bv64), ...]))."""
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o, self.off = o, off


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Obj:
    __slots__ = ("name", "size", "data", "cow", "freed", "const", "kind")

    def __init__(self, name, size, data=None, kind="mem"):
        self.name, self.size = name, size
        self.data = [None] * size if data is None else data
        self.cow, self.freed, self.const, self.kind = False, False, False, kind


class CppError(Exception):
    """A C++ exception thrown by the code under test."""

    def __init__(self, kind, message):
        super().__init__(message)
        self.kind = kind


class Parser:
    def __init__(self, ns, mod):
        self.ns, self.mod = ns, mod
        self.types = {}

    # -- types
    def ty(self, t):
        x = t.pop(0)
        if x[0] == "i" and x[1:].isdigit():
            r = I(int(x[1:]))
        elif x == "ptr":
            r = PTR
        elif x == "void":
            r = VOID
        elif x == "double":
            r = Ty("f", 64)
        elif x == "float":
            r = Ty("f", 32)
        elif x in ("metadata", "label", "token"):
            r = Ty("m")
        elif x == "x86_fp80":
            r = Ty("f", 128)
        elif x == "[":
            n = int(t.pop(0)); assert t.pop(0) == "x"
            el = self.ty(t); assert t.pop(0) == "]"
            r = Ty("a", n, el)
        elif x == "{":
            els = []
            while t[0] != "}":
                els.append(self.ty(t))
                if t[0] == ",":
                    t.pop(0)
            t.pop(0)
            r = Ty("s", 0, els)
        elif x == "<":
            if t[0] == "{":
                r = self.ty(t)
                r = Ty("s", 1, r.el)
                assert t.pop(0) == ">"
            else:
                raise Unsupported("vector type in IR")
        elif x[0] == "%":
            r = self.types.get(x)
            if r is None:
                d = self.typedefs.get(x)
                if d is None or d.strip() == "opaque":
                    r = Ty("o")
                else:
                    r = self.ty(toks(d))
                self.types[x] = r
        else:
            raise Unsupported(f"IR type {x} {t[:5]}")
        if t and t[0] == "(" and r.k != "m":       # function type
            depth = 0
            while True:
                y = t.pop(0)
                depth += (y == "(") - (y == ")")
                if depth == 0:
                    break
        return r

    def attrs(self, t):
        out = {}
        while t and (t[0] in ATTR or t[0] in PATTR or t[0].startswith('"') or t[0].startswith("#")):
            a = t.pop(0)
            if a == "align" and t and t[0].lstrip("-").isdigit():
                t.pop(0)
            elif t and t[0] == "(" and a in PATTR:
                depth, inner = 0, []
                while True:
                    y = t.pop(0)
                    depth += (y == "(") - (y == ")")
                    if depth == 0:
                        break
                    inner.append(y)
                out[a] = inner[1:]
            else:
                out[a] = True
        return out

    # -- values: returns a function(frame)->value or ("const", v)
    def val(self, t, ty):
        x = t.pop(0)
        if x[0] == "%":
            return ("r", x)
        if x[0] == "@":
            return ("k", self.mod.gptr(self.ns, x))
        if x.lstrip("-").isdigit():
            v = int(x)
            return ("k", v & ((1 << ty.n) - 1) if ty.k == "i" else v)
        if x == "true":
            return ("k", 1)
        if x in ("false", "null", "none"):
            return ("k", 0)
        if x in ("undef", "poison"):
            return ("k", self.zero(ty) if ty.k in "sa" else UNDEF)
        if x == "zeroinitializer":
            return ("k", self.zero(ty))
        if x == "getelementptr":
            while t[0] in ATTR or t[0] in PATTR:
                self.attrs(t)
            assert t.pop(0) == "("
            bt = self.ty(t); assert t.pop(0) == ","
            self.ty(t)
            base = self.val(t, PTR)
            idx = []
            while t[0] == ",":
                t.pop(0)
                self.attrs(t)
                it = self.ty(t)
                idx.append((it, self.val(t, it)))
            assert t.pop(0) == ")"
            return ("k", self.gep_const(bt, base[1], [(it, v[1]) for it, v in idx]))
        if x in ("ptrtoint", "inttoptr", "bitcast"):
            assert t.pop(0) == "("
            st = self.ty(t)
            v = self.val(t, st)
            assert t.pop(0) == "to"
            self.ty(t); assert t.pop(0) == ")"
            return v
        if x[0:2] == 'c"':
            s, out, i = x[2:-1], [], 0
            while i < len(s):
                if s[i] == "\\":
                    out.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    out.append(ord(s[i])); i += 1
            return ("k", ("agg", out))
        if x in "[{<":
            if x == "<":
                t.pop(0)
            close = {"[": "]", "{": "}", "<": "}"}[x]
            els = []
            while t[0] != close:
                et = self.ty(t)
                els.append(self.val(t, et)[1])
                if t[0] == ",":
                    t.pop(0)
            t.pop(0)
            if x == "<":
                t.pop(0)
            return ("k", ("agg", els))
        raise Unsupported(f"IR constant {x} {t[:6]}")

    def zero(self, ty):
        if ty.k in ("i", "p"):
            return 0
        if ty.k == "a":
            return ("agg", [self.zero(ty.el)] * ty.n)
        if ty.k == "s":
            return ("agg", [self.zero(e) for e in ty.el])
        return 0

    def gep_const(self, bt, base, idx):
        off = 0
        for k, (it, v) in enumerate(idx):
            if v >= 1 << (it.n - 1):
                v -= 1 << it.n
            if k == 0:
                off += v * bt.size
            elif bt.k == "a":
                bt = bt.el; off += v * bt.size
            else:
                off += bt.offs[v]; bt = bt.el[v]
        return P(base.o, base.off + off)


class Fn:
    pass


class Module:
    """All translation units of one extension, linked."""

    def __init__(self, texts):
        self.globals = {}       # resolved name -> object id
        self.objs = {}          # id -> Obj
        self.fns = {}           # resolved name -> Fn
        self.alias = {}
        self.nid = 1
        self.lines = {}
        self.local = {}         # (ns, name) -> resolved
        inits = []
        self.ctors = []
        for ns, text in enumerate(texts):
            p = Parser(ns, self)
            p.typedefs = {}
            i, lines = 0, text.split("\n")
            while i < len(lines):
                l = lines[i]
                if l.startswith("%") and " = type " in l:
                    n, d = l.split(" = type ", 1)
                    p.typedefs[n.strip()] = d
                elif l.startswith("@"):
                    n, d = l.split(" = ", 1)
                    internal = " private " in " " + d or d.startswith("internal ") or d.startswith("private ")
                    rn = f"{n}#{ns}" if internal else n
                    self.local[(ns, n)] = rn
                    inits.append((p, n, rn, d))
                elif l.startswith("define"):
                    m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', l)
                    n = m.group(1)
                    rn = f"{n}#{ns}" if l.startswith("define internal") else n
                    self.local[(ns, n)] = rn
                    body = []
                    j = i + 1
                    while lines[j] != "}":
                        body.append(lines[j]); j += 1
                    if rn not in self.fns:
                        f = Fn()
                        f.name, f.head, f.body, f.p, f.ready = rn, l, body, p, False
                        self.fns[rn] = f
                    i = j
                i += 1
        pend = []
        for p, n, rn, d in inits:
            t = toks(d)
            while t and (t[0] in ATTR and t[0] not in ("constant", "global")) or t[0] in ("alias", "comdat", "thread_local", "appending"):
                if t[0] == "alias":
                    break
                t.pop(0)
                if t and t[0] == "(":
                    while t.pop(0) != ")":
                        pass
            if t[0] == "alias":
                t.pop(0)
                p.ty(t)
                while t[0] == "," or t[0] == "ptr":
                    t.pop(0)
                self.alias[rn] = self.local.get((p.ns, t[0]), t[0])
                continue
            const = t.pop(0) == "constant"
            ty = p.ty(t)
            if rn in self.globals and self.objs[self.globals[rn]].kind != "ext":
                continue
            if t and t[0] not in (",",) and "external" not in d.split("=")[0].split(" constant ")[0].split(" global ")[0]:
                o = Obj(rn, ty.size)
                o.const = const
                k = self.add(o)
                self.globals[rn] = k
                pend.append((p, o, ty, t, rn))
            else:
                k = self.add(Obj(rn, ty.size, kind="ext"))
                self.globals.setdefault(rn, k)
        for p, o, ty, t, rn in pend:
            v = p.val(t, ty)[1]
            o.data = self.flat(v, ty)
            if rn.startswith("@llvm.global_ctors"):
                self.ctors = [e[1][1] for e in v[1]]

    def add(self, o):
        k = self.nid
        self.nid += 1
        self.objs[k] = o
        return k

    def gptr(self, ns, n):
        rn = self.local.get((ns, n), n)
        rn = self.alias.get(rn, rn)
        if rn not in self.globals:
            self.globals[rn] = self.add(Obj(rn, 0, kind="fn" if rn in self.fns else "ext"))
        return P(self.globals[rn], 0)

    def flat(self, v, ty):
        if ty.k == "a":
            if v == 0:
                return [0] * ty.size
            out = []
            for e in v[1]:
                out += self.flat(e, ty.el)
            return out
        if ty.k == "s":
            out = [0] * ty.size
            if v == 0:
                return out
            for e, t, o in zip(v[1], ty.el, ty.offs):
                out[o:o + t.size] = self.flat(e, t)
            return out
        if v is UNDEF:
            return [0] * ty.size
        if isinstance(v, P):
            return [(v, i, 8) for i in range(8)]
        return list(int(v).to_bytes(ty.size, "little"))


def _mask(n):
    return (1 << n) - 1


def bv(v, n):
    if type(v) is int:
        return z3.BitVecVal(v, n)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


class Machine:
    """One path's memory over a linked module."""

    def __init__(self, mod, objs=None, nid=None):
        self.mod = mod
        self.objs = mod.objs if objs is None else objs
        self.nid = mod.nid if nid is None else nid
        self.steps = 0
        self.depth = 0
        self.max_steps = 80_000_000

    def fork(self):
        objs = {}
        for k, o in self.objs.items():
            n = Obj(o.name, o.size, o.data, o.kind)
            n.cow, n.freed, n.const = True, o.freed, o.const
            o.cow = True
            objs[k] = n
        return Machine(self.mod, objs, max(self.nid, self.mod.nid))

    # -- memory
    def alloc(self, size, name, data=None):
        if type(size) is not int:
            raise Unsupported("allocation of symbolic size")
        if size > 1 << 26:
            raise Unsupported("allocation too large")
        k = self.nid = max(self.nid, self.mod.nid) + 1
        self.mod.nid = self.nid
        self.objs[k] = Obj(name, size, data)
        return P(k, 0)

    def obj(self, p, n, what):
        if not isinstance(p, P):
            if p == 0:
                self.bad(f"{what} through a null pointer")
            raise Unsupported(f"{what} through {p!r}")
        o = self.objs.get(p.o)
        if o is None:
            o = self.mod.objs[p.o]
            self.objs[p.o] = o
        if o.freed:
            self.bad(f"{what} of freed memory ({o.name})")
        return o

    def bad(self, msg):
        c = ctx()
        c.check(False, f"C++ extension: {msg}")
        raise Unsupported(msg)

    def load(self, p, n):
        o = self.obj(p, n, "read")
        off = p.off
        if type(off) is not int:
            return self.load_sym(o, p, n)
        if off < 0 or off + n > o.size:
            self.bad(f"read of {n} bytes at offset {off} outside {o.name} ({o.size} bytes)")
        d = o.data
        b = d[off]
        if n == 1:
            if type(b) is int:
                return b
            if b is None:
                return UNDEF
        if type(b) is tuple and b[1] == 0 and b[2] == n:
            v = b[0]
            for i in range(1, n):
                x = d[off + i]
                if type(x) is not tuple or x[0] is not v or x[1] != i:
                    break
            else:
                return v
        r = 0
        for i in range(n):
            x = d[off + i]
            if type(x) is not int:
                break
            r |= x << (8 * i)
        else:
            return r
        parts = []
        for i in range(n):
            x = d[off + i]
            if x is None:
                return UNDEF
            if type(x) is int:
                parts.append(z3.BitVecVal(x, 8))
            else:
                v, k, m = x
                if isinstance(v, (P, Undef)):
                    if isinstance(v, Undef):
                        return UNDEF
                    raise Unsupported("partial read of a pointer")
                parts.append(z3.Extract(8 * k + 7, 8 * k, v))
        return simp(z3.Concat(*parts[::-1]))

    def load_sym(self, o, p, n):
        const, terms = p.off
        if len(terms) != 1:
            return self.load(self.pin(p), n)
        scale, e = terms[0]
        e = z3.simplify(e)
        w = e.size()
        bits = []
        for i in range(w):
            b = z3.simplify(z3.Extract(i, i, e))
            bits.append(b.as_long() if z3.is_bv_value(b) else b)
        unknown = [i for i in range(w) if type(bits[i]) is not int]
        if len(unknown) > 14:
            return self.load(self.pin(p), n)
        base = sum(bits[i] << i for i in range(w) if type(bits[i]) is int)
        base = sgn(base, w) if w - 1 not in unknown else base
        if w - 1 in unknown:
            return self.load(self.pin(p), n)
        oob = []

        def build(k, v):
            if k < 0:
                off = const + scale * v
                if off < 0 or off + n > o.size:
                    oob.append(v)
                    return 0
                return self.load(P(p.o, off), n)
            i = unknown[k]
            a, b = build(k - 1, v), build(k - 1, v | (1 << i))
            if type(a) is int and type(b) is int and a == b:
                return a
            if a is UNDEF or b is UNDEF or isinstance(a, P) or isinstance(b, P):
                raise Unsupported("symbolic read of pointers/uninitialised bytes")
            return z3.If(bits[i] == 1, bv(b, 8 * n), bv(a, 8 * n))
        r = build(len(unknown) - 1, base)
        if oob:
            ctx().check(SymBool(z3.And(*[e != z3.BitVecVal(v, w) for v in oob])) if len(oob) < 64 else
                        SymBool(z3.And(z3.BitVecVal(const, w) + e * scale >= 0, z3.BitVecVal(const, w) + e * scale <= o.size - n)),
                        f"C++ extension: read outside {o.name}")
        return r

    def pin(self, p):
        """Fork over the concrete values of a symbolic offset."""
        const, terms = p.off
        for scale, e in terms:
            w = e.size()
            const += scale * sgn(int(ctx().concretize(SymInt(e, 0, _mask(w)))), w)
        return P(p.o, const)

    def store(self, p, v, n):
        o = self.obj(p, n, "write")
        if type(p.off) is not int:
            p = self.pin(p)
        off = p.off
        if off < 0 or off + n > o.size:
            self.bad(f"write of {n} bytes at offset {off} outside {o.name} ({o.size} bytes)")
        if o.const:
            self.bad(f"write to constant {o.name}")
        if o.cow:
            o.data = list(o.data)
            o.cow = False
        d = o.data
        if type(v) is int:
            if n == 1:
                d[off] = v & 255
            else:
                d[off:off + n] = v.to_bytes(n, "little")
        elif v is UNDEF:
            d[off:off + n] = [None] * n
        else:
            if not isinstance(v, P):
                v = bv(v, 8 * n)
                if v.size() != 8 * n:
                    v = z3.ZeroExt(8 * n - v.size(), v)
            d[off:off + n] = [(v, i, n) for i in range(n)]

    def memcpy(self, d, s, n):
        if type(n) is not int:
            raise Unsupported("memcpy of symbolic length")
        if n == 0:
            return
        if type(s.off) is not int:
            s = self.pin(s)
        if type(d.off) is not int:
            d = self.pin(d)
        so, do = self.obj(s, n, "read"), self.obj(d, n, "write")
        if s.off < 0 or s.off + n > so.size or d.off < 0 or d.off + n > do.size:
            self.bad(f"copy of {n} bytes outside {so.name}/{do.name}")
        if do.cow:
            do.data = list(do.data)
            do.cow = False
        do.data[d.off:d.off + n] = so.data[s.off:s.off + n]

    def cstr(self, p):
        out = []
        o = self.obj(p, 1, "read")
        i = p.off
        while o.data[i] != 0:
            out.append(o.data[i]); i += 1
        return bytes(out).decode(errors="replace")

    # -- functions
    def call(self, rn, args):
        f = self.mod.fns.get(rn)
        if f is None:
            return self.extern(rn, args)
        if not f.ready:
            compile_fn(self.mod, f)
        self.depth += 1
        if self.depth > 400:
            raise Unsupported("C++ recursion too deep")
        regs = [None] * f.nregs
        regs[:len(args)] = args
        blk, prev = f.entry, None
        allocas = []
        regs_alloc = allocas
        try:
            while True:
                if blk.phis:
                    vs = [(d, srcs[prev](regs)) for d, srcs in blk.phis]
                    for d, v in vs:
                        regs[d] = v
                self.steps += len(blk.code) + 1
                if self.steps > self.max_steps:
                    raise Unsupported("C++ step budget exceeded")
                for ins in blk.code:
                    ins(self, regs, allocas)
                r = blk.term(self, regs, allocas)
                if type(r) is tuple:
                    return r[0]
                prev, blk = blk.name, r
        finally:
            self.depth -= 1
            for k in allocas:
                self.objs[k].freed = True

    def branch(self, v):
        if type(v) is int:
            return v & 1
        if v is UNDEF:
            self.bad("branch on an uninitialised value")
        return ctx().branch(v if z3.is_bool(v) else v == 1)

    def extern(self, rn, a):
        n = rn[1:]
        if n.startswith("llvm."):
            raise Unsupported(f"intrinsic {n}")
        if n in ("_Znwm", "_Znam", "malloc"):
            return self.alloc(a[0], "heap")
        if n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "free"):
            if isinstance(a[0], P):
                o = self.objs[a[0].o]
                if o.freed:
                    self.bad("double free")
                o.freed = True
            return None
        if n in ("__cxa_allocate_exception",):
            return self.alloc(max(a[0], 8) + 8, "exception")
        if n in ("__cxa_free_exception", "__cxa_end_catch", "_ZNSt13exception_ptrD1Ev"):
            return None
        if n.startswith("_ZNSt") and ("C1E" in n or "C2E" in n) and ("error" in n or "argument" in n or "out_of_range" in n or "exception" in n):
            msg = ""
            if len(a) > 1:
                if "PKc" in n:
                    msg = self.cstr(a[1])
                else:
                    s = self.load(a[1], 8)
                    ln = self.load(P(a[1].o, a[1].off + 8), 8)
                    msg = bytes(self.load(P(s.o, s.off + i), 1) for i in range(ln)).decode()
            self.objs[a[0].o].name = msg
            return None
        if n == "__cxa_throw":
            t = self.objs[a[1].o].name if a[1].o in self.objs else self.mod.objs[a[1].o].name
            raise CppError(re.sub(r".*\d", "", t), self.objs[a[0].o].name)
        if n.startswith("_ZSt") and "__throw_" in n:
            m = re.search(r"__throw_(\w+?)(?:PKc|v|i)", n)
            raise CppError(m.group(1) if m else n, n)
        if n == "__assert_fail":
            self.bad(f"assertion {self.cstr(a[0])} fails")
        if n in ("pthread_mutex_lock", "pthread_mutex_unlock", "__cxa_atexit", "pthread_mutex_init", "__cxa_guard_acquire", "__cxa_guard_release"):
            return 1 if n == "__cxa_guard_acquire" else 0
        if n == "strlen":
            return len(self.cstr(a[0]).encode())
        if n in ("memcmp", "bcmp"):
            for i in range(a[2]):
                x, y = (self.load(P(q.o, q.off + i), 1) for q in a[:2])
                if type(x) is not int or type(y) is not int:
                    if self.branch(bv(x, 8) != bv(y, 8)):
                        return 1
                elif x != y:
                    return 1 if x > y else _mask(32)
            return 0
        if n in ("memcpy", "memmove"):
            self.memcpy(a[0], a[1], a[2])
            return a[0]
        if "basic_string" in n:
            return self.string(n, a)
        if "list_node_base" in n or n == "_ZSt9terminatev":
            raise Unsupported(n)
        raise Unsupported(f"call of external {n}")

    def string(self, n, a):
        this = a[0]
        ptr, ln = self.load(this, 8), self.load(P(this.o, this.off + 8), 8)

        def content():
            return [self.load(P(ptr.o, ptr.off + i), 1) for i in range(ln)]

        def put(s):
            q = self.alloc(len(s) + 1, "string", list(s) + [0])
            self.store(this, q, 8)
            self.store(P(this.o, this.off + 8), len(s), 8)
            self.store(P(this.o, this.off + 16), len(s), 8)
        if "_M_append" in n:
            put(content() + [self.load(P(a[1].o, a[1].off + i), 1) for i in range(a[2])])
            return this
        if "_M_replace" in n and "_M_replace_aux" not in n:
            s = content()
            put(s[:a[1]] + [self.load(P(a[3].o, a[3].off + i), 1) for i in range(a[4])] + s[a[1] + a[2]:])
            return this
        if "_M_replace_aux" in n:
            s = content()
            put(s[:a[1]] + [a[4]] * a[3] + s[a[1] + a[2]:])
            return this
        if "_M_constructEmc" in n:
            put([a[2]] * a[1])
            return None
        if "_M_create" in n:
            return self.alloc(self.load(a[1], 8) + 1, "string")
        if "_M_dispose" in n:
            return None
        raise Unsupported(n)


# ------------------------------------------------------------------ compile IR functions to closures
class Block:
    __slots__ = ("name", "phis", "code", "term")


def compile_fn(mod, f):
    p = f.p
    regs = {}

    def reg(n):
        if n not in regs:
            regs[n] = len(regs)
        return regs[n]
    # parameters
    m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', f.head)
    t = toks(f.head[m.end():])
    auto = 0
    f.byval = {}
    k = 0
    while t[0] != ")":
        if t[0] == "...":
            t.pop(0)
            continue
        ty = p.ty(t)
        at = p.attrs(t)
        if t[0][0] == "%":
            n = t.pop(0)
        else:
            n = f"%{auto}"
        if re.fullmatch(r"%\d+", n):
            auto = int(n[1:]) + 1
        reg(n)
        k += 1
        if t[0] == ",":
            t.pop(0)
    # blocks
    blocks, cur = {}, None
    joined, i = [], 0
    body = f.body
    while i < len(body):
        l = body[i].split(", !")[0] if ", !" in body[i] else body[i]
        l = re.sub(r"\s*;.*$", "", l) if '"' not in l else l
        if re.match(r"\s+(%\S+ = )?(invoke|switch|landingpad)\b", l) or " landingpad " in l or re.search(r"= (tail )?invoke ", l):
            j = i
            if "switch" in l:
                while "]" not in body[j]:
                    j += 1
                    l += " " + body[j]
            elif "landingpad" in l:
                while j + 1 < len(body) and re.match(r"\s+(cleanup|catch|filter)", body[j + 1]):
                    j += 1
            else:
                j += 1
                l += " " + body[j]
            i = j
        joined.append(l)
        i += 1
    entry = None
    for l in joined:
        if not l.strip():
            continue
        mm = re.match(r'^("[^"]*"|[-\w.$]+):', l)
        if mm:
            cur = Block()
            cur.name, cur.phis, cur.code, cur.term = "%" + mm.group(1), [], [], None
            blocks[cur.name] = cur
            cur_src = []
            continue
        if cur is None:
            cur = Block()
            cur.name, cur.phis, cur.code, cur.term = f"%{auto}", [], [], None
            blocks[cur.name] = cur
            entry = cur
        instr(mod, p, f, l.strip(), cur, blocks, reg)
    f.entry = entry or next(iter(blocks.values()))
    f.nregs = len(regs) + 1
    f.ready = True


def getter(v, reg):
    if v[0] == "k":
        k = v[1]
        return lambda r: k
    i = reg(v[1])
    return lambda r: r[i]


CMPC = {"eq": lambda a, b, n: a == b, "ne": lambda a, b, n: a != b, "ugt": lambda a, b, n: a > b, "uge": lambda a, b, n: a >= b, "ult": lambda a, b, n: a < b,
        "ule": lambda a, b, n: a <= b, "sgt": lambda a, b, n: sgn(a, n) > sgn(b, n), "sge": lambda a, b, n: sgn(a, n) >= sgn(b, n),
        "slt": lambda a, b, n: sgn(a, n) < sgn(b, n), "sle": lambda a, b, n: sgn(a, n) <= sgn(b, n)}
CMPS = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "ugt": z3.UGT, "uge": z3.UGE, "ult": z3.ULT, "ule": z3.ULE,
        "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b}


def icmp(M, op, a, b, n):
    if type(a) is int and type(b) is int:
        return int(CMPC[op](a, b, n))
    if isinstance(a, P) or isinstance(b, P):
        if isinstance(a, P) and isinstance(b, P):
            if a.o == b.o:
                if type(a.off) is int and type(b.off) is int:
                    return int(CMPC[op](a.off & _mask(64), b.off & _mask(64), 64))
                a, b = M.pin(a) if type(a.off) is not int else a, M.pin(b) if type(b.off) is not int else b
                return int(CMPC[op](a.off & _mask(64), b.off & _mask(64), 64))
            if op in ("eq", "ne"):
                return int(op == "ne")
            return int(CMPC[op](a.o, b.o, 64))
        if 0 in (a if type(a) is int else None, b if type(b) is int else None):
            if op in ("eq", "ne"):
                return int(op == "ne")
            return int(CMPC[op](1 if isinstance(a, P) else 0, 1 if isinstance(b, P) else 0, 64))
        raise Unsupported("comparison of a pointer and an integer")
    if a is UNDEF or b is UNDEF:
        M.bad("comparison of an uninitialised value")
    if n == 1:
        a, b = (x if type(x) is not int else z3.BoolVal(bool(x)) for x in (a, b))
        if op == "eq":
            return simp(a == b)
        if op == "ne":
            return simp(z3.Xor(a, b))
        raise Unsupported("ordering of booleans")
    return simp(CMPS[op](bv(a, n), bv(b, n)))


def mul_uf(k, x):
    """Multiplication by a large 64-bit constant as an unknown function (the mixing steps of a generator): sound for showing two computations equal."""
    if type(x) is int:
        return x * k & _mask(64)
    return z3.Function(f"mul_{k:x}", z3.BitVecSort(64), z3.BitVecSort(64))(x)


def urem_uf(k, x):
    """Remainder by a small constant that is no power of two, as an unknown function with values below k."""
    if type(x) is int:
        return x % k
    if k & (k - 1) == 0:
        return simp(z3.URem(x, z3.BitVecVal(k, 64)))
    w = (k - 1).bit_length()
    u = z3.Function(f"rem_{k}", z3.BitVecSort(64), z3.BitVecSort(w))(x)
    return z3.ZeroExt(64 - w, z3.If(z3.UGE(u, z3.BitVecVal(k, w)), u - k, u))


def add_off(off, c, terms):
    if type(off) is int:
        off = (off, [])
    c0, t0 = off
    t = list(t0) + terms
    return c0 + c if not t else (c0 + c, t)


def binop(M, op, a, b, n):
    if type(a) is int and type(b) is int:
        if op == "add":
            return (a + b) & _mask(n)
        if op == "sub":
            return (a - b) & _mask(n)
        if op == "mul":
            return (a * b) & _mask(n)
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op in ("shl", "lshr", "ashr"):
            if b >= n:
                M.bad(f"shift of a {n}-bit value by {b}")
            return (a << b) & _mask(n) if op == "shl" else a >> b if op == "lshr" else (sgn(a, n) >> b) & _mask(n)
        if b == 0:
            M.bad("division by zero")
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        x, y = sgn(a, n), sgn(b, n)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return (q if op == "sdiv" else x - q * y) & _mask(n)
    if isinstance(a, P) or isinstance(b, P):
        if op == "sub" and isinstance(a, P) and isinstance(b, P):
            if a.o != b.o:
                raise Unsupported("difference of unrelated pointers")
            if type(a.off) is not int:
                a = M.pin(a)
            if type(b.off) is not int:
                b = M.pin(b)
            return (a.off - b.off) & _mask(64)
        if op == "add" or (op == "sub" and type(b) is int):
            q, o = (a, b) if isinstance(a, P) else (b, a)
            if type(o) is int:
                o = sgn(o, 64)
                return P(q.o, add_off(q.off, o if op == "add" else -o, []))
        if op == "and" and type(b) is int and type(a.off) is int:
            if b < 16:
                return a.off & b
        if op == "sub" and type(a) is int and a == 0:
            raise Unsupported("negated pointer")
        raise Unsupported(f"{op} on a pointer")
    if a is UNDEF or b is UNDEF:
        if op in ("and", "or") and 0 in [x for x in (a, b) if type(x) is int]:
            return 0 if op == "and" else UNDEF
        return UNDEF
    if op == "mul" and n == 64 and getattr(M, "mul_uf", False):
        k, x = (a, b) if type(a) is int else (b, a)
        if type(k) is int and k >> 32:
            return mul_uf(k, x)
    if op == "urem" and n == 64 and getattr(M, "mul_uf", False) and type(b) is int and 1 < b < 1 << 16:
        return urem_uf(b, a)
    if n == 1:
        a, b = (x if type(x) is not int else z3.BoolVal(bool(x)) for x in (a, b))
        if op == "and":
            return simp(z3.And(a, b))
        if op == "or":
            return simp(z3.Or(a, b))
        if op in ("xor", "add", "sub"):
            return simp(z3.Xor(a, b))
        raise Unsupported(f"{op} i1")
    x, y = bv(a, n), bv(b, n)
    if op in ("udiv", "urem", "sdiv", "srem"):
        if type(b) is not int:
            ctx().check(SymBool(y != 0), "C++ extension: division by zero")
    if op in ("shl", "lshr", "ashr") and type(b) is not int:
        ctx().check(SymBool(z3.ULT(y, n)), "C++ extension: shift count out of range")
    return simp({"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                 "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y, "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y),
                 "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}[op]())


def select(M, c, a, b, ty):
    if type(c) is int:
        return a if c & 1 else b
    if c is UNDEF:
        M.bad("selection on an uninitialised value")
    if ty.k != "i" or a is UNDEF or b is UNDEF or isinstance(a, P) or isinstance(b, P):
        return a if M.branch(c) else b
    if ty.n == 1:
        a, b = (x if type(x) is not int else z3.BoolVal(bool(x)) for x in (a, b))
        return simp(z3.If(c, a, b))
    return simp(z3.If(c, bv(a, ty.n), bv(b, ty.n)))


def instr(mod, p, f, l, blk, blocks, reg):
    t = toks(l)
    dst = None
    if len(t) > 1 and t[1] == "=":
        dst = reg(t[0])
        t = t[2:]
    while t[0] in ("tail", "musttail", "notail"):
        t.pop(0)
    op = t.pop(0)
    code = blk.code

    def operand(ty=None):
        p.attrs(t)
        ty = p.ty(t) if ty is None else ty
        p.attrs(t)
        return ty, getter(p.val(t, ty), reg)

    def comma():
        assert t.pop(0) == ",", l

    if op == "phi":
        ty = p.ty(t)
        srcs = {}
        while t and t[0] == "[":
            t.pop(0)
            v = getter(p.val(t, ty), reg)
            comma()
            srcs[t.pop(0)] = v
            assert t.pop(0) == "]"
            if t and t[0] == ",":
                t.pop(0)
        blk.phis.append((dst, srcs))
        return
    if op == "alloca":
        ty = p.ty(t)
        cnt = None
        if t and t[0] == "," and t[1] != "align":
            comma()
            _, cnt = operand()
        name = f"stack of {f.name}"

        def run(M, r, al):
            q = M.alloc(ty.size * (1 if cnt is None else cnt(r)), name)
            al.append(q.o)
            r[dst] = q
        code.append(run)
        return
    if op == "load":
        while t[0] in ("volatile", "atomic"):
            t.pop(0)
        ty = p.ty(t); comma()
        _, a = operand()
        n = ty.size
        if ty.k == "i" and ty.n == 1:
            def run(M, r, al):
                v = M.load(a(r), 1)
                r[dst] = v & 1 if type(v) is int else v if v is UNDEF else simp(z3.Extract(0, 0, v) == 1)
        elif ty.k in "ip":
            def run(M, r, al):
                r[dst] = M.load(a(r), n)
        else:
            raise Unsupported(f"load {ty.k}")
        code.append(run)
        return
    if op == "store":
        while t[0] in ("volatile", "atomic"):
            t.pop(0)
        ty, v = operand(); comma()
        _, a = operand()
        n = ty.size
        if ty.k not in "ip":
            raise Unsupported(f"store {ty.k}")
        code.append(lambda M, r, al: M.store(a(r), v(r), n))
        return
    if op == "getelementptr":
        p.attrs(t)
        bt = p.ty(t); comma()
        _, base = operand()
        const, dyn, ty, first = 0, [], bt, True
        while t and t[0] == ",":
            comma()
            it, v = operand()
            k = v(()) if v.__code__.co_freevars == ("k",) else None
            if first:
                size = ty.size
                first = False
            elif ty.k == "a":
                ty = ty.el
                size = ty.size
            else:
                const += ty.offs[k]
                ty = ty.el[k]
                continue
            if k is not None and type(k) is int:
                const += sgn(k, it.n) * size
            else:
                dyn.append((size, it.n, v))

        def run(M, r, al):
            q = base(r)
            c, terms = const, []
            for size, n, v in dyn:
                x = v(r)
                if type(x) is int:
                    c += (x - (1 << n) if x >> (n - 1) else x) * size
                elif isinstance(x, P) or x is UNDEF:
                    raise Unsupported("pointer/undef index")
                else:
                    x = bv(x, n)
                    terms.append((size, z3.SignExt(64 - n, x) if n < 64 else x))
            if type(q) is int:
                if c == 0 and not terms:
                    r[dst] = q
                    return
                raise Unsupported("arithmetic on a null pointer")
            if not terms and type(q.off) is int:
                r[dst] = P(q.o, q.off + c)
            else:
                r[dst] = P(q.o, add_off(q.off, c, terms))
        code.append(run)
        return
    if op == "icmp":
        while t[0] in ("samesign",):
            t.pop(0)
        pred = t.pop(0)
        ty, a = operand(); comma()
        _, b = operand(ty)
        n = 64 if ty.k == "p" else ty.n
        fc = CMPC[pred]

        def run(M, r, al):
            x, y = a(r), b(r)
            r[dst] = int(fc(x, y, n)) if type(x) is int and type(y) is int else icmp(M, pred, x, y, n)
        code.append(run)
        return
    if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
        p.attrs(t)
        ty, a = operand(); comma()
        _, b = operand(ty)
        n, mk_ = ty.n, _mask(ty.n)
        if op == "add":
            def run(M, r, al):
                x, y = a(r), b(r)
                r[dst] = (x + y) & mk_ if type(x) is int and type(y) is int else binop(M, op, x, y, n)
        else:
            def run(M, r, al):
                r[dst] = binop(M, op, a(r), b(r), n)
        code.append(run)
        return
    if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
        p.attrs(t)
        ty, a = operand()
        to = ty
        if op != "freeze":
            assert t.pop(0) == "to"
            to = p.ty(t)
        n, m = ty.n, to.n

        def run(M, r, al):
            x = a(r)
            if op == "trunc":
                if type(x) is int:
                    x &= _mask(m)
                elif x is UNDEF or isinstance(x, P):
                    x = x if x is UNDEF else M.bad("truncated pointer")
                else:
                    x = simp(z3.Extract(0, 0, x) == 1) if m == 1 else simp(z3.Extract(m - 1, 0, x))
            elif op == "zext" and type(x) is not int:
                x = x if x is UNDEF else simp(bv(x, m)) if z3.is_bool(x) else simp(z3.ZeroExt(m - n, x))
            elif op == "sext":
                if type(x) is int:
                    x = sgn(x, n) & _mask(m)
                elif x is not UNDEF:
                    x = simp(z3.If(x, z3.BitVecVal(_mask(m), m), z3.BitVecVal(0, m))) if z3.is_bool(x) else simp(z3.SignExt(m - n, x))
            elif op == "inttoptr" and not isinstance(x, P) and x != 0 and type(x) is not int:
                raise Unsupported("inttoptr of a symbolic value")
            r[dst] = x
        code.append(run)
        return
    if op == "select":
        _, c = operand(I(1) if False else None); comma()
        ty, a = operand(); comma()
        _, b = operand()

        def run(M, r, al):
            r[dst] = select(M, c(r), a(r), b(r), ty)
        code.append(run)
        return
    if op in ("extractvalue", "insertvalue"):
        ty, a = operand()
        if op == "extractvalue":
            comma()
            k = int(t.pop(0))

            def run(M, r, al):
                v = a(r)
                r[dst] = v[1][k]
        else:
            comma()
            _, b = operand()
            comma()
            k = int(t.pop(0))

            def run(M, r, al):
                v = list(a(r)[1]) if type(a(r)) is tuple else [UNDEF] * len(ty.el)
                v[k] = b(r)
                r[dst] = ("agg", v)
        code.append(run)
        return
    if op in ("call", "invoke"):
        while True:
            if t[0] in ATTR or t[0] in PATTR:
                p.attrs(t)
            elif t[0] in ("nnan", "fast", "afn"):
                t.pop(0)
            else:
                break
        rty = p.ty(t)
        callee = t.pop(0)
        assert t.pop(0) == "(", l
        args, byval = [], []
        while t[0] != ")":
            ty = p.ty(t)
            if ty.k == "m":
                depth = 0
                while not (depth == 0 and t[0] in (",", ")")):
                    x = t.pop(0)
                    depth += (x == "(") - (x == ")")
                args.append((ty, lambda r: None))
            else:
                at = p.attrs(t)
                if "byval" in at:
                    byval.append((len(args), p.ty(list(at["byval"])).size))
                args.append((ty, getter(p.val(t, ty), reg)))
            if t[0] == ",":
                t.pop(0)
        t.pop(0)
        gets = [g for _, g in args]
        tys = [ty for ty, _ in args]
        if callee[0] == "@" and callee.startswith("@llvm."):
            code.append(intrinsic(callee[6:], dst, gets, tys, rty))
            go = None
        elif callee[0] == "@":
            rn = mod.local.get((p.ns, callee), callee)
            rn = mod.alias.get(rn, rn)
            name = lambda M, r: rn
        else:
            ci = reg(callee)

            def name(M, r):
                q = r[ci]
                if not isinstance(q, P) or q.off != 0:
                    raise Unsupported("indirect call target")
                return mod.objs[q.o].name

        def go(M, r, al):
            a = [g(r) for g in gets]
            for i, n in byval:
                q = M.alloc(n, "argument copy")
                al.append(q.o)
                M.memcpy(q, a[i], n)
                a[i] = q
            return M.call(name(M, r), a)
        if callee.startswith("@llvm."):
            return
        if op == "call":
            if dst is None:
                code.append(lambda M, r, al: go(M, r, al) and None)
            else:
                def run(M, r, al):
                    r[dst] = go(M, r, al)
                code.append(run)
            return
        # invoke
        while t[0] != "to":
            t.pop(0)
        ok = t[2]
        bad = t[t.index("unwind") + 2]

        def term(M, r, al):
            try:
                v = go(M, r, al)
            except CppError as e:
                M.pending = e
                return blocks[bad]
            if dst is not None:
                r[dst] = v
            return blocks[ok]
        blk.term = term
        return
    if op == "landingpad":
        def run(M, r, al):
            r[dst] = ("agg", [M.pending, 1])
        code.append(run)
        return
    if op == "resume":
        ty, a = operand()

        def term(M, r, al):
            raise a(r)[1][0]
        blk.term = term
        return
    if op == "br":
        if t[0] == "label":
            tgt = t[1]
            blk.term = lambda M, r, al: blocks[tgt]
            return
        _, c = operand()
        comma(); t.pop(0)
        x = t.pop(0)
        comma(); t.pop(0)
        y = t.pop(0)

        def term(M, r, al):
            v = c(r)
            if type(v) is not int:
                v = M.branch(v)
            return blocks[x] if v else blocks[y]
        blk.term = term
        return
    if op == "switch":
        ty, c = operand()
        comma(); t.pop(0)
        d = t.pop(0)
        assert t.pop(0) == "["
        cases = []
        while t[0] != "]":
            ct = p.ty(t)
            v = p.val(t, ct)[1]
            comma(); t.pop(0)
            cases.append((v, t.pop(0)))

        def term(M, r, al):
            v = c(r)
            for k, b in cases:
                if v == k if type(v) is int else M.branch(icmp(M, "eq", v, k, ty.n)):
                    return blocks[b]
            return blocks[d]
        blk.term = term
        return
    if op == "ret":
        ty = p.ty(t)
        if ty.k == "v":
            blk.term = lambda M, r, al: (None,)
        else:
            v = getter(p.val(t, ty), reg)
            blk.term = lambda M, r, al: (v(r),)
        return
    if op == "unreachable":
        def term(M, r, al):
            M.bad("unreachable code executed (undefined behaviour)")
        blk.term = term
        return
    raise Unsupported(f"IR instruction {op}")


def intrinsic(n, dst, g, tys, rty):
    if n.startswith(("lifetime", "experimental.noalias", "assume", "dbg", "donothing")):
        return lambda M, r, al: None
    if n.startswith(("memcpy", "memmove")):
        return lambda M, r, al: M.memcpy(g[0](r), g[1](r), g[2](r))
    if n.startswith("memset"):
        def run(M, r, al):
            q, v, k = g[0](r), g[1](r), g[2](r)
            if type(k) is not int:
                raise Unsupported("memset of symbolic length")
            for i in range(k):
                M.store(P(q.o, q.off + i), v, 1)
        return run
    w = rty.n if rty.k == "i" else 0
    mm = re.match(r"(umin|umax|smin|smax|abs|fshl|fshr|usub\.sat|uadd\.sat|ctpop|bswap|cttz|ctlz|[us](?:add|sub|mul)\.with\.overflow|expect|eh\.typeid|is\.constant)", n)
    if not mm:
        raise Unsupported(f"intrinsic {n}")
    k = mm.group(1)

    def run(M, r, al):
        a = [x(r) for x in g]
        if any(q is UNDEF for q in a):
            M.bad("use of an uninitialised value")
        if k == "expect":
            v = a[0]
        elif k in ("umin", "umax", "smin", "smax"):
            v = select(M, icmp(M, {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[k], a[0], a[1], w), a[0], a[1], rty)
        elif k == "abs":
            v = select(M, icmp(M, "slt", a[0], 0, w), binop(M, "sub", 0, a[0], w), a[0], rty)
        elif k == "usub.sat":
            v = select(M, icmp(M, "ugt", a[0], a[1], w), binop(M, "sub", a[0], a[1], w), 0, rty)
        elif k == "uadd.sat":
            s = binop(M, "add", a[0], a[1], w)
            v = select(M, icmp(M, "ult", s, a[0], w), _mask(w), s, rty)
        elif k in ("fshl", "fshr"):
            s = a[2]
            if type(s) is not int:
                raise Unsupported("funnel shift by a symbolic amount")
            s %= w
            if k == "fshr":
                s = (w - s) % w if s else 0
                if a[2] % w == 0:
                    v = a[1]
                    r[dst] = v
                    return
            if s == 0:
                v = a[0]
            else:
                v = binop(M, "or", binop(M, "shl", a[0], s, w), binop(M, "lshr", a[1], w - s, w), w)
        elif k.endswith("with.overflow"):
            n0 = tys[0].n
            o = k[1:4]
            v0 = binop(M, o, a[0], a[1], n0)
            if all(type(x) is int for x in a[:2]):
                x, y = (sgn(z, n0) if k[0] == "s" else z for z in a[:2])
                full = x + y if o == "add" else x - y if o == "sub" else x * y
                ov = int(full != (sgn(v0, n0) if k[0] == "s" else v0))
            else:
                ext = z3.SignExt if k[0] == "s" else z3.ZeroExt
                x, y = (ext(n0, bv(z, n0)) for z in a[:2])
                full = x + y if o == "add" else x - y if o == "sub" else x * y
                ov = simp(full != ext(n0, bv(v0, n0)))
            v = ("agg", [v0, ov])
        elif type(a[0]) is int:
            x = a[0]
            v = bin(x).count("1") if k == "ctpop" else int.from_bytes(x.to_bytes(w // 8, "little"), "big") if k == "bswap" else \
                ((x & -x).bit_length() - 1 if x else w) if k == "cttz" else w - x.bit_length()
        elif k == "ctpop":
            v = simp(z3.Sum([z3.ZeroExt(w - 1, z3.Extract(i, i, a[0])) for i in range(w)]))
        else:
            raise Unsupported(f"symbolic {k}")
        r[dst] = v
    return run


# ------------------------------------------------------------------ Python side
DT = {1: np.int8, 2: np.uint8, 3: np.int16, 4: np.uint16, 5: np.int32, 6: np.uint32, 7: np.int64, 8: np.uint64, 9: np.float32, 10: np.float64, 11: np.bool_}
DTC = {np.dtype(v): k for k, v in DT.items()}
PYERR = {"invalid_argument": ValueError, "domain_error": ValueError, "length_error": ValueError, "out_of_range": IndexError, "runtime_error": RuntimeError,
         "logic_error": RuntimeError, "range_error": ValueError, "overflow_error": OverflowError}
_LINKED = {}


def run_tool(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Unsupported("compiler: " + r.stdout[-1500:])


def scratch_file(*parts):
    d = os.environ.get("SYMX_SCRATCH") or "/tmp"
    return os.path.join(d, *parts)


def linked(name):
    if name not in _LINKED:
        texts = []
        for src in sources(name):
            out = scratch_file(f"ll_{name}_{os.path.basename(src)}_{os.getpid()}.ll")
            run_tool(["clang++", "-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w", "-S", "-emit-llvm", "-I", STUB, src, "-o", out])
            with open(out) as f:
                texts.append(f.read())
            os.unlink(out)
        mod = Module(texts)
        M = Machine(mod)
        for q in mod.ctors:
            if isinstance(q, P):
                M.call(mod.objs[q.o].name, [])
        M.call("@symx_init", [])
        _LINKED[name] = (mod, M, read_registry(M))
    return _LINKED[name]


def read_registry(M):
    e = M.call("@symx_registry", [])
    out = {}
    while isinstance(e, P):
        def at(k, n=8):
            return M.load(P(e.o, e.off + k), n)
        n = at(24)
        out[M.cstr(at(0))] = dict(call=at(8), fn=at(16), ret=sgn(at(40), 64), kinds=[at(48 + 8 * i) for i in range(n)],
                                  names=[M.cstr(at(112 + 8 * i)) if isinstance(at(112 + 8 * i), P) else f"arg{i}" for i in range(n)],
                                  has=[at(176 + 8 * i) for i in range(n)], default=[at(240 + 8 * i) for i in range(n)])
        e = at(32)
    return out


class CppModule:
    """The extension as an importable module; in concrete replays the real pybind11 extension built from the same sources."""

    def __init__(self, name, mul_uf=False):
        self.__name__ = name
        self._name = name
        self.mul_uf = mul_uf

    def _machine(self):
        c = ctx()
        ms = c.__dict__.setdefault("cpp_machines", {})
        if self._name not in ms:
            mod, M, reg = linked(self._name)
            ms[self._name] = M.fork()
            ms[self._name].mul_uf = self.mul_uf
        return ms[self._name]

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        _, _, reg = linked(self._name)
        if k in reg and k != "__init__":
            return lambda *a, **kw: invoke(self._machine(), reg[k], None, a, kw)
        if "__init__" in reg:
            return lambda *a, **kw: CppObject(self._machine(), reg, a, kw)
        raise AttributeError(k)


class CppObject:
    def __init__(self, M, reg, a, kw):
        self.__dict__["_M"], self.__dict__["_reg"] = M, reg
        self.__dict__["_self"] = invoke(M, reg["__init__"], None, a, kw, raw=True)

    def __getattr__(self, k):
        if k.startswith("__") or k not in self._reg:
            raise AttributeError(k)
        e = self._reg[k]
        if e["ret"] >= 90000:
            return invoke(self._M, e, self._self, (), {}, ret=e["ret"] - 100000)
        return lambda *a, **kw: invoke(self._M, e, self._self, a, kw)


def elem_to(v, n):
    """Python/symbolic scalar -> machine value of n bits."""
    if type(v) in (SymInt, SymBool):
        v = to_int(v)
        if type(v) is SymInt:
            return simp(_rep(v, n, v.lo < 0))
    if isinstance(v, (bool, int, np.integer, np.bool_)):
        return int(v) & _mask(n)
    raise Unsupported(f"passing {type(v).__name__} to C++")


def elem_from(v, dt):
    n = dt.itemsize * 8
    if v is UNDEF:
        return 0
    if dt.kind == "b":
        if type(v) is int:
            return bool(v)
        return SymBool(v != 0)
    if type(v) is int:
        return sgn(v, n) if dt.kind == "i" else v
    v = bv(v, n)
    if dt.kind == "i":
        return SymInt(v, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    # shrink known-zero upper bits
    k = n
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(v.arg(0)) and v.arg(0).as_long() == 0:
        k = n - v.arg(0).size()
        v = z3.simplify(z3.Extract(k - 1, 0, v))
    return SymInt(v, 0, _mask(k))


def desc(M, slot, a, dt, data):
    flat = list(data)
    n = dt.itemsize
    mem = M.alloc(max(1, len(flat) * n), f"array {tuple(a.shape)} {dt}")
    for i, v in enumerate(flat):
        M.store(P(mem.o, i * n), elem_to(v, 8 * n), n)
    base = slot.off + 8
    M.store(P(slot.o, base), mem, 8)
    M.store(P(slot.o, base + 8), a.ndim, 8)
    for i, s in enumerate(a.shape):
        M.store(P(slot.o, base + 16 + 8 * i), s, 8)
    w = type(a) is SymArray or a.flags.writeable
    contiguous = type(a) is SymArray or a.flags.c_contiguous
    M.store(P(slot.o, base + 64), int(contiguous), 8)
    M.store(P(slot.o, base + 72), int(bool(w)), 8)
    M.store(P(slot.o, base + 80), DTC.get(dt, 99), 8)
    return mem


def flat_of(a):
    return list(a.a.reshape(-1)) if type(a) is SymArray else np.asarray(a).reshape(-1).tolist()


def invoke(M, e, self_, args, kw, raw=False, ret=None):
    vals, nargs = list(args), len(e["kinds"])
    for i in range(len(vals), nargs):
        if e["names"][i] in kw:
            vals.append(kw.pop(e["names"][i]))
        elif e["has"][i]:
            vals.append(e["default"][i])
        else:
            raise TypeError("incompatible function arguments")
    if kw or len(vals) != nargs:
        raise TypeError("incompatible function arguments")
    slots = M.alloc(96 * (nargs + 1), "call slots", [0] * (96 * (nargs + 1)))
    back = []
    for i, (k, v) in enumerate(zip(e["kinds"], vals)):
        slot = P(slots.o, 96 * i)
        if 100 <= k < 1000:
            dt = np.dtype(DT[k - 100])
            if k == 111:
                v = to_int(v) if type(v) in (SymBool, SymInt) else int(bool(v))
                M.store(slot, elem_to(v, 8), 8) if type(v) is int else M.store(slot, z3.ZeroExt(56, elem_to(v, 8)), 8)
                continue
            if isinstance(v, (float, str)) or v is None:
                raise TypeError("incompatible function arguments")
            lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
            x = to_int(v)
            if (x < lo) if type(x) is int else bool(SymBool(as_z3bool(x < int(lo))) if x.lo < lo else False):
                raise TypeError("incompatible function arguments")
            if (x > hi) if type(x) is int else (bool(x > int(hi)) if x.hi > hi else False):
                raise TypeError("incompatible function arguments")
            M.store(slot, elem_to(x, 64), 8)
        elif k == 0:
            if not isinstance(v, (np.ndarray, SymArray)):
                raise TypeError("incompatible function arguments")
            dt = np.dtype(v.dtype)
            mem = desc(M, slot, v, dt, flat_of(v) if dt.kind in "biu" else [0] * v.size)
            back.append((v, mem, dt))
        else:
            dt = np.dtype(DT[(k - 1000) % 100])
            forcecast = (k - 1000) // 100 & 16
            a = v if isinstance(v, (np.ndarray, SymArray)) else np.asarray(v)
            if not forcecast and not np.can_cast(a.dtype, dt):
                raise TypeError("incompatible function arguments")
            if np.dtype(a.dtype) != dt:
                a = a.astype(dt)
            desc(M, slot, a if type(a) is SymArray else np.ascontiguousarray(a), dt, flat_of(a))
    rslot = P(slots.o, 96 * nargs)
    fn = e["fn"]
    try:
        M.call(M.mod.objs[e["call"].o].name, [fn, self_ if self_ is not None else 0, slots, rslot])
    except CppError as x:
        raise PYERR.get(x.kind, RuntimeError)(str(x)) from None
    finally:
        for v, mem, dt in back:
            n = dt.itemsize
            if dt.kind not in "biu":
                continue
            out = [elem_from(M.load(P(mem.o, i * n), n), dt) for i in range(v.size)]
            if type(v) is SymArray:
                v.a.reshape(-1)[:] = out if not v.a.flags.c_contiguous else out
                if not v.a.flags.c_contiguous:
                    v.a[...] = _objarr(out).reshape(v.shape)
            elif v.flags.writeable:
                if any(type(q) in (SymInt, SymBool) for q in out):
                    raise Unsupported("symbolic results written to a plain array")
                v[...] = np.array(out, dtype=dt).reshape(v.shape)
    if raw:
        return M.load(rslot, 8)
    k = e["ret"] if ret is None else ret
    if k == -1:
        return None
    if k < 1000:
        dt = np.dtype(DT[k - 100])
        v = M.load(rslot, 8)
        if type(v) is int:
            return elem_from(v & _mask(8 * dt.itemsize), dt)
        return elem_from(simp(z3.Extract(8 * dt.itemsize - 1, 0, v)), dt)
    dt = np.dtype(DT[(k - 1000) % 100])
    q = rslot.off + 8
    mem, nd = M.load(P(rslot.o, q), 8), M.load(P(rslot.o, q + 8), 8)
    shape = tuple(M.load(P(rslot.o, q + 16 + 8 * i), 8) for i in range(nd))
    if any(type(s) is not int for s in shape):
        raise Unsupported("array of symbolic shape")
    n = dt.itemsize
    out = [elem_from(M.load(P(mem.o, mem.off + i * n), n), dt) for i in range(int(np.prod(shape)))]
    if any(type(x) in (SymInt, SymBool) for x in out):
        return SymArray(_objarr(out).reshape(shape), dt)
    return np.array(out, dtype=dt).reshape(shape)


def build_real(name):
    """Compile the real extension from the current sources (for replays of counterexamples)."""
    import pybind11
    srcs = sources(name)
    h = hashlib.sha1(b"".join(open(os.path.join(os.path.dirname(s), x), "rb").read() for s in srcs[:1] for x in sorted(os.listdir(os.path.dirname(s))) if x.endswith((".cpp", ".h")))).hexdigest()[:16]
    out = scratch_file(f"real_{name}_{h}", name + sysconfig.get_config_var("EXT_SUFFIX"))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + f".{os.getpid()}"
        run_tool(["g++", "-O2", "-DNDEBUG", "-std=c++17", "-shared", "-fPIC", "-fvisibility=hidden", "-w", "-I", pybind11.get_include(),
                  "-I", sysconfig.get_paths()["include"], *srcs, "-o", tmp])
        os.replace(tmp, out)
    spec = importlib.util.spec_from_file_location(name, out)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def extension(c, name, mul_uf=False):
    """The module to put in sys.modules[name] for this run."""
    m = CppModule(name, mul_uf) if c.symbolic else build_real(name)
    sys.modules[name] = m
    return m
