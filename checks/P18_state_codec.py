"""P18: the canonical pipeline-state encoding (dataset/core.py)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *
from symx import symtorch as st, symjson
import torch, json

check = Check("P18", "pipeline state encoding", assumptions=[
    "json.dumps is injective on trees of None, booleans, integers, strings, lists and string-keyed dictionaries, and json.loads inverts it",
    "symbolic floats are finite and not minus zero (special floats are tried one by one)",
    "trees of <= 6 nodes, tensors of <= 4 elements",
])
F = ["dataset.core:_canonical_pipeline_value", "dataset.core:canonical_pipeline_state_bytes", "dataset.core:_decode_pipeline_value",
     "dataset.core:decode_canonical_pipeline_state"]
INTS = {torch.bool: (0, 1), torch.uint8: (0, 255), torch.int8: (-128, 127), torch.int16: (-2**15, 2**15 - 1), torch.int32: (-2**31, 2**31 - 1), torch.int64: (-2**63, 2**63 - 1)}


def C():
    return repo("dataset.core")


@contextlib.contextmanager
def env(c):
    with (st.mode() if c.symbolic else contextlib.nullcontext()), symjson.install(C()):
        yield


def tens(c, name, dt, shape):
    lo, hi = INTS[dt]
    n = 1
    for s in shape:
        n *= s
    vs = [c.int(f"{name}_{i}", lo, hi) for i in range(n)]
    if c.symbolic:
        if dt is torch.bool:
            vs = [v == 1 for v in vs]
        return st.make(c, vs, shape, dt)
    return torch.tensor([int(v) for v in vs], dtype=torch.int64).to(dt).reshape(shape)


def equal(a, b):
    """the decoded value is the encoded one (sequences come back as tuples)"""
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        if not (isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor)) or a.dtype != b.dtype or tuple(a.shape) != tuple(b.shape):
            return False
        return sand(*[same(x, y) for x, y in zip(st.vals(a), st.vals(b))])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and type(b) is tuple and len(a) == len(b) and sand(*[equal(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and sand(*[equal(a[k], b[k]) for k in a])
    if a is None or b is None:
        return a is b
    for t in (bool, str, bytes, float):
        if isinstance(a, t) or isinstance(b, t):
            return isinstance(a, t) and isinstance(b, t) and same(a, b)
    return same(a, b)


def leaf(c, name, kinds):
    k = c.choose(name + "_kind", kinds)
    if k == "int":
        return c.zint(name, -2**63, 2**63 - 1)
    if k == "float":
        return c.real(name, -10**6, 10**6)
    if k == "bytes":
        return symbytes(c, name, 2)
    if k == "tensor":
        return tens(c, name, c.choose(name + "_dtype", [torch.int8, torch.int32, torch.bool]), c.choose(name + "_shape", [(2,), (1, 2), ()]))
    return {"none": None, "true": True, "false": False, "zero": 0, "one": 1, "str": "a", "str2": "1", "empty": (), "edict": {}, "fzero": 0.0, "fminus": -0.0, "fone": 1.0, "fnext": 1.0000000000000002, "tiny": 5e-324}[k]


def symbytes(c, name, n):
    vs = [c.int(f"{name}_{i}", 0, 255) for i in range(n)]
    if c.symbolic:
        from symx.sbytes import SymBytes
        return SymBytes(vs).norm()
    return bytes(int(v) for v in vs)


def shape(c, a, b, d):
    k = c.choose("shape", range(6))
    return [(a, b, d), {"x": a, "y": {"z": b}, "w": [d]}, [[a], [b, d]], {"x": (a, b), "0": d}, [a, [b, [d]]], {"é": a, "": [b, {"k": d}]}][k]


ALL = ["int", "float", "bytes", "tensor", "none", "true", "false", "str"]


@check.obligation("round trip", functions=F, budget=100, max_paths=3000, bounds="six nestings of three leaves: any 64-bit integer, real, byte string, tensor, string, bool, None")
def round_trip(c):
    m = C()
    with env(c):
        k = c.choose("first", ALL)
        a = leaf(c, "a", [k])
        b = leaf(c, "b", ["tensor", "int"] if k != "tensor" else ["float", "bytes"])
        v = shape(c, a, b, leaf(c, "d", ["float", "bytes"]))
        blob = m.canonical_pipeline_state_bytes(v)
        c.check(isinstance(blob, bytes), "the encoding is bytes")
        w = m.decode_canonical_pipeline_state(blob)
        c.check(equal(v, w), "decoding gives the encoded value")
        c.check(bool(eq(m.canonical_pipeline_state_bytes(w), blob)), "encoding again gives the same bytes")


@check.obligation("tensors", functions=F, budget=100, max_paths=1000, bounds="every integer and bool dtype x shapes () (1,) (3,) (2,2) (0,) (2,0): all contents, also non-contiguous views; other dtypes with special contents")
def tensors(c):
    m = C()
    with env(c):
        dt = c.choose("dtype", list(INTS))
        sh = c.choose("shape", [(), (1,), (3,), (2, 2), (0,), (2, 0), "t"])
        t = tens(c, "t", dt, (2, 2) if sh == "t" else sh)
        if sh == "t":
            t = t.t()
        w = m.decode_canonical_pipeline_state(m.canonical_pipeline_state_bytes({"s": t}))
        c.check(equal({"s": t}, w), "decoding gives the encoded tensor")


@check.obligation("special values", functions=F, budget=60, bounds="floating dtypes with zeros, infinities, NaN, subnormals, bit by bit; special floats")
def special(c):
    m = C()
    bits = {torch.float16: (torch.int16, [0, -32768, 0x7c00, 0x7e01, 1, 0x3c00]), torch.bfloat16: (torch.int16, [0, -32768, 0x7f80, 0x7fc1, 1, 0x3f80]),
            torch.float32: (torch.int32, [0, -2**31, 0x7f800000, 0x7fc00001, 1, 0x3f800000]), torch.float64: (torch.int64, [0, -2**63, 0x7ff << 52, (0x7ff8 << 48) + 1, 1, 0x3ff << 52]),
            torch.uint16: (torch.int16, [0, -1, -32768, 5, 7, 9]), torch.uint32: (torch.int32, [0, -1, -2**31, 5, 7, 9]), torch.uint64: (torch.int64, [0, -1, -2**63, 5, 7, 9])}
    dt = c.choose("dtype", list(bits))
    it, b = bits[dt]
    sh = c.choose("shape", [(6,), (2, 3), (1, 6, 1)])
    t = torch.tensor(b, dtype=it).view(dt).reshape(sh)
    w = m.decode_canonical_pipeline_state(m.canonical_pipeline_state_bytes([t]))[0]
    c.check(w.dtype == dt and tuple(w.shape) == sh and torch.equal(w.contiguous().view(it).reshape(-1), torch.tensor(b, dtype=it)), "every bit survives")
    f = c.choose("float", [0.0, -0.0, 5e-324, 1e308, -1.5, 0.1])
    w = m.decode_canonical_pipeline_state(m.canonical_pipeline_state_bytes({"f": f}))["f"]
    c.check(type(w) is float and w.hex() == f.hex(), "special floats survive")


@check.obligation("distinct states, distinct bytes", functions=F, budget=100, max_paths=3000, bounds="any two leaves of the listed kinds in the same place: equal bytes exactly for equal values of the same type")
def injective(c):
    m = C()
    kinds = ["int", "float", "bytes", "tensor", "none", "true", "false", "zero", "one", "str", "str2", "empty", "edict", "fzero", "fminus", "fone", "fnext", "tiny"]
    with env(c):
        a, b = leaf(c, "a", kinds), leaf(c, "b", kinds)
        wrap = c.choose("in", ["list", "dict"])
        f = (lambda x: [x, 1]) if wrap == "list" else (lambda x: {"k": x})
        s = m.canonical_pipeline_state_bytes(f(a)) == m.canonical_pipeline_state_bytes(f(b))
        want = equal(a, tuple(b) if isinstance(b, list) else b)
        if type(a) is float and type(b) is float:
            want = a.hex() == b.hex()
        if {type(a), type(b)} != {float} and any(type(x) is float and x.hex() == "-0x0.0p+0" for x in (a, b)):
            return          # a symbolic float is not minus zero
        c.check(bool(eq(s, want)), "equal bytes exactly for equal values")


@check.obligation("order and containers", functions=F, budget=60, bounds="dictionary insertion order and list/tuple do not matter, nesting does; all leaves")
def orders(c):
    m = C()
    with env(c):
        a, b = leaf(c, "a", ["int", "tensor"]), leaf(c, "b", ["float", "bytes"])
        e = m.canonical_pipeline_state_bytes
        c.check(e({"x": a, "y": b}) == e({"y": b, "x": a}), "insertion order does not matter")
        c.check(e([a, (b,)]) == e((a, [b])), "lists and tuples are the same sequence")
        c.check(e([a, [b]]) != e([a, b]) and e([[a], b]) != e([a, [b]]) and e({"x": a, "y": b}) != e({"y": a, "x": b}), "structure matters")


@check.obligation("refusals", functions=F, budget=100, bounds="values that cannot be represented; texts that are not canonical; integers at the 64-bit boundary")
def refusals(c):
    m = C()
    bad = c.choose("value", ["int", "nan", "inf", "-inf", "key", "tag f", "tag b", "tag t", "grad", "sparse", "complex", "object", "np", "set"])
    with env(c):
        n = c.zint("n", -2**63 - 3, 2**63 + 2) if bad == "int" else 0
        v = {"int": n, "nan": float("nan"), "inf": float("inf"), "-inf": float("-inf"), "key": {1: 2}, "tag f": {"$f64": "0" * 16}, "tag b": {"$bytes": ""}, "tag t": {"$tensor": 1, "a": 2},
             "grad": torch.zeros(1, requires_grad=True), "sparse": torch.zeros(2).to_sparse() if not c.symbolic else object(), "complex": torch.zeros(1, dtype=torch.complex64) if not c.symbolic else object(),
             "object": object(), "np": np.zeros(2), "set": {1}}[bad]
        try:
            blob = m.canonical_pipeline_state_bytes(c.choose("in", [lambda v: v, lambda v: [v], lambda v: {"k": (v,)}])(v))
            ok = True
        except (ValueError, TypeError):
            ok = False
        want = bool(sand(n >= -2**63, n < 2**63)) if bad == "int" else False
        c.check(ok == want, f"{bad}: representable values and no others are encoded")


TEXTS = ['{"b":1,"a":2}', '[1, 2]', '{"$f64":"7ff0000000000000"}', '{"$f64":"3FF0000000000000"}', '{"$f64":"00"}', '{"$f64":1}', '{"$bytes":"0"}', '{"$bytes":"AB"}', '{"$bytes":"ab","x":1}',
         '{"$tensor":{"dtype":"int8","shape":[2],"data_le":"00"}}', '{"$tensor":{"dtype":"int8","shape":[-1],"data_le":"00"}}', '{"$tensor":{"dtype":"int9","shape":[1],"data_le":"00"}}',
         '{"$tensor":{"data_le":"00","dtype":"int8","shape":[1],"x":0}}', '{"$tensor":[1]}', '1.5', '{"x":1.0}', '1e3', 'NaN', '[1,]', '', '"\\u00e9"', '{"a":1,"a":1}', '9223372036854775808', ' 1', '1\n',
         '{"$tensor":{"data_le":"0001","dtype":"bool","shape":[2]},"y":1}', '{"$tensor":{"data_le":"00","dtype":"int8","shape":[true]}}', '{"$tensor":{"data_le":"0x","dtype":"int8","shape":[1]}}',
         '{"$tensor":{"data_le":"0000","dtype":"int32","shape":[]}}', '-0', '{"$f64":"8000000000000000 "}']
GOOD = ['1', '-9223372036854775808', 'null', '[]', '{}', '"é"', '{"$bytes":"ab"}', '{"$f64":"3ff0000000000000"}', '{"$tensor":{"data_le":"00ff","dtype":"int8","shape":[2]}}', '[[1,[true]],{"a":null}]']


@check.obligation("non-canonical texts", functions=F, budget=60, bounds="31 damaged or non-canonical texts are refused; 10 canonical ones decode and encode to themselves")
def texts(c):
    m = C()
    good = c.choose("good", [False, True])
    t = c.choose("text", range(len(GOOD if good else TEXTS)))
    b = (GOOD if good else TEXTS)[t].encode()
    try:
        v = m.decode_canonical_pipeline_state(b)
    except (ValueError, TypeError, KeyError):
        c.check(not good, f"a canonical text is refused: {b}")
        return
    c.check(good, f"a text that is not canonical is accepted: {b} -> {v!r}")
    c.check(m.canonical_pipeline_state_bytes(v) == b, "and encodes to itself")


if __name__ == "__main__":
    check.main()
