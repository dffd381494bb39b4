"""P37: the batch pipeline composer (dataset/core.py)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *
from symx import symtorch as st, symjson
from symx.values import is_sym
from types import SimpleNamespace as NS
import torch

check = Check("P37", "batch pipelines", assumptions=[
    "SHA-256 has no collisions; json as in P18",
    "<= 3 pipelines, batches of 2 rows with integer arrays, tensors and lists of <= 4 elements per field",
])
F = ["dataset.core:PipelineStateComposer.__init__", "dataset.core:PipelineStateComposer._decode_blob", "dataset.core:PipelineStateComposer._field_value_digest",
     "dataset.core:PipelineStateComposer._validate_fields", "dataset.core:PipelineStateComposer.prepare_batch", "dataset.core:FieldSpec"]


def C():
    return repo("dataset.core")


class Text:
    """the decimal text of a symbolic integer: an injective function of its value"""

    def __init__(self, v):
        self.v = v

    def encode(self, *a):
        from symx.sbytes import SymBytes
        u = (self.v + 2**31) % 2**32
        return SymBytes([(u // 256**k) % 256 for k in range(4)])


@contextlib.contextmanager
def env(c):
    with (st.mode() if c.symbolic else contextlib.nullcontext()), symjson.install(C(), hashes=True):
        if not c.symbolic:
            yield
            return
        C().repr = lambda x: Text(x) if is_sym(x) else repr(x)
        try:
            yield
        finally:
            del C().repr


def spec(name, required=True, scope="per_sample", spatial=None, side=None, collate="stack", kinds=("i", "u", "b", "f"), transform="plain"):
    return C().FieldSpec(name, required, scope, spatial, side, collate, kinds, transform)


def arr(c, name, shape, dt=np.int32, lo=-9, hi=9):
    n = int(np.prod(shape))
    vs = [c.int(f"{name}_{i}", lo, hi) for i in range(n)]
    if c.symbolic:
        from symx.symnp import SymArray, _objarr
        return SymArray(_objarr(vs, shape), np.dtype(dt))
    return np.array([int(v) for v in vs], dtype=dt).reshape(shape)


def tens(c, name, shape, dt=torch.int32):
    vs = [c.int(f"{name}_{i}", -9, 9) for i in range(int(np.prod(shape)))]
    return st.make(c, vs, shape, dt) if c.symbolic else torch.tensor([int(v) for v in vs], dtype=dt).reshape(shape)


class Pipe:
    """a stateless pipeline: reads x, adds y"""
    schema_version = 1

    def __init__(self, pid="p", ins=("x",), outs=("y",), act=None, sig=0):
        self.pipeline_id, self.act, self.sig = pid, act, sig
        self.input_fields = tuple(i if not isinstance(i, str) else spec(i) for i in ins)
        self.output_fields = tuple(o if not isinstance(o, str) else spec(o) for o in outs)
        self.calls = []

    def signature_state(self):
        return {"sig": self.sig}

    def process_batch(self, data, *, sample_keys, rng_keys):
        self.calls.append((sample_keys, rng_keys))
        out = dict(data)
        for f in self.output_fields:
            out[f.name] = data[self.input_fields[0].name] * 2 + 1
        return self.act(self, data, out) if self.act else out


class Stateful(Pipe):
    """a counter and a tensor as state"""
    start = {"n": 0}

    def initial_state(self):
        return self.start

    def prepare_batch(self, data, *, current_state, sample_keys, rng_keys):
        self.seen = current_state
        out = self.process_batch(data, sample_keys=sample_keys, rng_keys=rng_keys)
        nxt = self.next(current_state) if callable(getattr(self, "next", None)) else {"n": current_state["n"] + 1}
        if not isinstance(out, dict):
            return out
        return C().PreparedPipelineResult(out, nxt)


KEYS, RNG = ("k0", "k1"), ("r0", "r1")


def vals(x):
    if isinstance(x, dict):
        return [v for k in sorted(x) for v in [k] + vals(x[k])]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in vals(y)]
    return st.vals(x) if isinstance(x, torch.Tensor) else list(elems(x)) if isinstance(x, np.ndarray) else [x]


@check.obligation("undeclared changes", functions=F, budget=150, max_paths=2500, bounds=(
    "a pipeline that changes one element of one field it was given (array, view, tensor, object array, list, tuple, nested dict), in place or by returning another value, "
    "any index and any new value: refused exactly when the value differs"))
def mutate(c):
    with env(c):
        kind = c.choose("field", ["array", "int8", "tensor", "list", "tuple", "dict", "scalar", "list of arrays"])
        inplace = c.choose("how", ["in place", "replaced"]) == "in place"
        base = arr(c, "f", (2, 2), np.int8 if kind == "int8" else np.int32)
        mk = {"array": lambda b: b.copy(), "int8": lambda b: b.copy(), "tensor": lambda b: torch.from_numpy(b.copy()), "list": lambda b: list(elems(b)), "tuple": lambda b: (tuple(elems(b)), "s"),
              "dict": lambda b: {"u": b[0].copy(), "v": {"w": b[1].copy()}}, "scalar": lambda b: elems(b)[0], "list of arrays": lambda b: [b[0].copy(), b[1].copy()]}[kind]
        if kind in ("tuple", "scalar") and inplace:
            c.assume(False)
        i = c.choose("index", range(4))
        new = c.int("new", -9, 9)
        other = base.copy()
        other.reshape(-1)[i] = new
        f = mk(base)

        def act(p, data, out):
            if not inplace:
                out["f"] = mk(other)
                return out
            v = data["f"]
            if kind in ("array", "int8", "tensor"):
                v[i // 2, i % 2] = new
            elif kind == "list":
                v[i] = new
            elif kind == "dict":
                (v["u"] if i < 2 else v["v"]["w"])[i % 2] = new
            else:
                v[i // 2][i % 2] = new
            return out
        p = Pipe(act=act)
        q = Pipe("q", outs=("z",))
        comp = C().PipelineStateComposer([p, q])
        data = {"x": arr(c, "x", (2, 2)), "f": f}
        changed = snot(eq(elems(base)[i], new)) if kind != "scalar" else (snot(eq(elems(base)[0], new)) if i == 0 else False)
        want = vals(mk(base))
        try:
            r = comp.prepare_batch(data, sample_keys=KEYS, rng_keys=RNG)
        except ValueError as e:
            c.check(changed, f"a pipeline that changed nothing is refused: {e}")
            c.check("f" in str(e) and not q.calls, "the message names the field and nothing runs after it")
            return
        c.check(snot(changed), "a changed input field goes on to training")
        c.check(sand(*[eq(a, b) for a, b in zip(vals(r.data["f"]), want)]), "input fields arrive unchanged")
        for n in ("y", "z"):
            c.check(sand(*[eq(a, b * 2 + 1) for a, b in zip(vals(r.data[n]), vals(data["x"]))]), "every pipeline's output is there")


BAD = ["none", "overwrite", "undeclared", "removed", "not a dict", "dtype changed", "shape changed", "missing output", "output leading", "output dtype", "signature", "state", "not prepared", "raises"]


@check.obligation("contract", functions=F, budget=100, max_paths=800, bounds="one stateless or stateful pipeline breaking one rule of its declaration, or none; all contents")
def contract(c):
    with env(c):
        bad = c.choose("bad", BAD)
        stateful = c.choose("stateful", [False, True])

        def act(p, data, out):
            if bad == "overwrite":
                out["y"] = out["y"]
            if bad == "undeclared":
                out["w"] = out["x"] * 1
            if bad == "removed":
                del out["f"]
            if bad == "not a dict":
                return [out] if not stateful else NS(data=[out], next_state=None)
            if bad == "dtype changed":
                out["f"] = out["f"].astype(np.int64)
            if bad == "shape changed":
                out["f"] = out["f"].reshape(2, 2, 1)
            if bad == "missing output":
                del out["y"]
            if bad == "output leading":
                out["y"] = out["y"][:1]
            if bad == "output dtype":
                out["y"] = np.array(["a", "b"])
            if bad == "signature":
                p.sig = p.sig + 1
            if bad == "state" and stateful:
                p.seen["n"] = p.seen["n"] + 1
            if bad == "not prepared" and stateful:
                return {"data": out}.items()
            if bad == "raises":
                raise KeyError("pipeline")
            return out
        p = (Stateful if stateful else Pipe)(act=act)
        if bad == "not prepared" and stateful:
            p.prepare_batch = lambda data, **k: dict(data)
        comp = C().PipelineStateComposer([p])
        data = {"x": arr(c, "x", (2, 2)), "f": arr(c, "f", (2, 2))}
        if bad == "overwrite":
            data["y"] = arr(c, "y", (2, 2))
        fine = bad == "none" or (bad in ("state", "not prepared") and not stateful)
        keep = dict(data)
        try:
            r = comp.prepare_batch(data, sample_keys=KEYS, rng_keys=RNG)
        except (ValueError, TypeError, RuntimeError, KeyError) as e:
            c.check(not fine, f"an honest pipeline is refused: {e!r}")
            return
        c.check(fine, f"{bad}: a pipeline that breaks its declaration is accepted")
        c.check(set(r.data) == {"x", "f", "y"} and p.calls == [(KEYS, RNG)], "fields and keys are passed on")
        c.check(set(data) == set(keep) and all(data[k] is keep[k] for k in keep), "the caller's dictionary is left alone")


@check.obligation("state", functions=F, budget=100, max_paths=800, bounds="2 stateful pipelines and a stateless one, 3 batches; any integer and tensor state; the blob replayed from any earlier batch")
def state(c):
    with env(c):
        n0, d = c.zint("n0", -5, 5), c.zint("d", 0, 3)
        t0 = tens(c, "t", (2,))
        a, s, b = Stateful("a", outs=("ya",)), Pipe("s", outs=("ys",)), Stateful("b", outs=("yb",))
        a.start = {"n": n0}
        b.start = [t0, (n0, "x")]
        b.next = lambda cur: [cur[0] + 1, (cur[1][0] + d, "x")]
        comp = C().PipelineStateComposer([a, s, b])
        x = arr(c, "x", (2, 2))
        blob, seen, blobs = None, [], []
        t0v = vals(t0)

        def step(k, blob):
            r = comp.prepare_batch({"x": x}, sample_keys=KEYS, rng_keys=RNG, current_blob=blob)
            c.check(eq(a.seen["n"], n0 + k), "every batch continues from the state it was given")
            tt, (m, _) = b.seen
            c.check(sand(eq(m, n0 + d * k), *[eq(u, v + k) for u, v in zip(vals(tt), t0v)]), "tensors and numbers in the state")
            return r.composite_blob
        for k in range(3):
            blobs.append(comp.initial_blob if blob is None else blob)
            blob = step(k, blob)
        j = c.choose("replay", range(3))
        again = step(j, blobs[j])
        c.check(again == (blobs[j + 1] if j < 2 else blob), "the same batch from the same state gives the same state")
        c.check(blobs[0] != blobs[1], "the state advances")
        fresh = C().PipelineStateComposer([a, s, b])
        c.check(fresh.initial_blob == comp.initial_blob, "the initial state is reproducible")


@check.obligation("descriptors", functions=F, budget=60, bounds="composite states of other pipelines, versions, orders or lengths; duplicate or missing identifiers; overlapping declarations")
def descriptors(c):
    with env(c):
        case = c.choose("case", range(11))
        K = C().PipelineStateComposer
        a, b = Stateful("a", outs=("ya",)), Stateful("b", outs=("yb",))
        x = arr(c, "x", (2, 2))
        run = lambda comp, blob: comp.prepare_batch({"x": x}, sample_keys=KEYS, rng_keys=RNG, current_blob=blob)
        good = K([a, b])
        v2 = Stateful("a", outs=("ya",))
        v2.schema_version = 2
        other = Stateful("z", outs=("ya",))
        blob = good.initial_blob
        noid, nov = Stateful("", outs=("q",)), Stateful("q", outs=("q",))
        nov.schema_version = None
        f = [lambda: run(good, blob), lambda: run(K([b, a]), blob), lambda: run(K([a]), blob), lambda: run(K([v2, b]), blob), lambda: run(K([other, b]), blob),
             lambda: K([a, Stateful("a", outs=("w",))]), lambda: K([noid]), lambda: K([nov]), lambda: K([a, Stateful("c", outs=("ya",))]),
             lambda: K([Stateful("c", outs=("x",))]), lambda: K([Pipe("c", outs=("w", "w"))])][case]
        try:
            f()
            ok = True
        except ValueError:
            ok = False
        c.check(ok == (case == 0), f"case {case}: only a matching, unambiguous pipeline list is accepted")
        # a signature that changed between batches
        p = Pipe("p")
        comp = K([p])
        p.sig = c.zint("sig", 0, 2)
        try:
            run(comp, None)
            ok = True
        except RuntimeError:
            ok = False
        c.check(bool(eq(p.sig, 0)) == ok, "a pipeline whose configuration changed is refused")
        m = c.choose("keys", [1, 2, 3])
        expect = m != 2
        try:
            K([]).prepare_batch({"x": x}, sample_keys=KEYS, rng_keys=("r",) * m)
            c.check(not expect, "keys must match")
        except ValueError:
            c.check(expect, "matching keys are accepted")


@check.obligation("field declarations", functions=F, budget=100, max_paths=1500, bounds="one field checked against its declaration: dtype, leading size, shared rows, list collation, spatial axes against any board sizes, side axis, policy and move forms")
def fields(c):
    with env(c):
        V = C().PipelineStateComposer._validate_fields
        case = c.choose("case", ["dtype", "leading", "shared", "list", "spatial", "side", "policy", "pass", "moves", "missing", "unknown"])
        bs = arr(c, "bs", (2, 2), np.int8, 1, 4)
        B = [[elems(bs)[2 * r + k] for k in range(2)] for r in range(2)]
        data = {"board_size": bs}
        kw = {}
        if case == "dtype":
            kinds = c.choose("kinds", [("i",), ("f",), ("b",), ("i", "f"), ("u",)])
            dt = c.choose("dtype", [np.int32, np.float32, np.bool_, np.uint8])
            data["f"] = np.zeros((2, 3), dtype=dt) if c.choose("tensor", [False, True]) is False else torch.from_numpy(np.zeros((2, 3), dtype=dt))
            s, want = spec("f", kinds=kinds), np.dtype(dt).kind in kinds
        elif case == "leading":
            n = c.choose("n", range(4))
            data["f"] = np.zeros((n, 2)) if n < 3 else np.array(1.0)
            s, want = spec("f"), n == 2
        elif case == "shared":
            a = arr(c, "a", (2, 2))
            data["f"] = a if not c.choose("tensor", [False, True]) else torch.from_numpy(a)
            e = elems(a)
            s, want = spec("f", scope="batch_shared", collate="broadcast"), sand(eq(e[0], e[2]), eq(e[1], e[3]))
        elif case == "list":
            n, lst = c.choose("n", [1, 2, 3]), c.choose("as", ["list", "tuple", "array"])
            v = [np.zeros(2) for _ in range(n)]
            data["f"] = v if lst == "list" else tuple(v) if lst == "tuple" else np.zeros((n, 2))
            s, want = spec("f", collate="list"), n == 2 and lst != "array"
        elif case == "spatial":
            data["f"] = np.zeros((2, 1, 3, 2))
            ax = c.choose("axes", [(1, 2), (-2, -1), (2, 1), (1, 3), (-5, -1)])
            s = spec("f", spatial=ax)
            want = False if ax in ((1, 3), (-5, -1)) else sand(*[sand(h <= (2 if ax == (2, 1) else 3), w <= (3 if ax == (2, 1) else 2)) for h, w in B])
        elif case == "side":
            z = c.choose("size", [0, 2])
            data["f"] = np.zeros((2, z, 3))
            side = c.choose("axis", [0, 1, 2, -1, -2, -4])
            s, want = spec("f", side=side), side in (0, 1, -1, -2) and not (z == 0 and side in (0, -2))
        elif case == "policy":
            sh = c.choose("shape", [(2, 3, 2), (2, 6), (2, 7), (2, 4), (2, 5), (2, 12), (2, 13), (2, 1, 3, 2), (2, 8)])
            data["f"], data["board_input"] = np.zeros(sh), np.zeros((2, 2, 4, 3))
            s = spec("f", transform="board_policy")
            if len(sh) == 3:
                want = sand(*[sand(eq(h, 3), eq(w, 2)) for h, w in B])
            else:
                want = sand(*[sor(eq(h * w, sh[1]), eq(h * w + 1, sh[1]), sh[1] in (12, 13)) for h, w in B]) if len(sh) == 2 else False
        elif case == "pass":
            sh = c.choose("shape", [(2, 7), (2, 5), (2, 3, 2)])
            data["f"] = np.zeros(sh)
            s = spec("f", transform="flat_policy_with_pass")
            want = sand(*[eq(h * w + 1, sh[1]) for h, w in B]) if len(sh) == 2 else False
        elif case == "moves":
            col = c.choose("collate", ["list", "stack"])
            data["f"] = [np.zeros(2), np.zeros(2)]
            s, want = spec("f", transform="moves", collate=col), col == "list"
        elif case == "missing":
            r = c.choose("required", [False, True])
            s, want = spec("f", required=r), not r
        else:
            u = c.choose("extra", [False, True])
            data["f"] = np.zeros((2, 1))
            s, want, kw = spec("f"), not u, {"reject_unknown": True}
            if not u:
                data.pop("board_size")
        try:
            V(data, [s], 2, "stage", **kw)
            ok = True
        except ValueError:
            ok = False
        c.check(bool(eq(want, ok)) if not isinstance(want, bool) else want == ok, f"{case}: accepted exactly when the declaration is met (accepted={ok})")


if __name__ == "__main__":
    check.main()
