"""P32: optimizer steps (utils/fused_adamw.py, utils/muon.py, utils/chained_optimizer.py, utils/training_utils.py)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *
from symx import symtorch as st, sreal as R, symtriton as tt
from symx.sreal import add, mul, sub, div, sq, neg
from types import SimpleNamespace as NS
import contextlib
import torch

check = Check("P32", "optimizer steps", assumptions=[
    "parameters, gradients and hyper-parameters are exact reals; square roots are uninterpreted with r*r=x",
    "the Triton AdamW kernel's Python body is executed once per program id on a stand-in triton.language with exact reals and a "
    "device stream that runs queued work either at once or as late as the host's synchronisation allows; its block size is set to 4",
    "<= 3 steps, <= 3 parameters of <= 6 elements",
])
D = torch.float32
A = "utils.fused_adamw:MultiTensorAdamW"


def mode(c):
    return st.mode() if c.symbolic else contextlib.nullcontext()


def hyper(c):
    lr, wd = c.real("lr", 0, 1), c.real("wd", 0, 1)
    b1, b2, eps = c.real("b1", 0, 0.95), c.real("b2", 0, 0.95), c.real("eps", 0.001, 1)
    return lr, wd, b1, b2, eps


def param(c, name, shape):
    t = st.real_tensor(c, name, shape, D, -10, 10)
    return torch.nn.Parameter(t)


class Adam:
    """reference AdamW, element by element"""

    def __init__(self, vals, lr, wd, b1, b2, eps, maximize=False, amsgrad=False):
        self.p, self.m, self.v, self.x, self.t = list(vals), [0] * len(vals), [0] * len(vals), [0] * len(vals), 0
        self.h, self.maximize, self.amsgrad = (lr, wd, b1, b2, eps), maximize, amsgrad

    def step(self, g):
        lr, wd, b1, b2, eps = self.h
        self.t += 1
        c1, c2 = sub(1, R.powi(b1, self.t)), sub(1, R.powi(b2, self.t))
        for i in range(len(self.p)):
            gi = neg(g[i]) if self.maximize else g[i]
            self.m[i] = add(mul(b1, self.m[i]), mul(sub(1, b1), gi))
            self.v[i] = add(mul(b2, self.v[i]), mul(sub(1, b2), gi, gi))
            v = self.v[i]
            if self.amsgrad:
                v = self.x[i] = R.maxi(self.x[i], v)
            den = add(div(R.sqrt(v), R.sqrt(c2)), eps)
            self.p[i] = sub(mul(self.p[i], sub(1, mul(lr, wd))), mul(div(lr, c1), div(self.m[i], den)))


def same(c, t, want, what):
    got = st.vals(t)
    for i, (a, b) in enumerate(zip(got, want)):
        c.check(st.close(a, R.n(b), 2e-3), f"{what}[{i}]", detail=lambda: (a, b))


@check.obligation("adamw_steps", bounds="2 parameters (2 and 1 elements), 3 steps, any subset of gradients missing in each; maximise; checkpoint between", functions=[A + "._reference_update", A + "._partition", A + ".step", A + ".state_dict", A + ".load_state_dict"], timeout_ms=60000)
def adamw(c):
    m = repo("utils.fused_adamw")
    h = hyper(c)
    maxi = c.choose("maximize", [False, True])
    reload = c.choose("reload", [None, 1, 2])
    have = [c.choose(f"have{k}", [(1, 1), (1, 0), (0, 1)]) for k in range(2 if maxi else 3)]
    with mode(c):
        ps = [param(c, "p", 2), param(c, "q", 1)]
        lr, wd, b1, b2, eps = h
        mk = lambda: m.MultiTensorAdamW(ps, lr=lr, betas=(b1, b2), eps=eps, weight_decay=wd, maximize=maxi)
        o = mk()
        refs = [Adam(st.vals(p), *h, maximize=maxi) for p in ps]
        for k in range(len(have)):
            if reload == k:
                s = o.state_dict()
                for e in s["state"].values():
                    c.check(isinstance(e["step"], torch.Tensor), "steps are saved as tensors, as torch.optim.AdamW does")
                o = mk()
                o.load_state_dict(s)
            for i, p in enumerate(ps):
                g = st.real_tensor(c, f"g{k}{i}", p.numel(), D, -10, 10) if have[k][i] else None
                p.grad = g
                if g is not None:
                    refs[i].step(st.vals(g))
            o.step()
    for i, p in enumerate(ps):
        same(c, p.data, refs[i].p, f"parameter {i}")


@check.obligation("adamw_amsgrad_and_groups", bounds="two groups with their own rates; amsgrad; group added after a step; 2 steps", functions=[A + "._reference_update", A + "._launch_plan", A + ".add_param_group"], timeout_ms=60000)
def amsgrad(c):
    m = repo("utils.fused_adamw")
    h = hyper(c)
    lr, wd, b1, b2, eps = h
    lr2 = c.real("lr2", 0, 1)
    ams = c.choose("amsgrad", [True, False])
    late = c.choose("late", [True, False])
    with mode(c):
        ps = [param(c, "p", 1), param(c, "q", 1)]
        second = {"params": [ps[1]], "lr": lr2}
        o = m.MultiTensorAdamW([{"params": [ps[0]]}] + ([] if late else [second]), lr=lr, betas=(b1, b2), eps=eps, weight_decay=wd, amsgrad=ams)
        refs = [Adam(st.vals(ps[0]), *h, amsgrad=ams), Adam(st.vals(ps[1]), lr2, *h[1:], amsgrad=ams)]
        for k in range(2):
            if late and k == 1:
                o.add_param_group(second)
            for i, p in enumerate(ps):
                p.grad = st.real_tensor(c, f"g{k}{i}", 1, D, -10, 10)
                if i == 0 or k or not late:
                    refs[i].step(st.vals(p.grad))
            o.step()
    for i, p in enumerate(ps):
        same(c, p.data, refs[i].p, f"parameter {i}")


# ------------------------------------------------------------------ the device path

class Device:
    """memory, stream and events of a stand-in GPU"""

    def __init__(self, c, lazy):
        self.c, self.lazy, self.queue, self.mem, self.addr = c, lazy, [], tt.Memory(), {}

    def submit(self, f):
        self.queue.append(f)
        if not self.lazy:
            self.drain()

    def drain(self, upto=None):
        while self.queue and (upto is None or upto in self.queue):
            f = self.queue.pop(0)
            if callable(f):
                f()

    def ptr(self, t):
        k = id(t._store) if isinstance(t, st.SymTensor) else t.untyped_storage().data_ptr()
        if k not in self.addr:
            b = tt.Buf.of(t, "tensor")
            self.addr[k] = (self.mem.alloc(b), t)
        off = int(t._idx.reshape(-1)[0]) if isinstance(t, st.SymTensor) else t.storage_offset()
        return self.addr[k][0] + 4 * off

    def replace(self, old, new):
        """the allocator hands `old`'s block to `new`"""
        ko = id(old._store) if isinstance(old, st.SymTensor) else old.untyped_storage().data_ptr()
        kn = id(new._store) if isinstance(new, st.SymTensor) else new.untyped_storage().data_ptr()
        a = self.addr[ko][0]
        self.addr[kn] = (a, new)
        self.mem.map[a] = tt.Buf.of(new, "tensor")


class HostTable:
    def __init__(self, n):
        self.a = [0] * n

    def numpy(self):
        return self

    def __setitem__(self, i, v):
        self.a[i] = v


class Torch:
    """the module's view of torch: int64 tables and events live on the stand-in device"""

    def __init__(self, dev):
        self.dev = dev
        self.cuda = NS(Event=lambda: Ev(dev), is_available=lambda: True)

    def __getattr__(self, n):
        return getattr(torch, n)

    def empty(self, n, dtype=None, pin_memory=False, device=None):
        return HostTable(n) if pin_memory else DevTable(self.dev, n)

    def tensor(self, v, dtype=None, device=None):
        if isinstance(v, list):
            t = DevTable(self.dev, len(v))
            t.v[:] = v
            return t
        return torch.tensor(v, dtype=dtype)


class DevTable(tt.Table):
    def __init__(self, dev, n):
        super().__init__([0] * n)
        self.dev = dev

    def copy_(self, host, non_blocking=False):
        def go():
            self.v[:] = list(host.a)
        self.dev.submit(go)


class Ev:
    def __init__(self, dev):
        self.dev, self.mark = dev, None

    def record(self):
        self.mark = object.__new__(type("mark", (), {}))
        self.dev.queue.append(self.mark)

    def synchronize(self):
        if self.mark is not None and self.mark in self.dev.queue:
            self.dev.drain(self.mark)


@contextlib.contextmanager
def gpu(c, m, lazy):
    dev = Device(c, lazy)
    lang = tt.Lang(dev.mem)
    saved = {k: m.__dict__[k] for k in ("torch", "_multi_tensor_adamw_kernel", "_BLOCK", "_flat_layout")}
    k = tt.Launcher(m._multi_tensor_adamw_kernel, lang, defer=dev.submit)
    m.torch, m._multi_tensor_adamw_kernel, m._BLOCK = Torch(dev), k, 4
    cls = {}
    for t in (st.SymTensor, torch.nn.Parameter, torch.Tensor):
        for n in ("is_cuda", "data_ptr"):
            cls[t, n] = t.__dict__.get(n)
    on = property(lambda t: True)
    for t in (st.SymTensor,) if c.symbolic else (torch.Tensor,):
        t.is_cuda = on
        t.data_ptr = dev.ptr
        t.data_ptr = lambda self: dev.ptr(self)
    orig = m.MultiTensorAdamW._reference_update

    def ref(self, group, params):
        dev.drain()
        return orig(self, group, params)
    m.MultiTensorAdamW._reference_update = ref
    dev.kernel = k
    try:
        yield dev
    finally:
        m.MultiTensorAdamW._reference_update = orig
        for (t, n), v in cls.items():
            if v is None:
                if n in t.__dict__:
                    delattr(t, n)
            else:
                setattr(t, n, v)
        for n, v in saved.items():
            setattr(m, n, v)


def layouts(t, kind):
    """the same values with another memory layout"""
    if kind == "same":
        return t
    if kind == "transposed":
        return t.t().contiguous().t()
    if kind == "offset":
        return torch.cat([t.reshape(-1) * 0, t.reshape(-1)])[t.numel():].reshape(t.shape)
    if kind == "gap":
        return torch.stack([t, t * 0], -1)[..., 0]


def dev_run(c, steps, shapes, have, lay, lazy, reuse, reload=None):
    m = repo("utils.fused_adamw")
    h = hyper(c)
    lr, wd, b1, b2, eps = h
    with mode(c), gpu(c, m, lazy) as dev:
        ps = [param(c, f"p{i}", s) for i, s in enumerate(shapes)]
        mk = lambda: m.MultiTensorAdamW(ps, lr=lr, betas=(b1, b2), eps=eps, weight_decay=wd)
        o = mk()
        refs = [Adam(st.vals(p), *h) for p in ps]
        keep = []
        for k in range(steps):
            if reload == k:
                dev.drain()
                s = o.state_dict()
                o = mk()
                o.load_state_dict(s)
            for i, p in enumerate(ps):
                if not have(k, i):
                    p.grad = None
                    continue
                g = st.real_tensor(c, f"g{k}{i}_", shapes[i], D, -10, 10)
                refs[i].step(st.vals(g))
                g = layouts(g, lay(k, i)).detach()
                if reuse == "inplace" and p.grad is not None and lay(k, i) == lay(k - 1, i):
                    dev.drain()
                    p.grad.copy_(g)
                    continue
                if reuse == "block" and p.grad is not None:
                    dev.drain()
                    dev.ptr(p.grad)
                    dev.replace(p.grad, g)
                keep.append(p.grad)
                p.grad = g
            try:
                o.step()
            except (tt.Race, tt.OutOfBounds) as e:
                c.check(False, f"kernel memory error: {e}")
        try:
            dev.drain()
        except (tt.Race, tt.OutOfBounds) as e:
            c.check(False, f"kernel memory error: {e}")
        for i, p in enumerate(ps):
            c.check(o.state[p]["step"] == refs[i].t, "step counter")
    for i, p in enumerate(ps):
        same(c, p.data, refs[i].p, f"parameter {i}")
    return dev


DF = [A + "._launch_plan", A + "._partition", A + ".step", "utils.fused_adamw:_multi_tensor_adamw_kernel", "utils.fused_adamw:_LaunchPlan.refresh_grad_pointers",
      "utils.fused_adamw:_supports_fast_path", "utils.fused_adamw:_flat_layout", "utils.fused_adamw:_grad_layout_unchanged"]


@check.obligation("device_missing_gradients", bounds="2 parameters (6 and 1 elements), 3 steps, every pattern of missing gradients; eager or late stream", functions=DF, timeout_ms=60000)
def dev_missing(c):
    pat = [c.choose(f"have{k}", [(1, 1), (1, 0), (0, 1)]) for k in range(3)]
    c.assume(any(p[0] for p in pat) and any(p[1] for p in pat))
    lazy = c.choose("lazy", [False, True])
    dev = dev_run(c, 3, [(6,), (1,)], lambda k, i: pat[k][i], lambda k, i: "same", lazy, "fresh")
    c.check(dev.kernel.launches >= 1, "the kernel ran")


@check.obligation("device_layouts", bounds="2x2 parameter; contiguous, transposed, offset or strided gradients in fresh, reused or in-place memory over 2 steps; reload between", functions=DF, timeout_ms=60000)
def dev_layouts(c):
    l = [c.choose(f"layout{k}", ["same", "transposed", "offset", "gap"]) for k in range(2)]
    reuse = c.choose("memory", ["fresh", "block", "inplace"])
    if reuse == "block":
        c.assume("offset" not in l)
    reload = c.choose("reload", [None, 1])
    dev_run(c, 2, [(2, 2)], lambda k, i: 1, lambda k, i: l[k], True, reuse, reload)


@check.obligation("device_queue", bounds="5 steps (more than the pointer ring has slots); gradients moving freely between two blocks; a stream that runs at once or as late as possible", functions=DF, timeout_ms=60000)
def dev_queue(c):
    m = repo("utils.fused_adamw")
    n = 5
    lazy = c.choose("lazy", [False, True])
    slots = [0] + [c.choose(f"slot{k}", [0, 1]) for k in range(1, n)]
    with mode(c), gpu(c, m, lazy) as dev:
        ps = [param(c, f"p{i}", (1,)) for i in range(2)]
        o = m.MultiTensorAdamW(ps, lr=0.5, betas=(0.5, 0.5), eps=1.0, weight_decay=0.0)
        refs = [Adam(st.vals(p), 0.5, 0, 0.5, 0.5, 1) for p in ps]
        blocks, keep = {}, []
        for k in range(n):
            for i, p in enumerate(ps):
                g = st.real_tensor(c, f"g{k}{i}_", 1, D, -10, 10)
                if (i, slots[k]) in blocks:
                    dev.drain()
                    dev.replace(blocks[i, slots[k]], g)
                else:
                    dev.ptr(g)
                blocks[i, slots[k]] = g
                keep.append(g)
                p.grad = g
                refs[i].m = [add(mul(0.5, refs[i].m[0]), mul(0.5, st.vals(g)[0]))]
                refs[i].v = [add(mul(0.5, refs[i].v[0]), mul(0.5, sq(st.vals(g)[0])))]
            o.step()
        dev.drain()
        for i, p in enumerate(ps):
            same(c, o.state[p]["exp_avg"], refs[i].m, f"first moment {i}")
            same(c, o.state[p]["exp_avg_sq"], refs[i].v, f"second moment {i}")
            c.check(o.state[p]["step"] == n, "step counter")


@check.obligation("device_fresh_queue", bounds="5 steps with fresh gradient memory in each; late stream", functions=DF, timeout_ms=60000)
def dev_fresh(c):
    m = repo("utils.fused_adamw")
    lazy = c.choose("lazy", [False, True])
    with mode(c), gpu(c, m, lazy) as dev:
        ps = [param(c, f"p{i}", (1,)) for i in range(2)]
        o = m.MultiTensorAdamW(ps, lr=0.5, betas=(0.5, 0.5), eps=1.0, weight_decay=0.0)
        mom, keep = [[0], [0]], []
        for k in range(5):
            for i, p in enumerate(ps):
                p.grad = st.real_tensor(c, f"g{k}{i}_", 1, D, -10, 10)
                keep.append(p.grad)
                mom[i] = [add(mul(0.5, mom[i][0]), mul(0.5, st.vals(p.grad)[0]))]
            o.step()
        dev.drain()
        for i, p in enumerate(ps):
            same(c, o.state[p]["exp_avg"], mom[i], f"first moment {i}")


# ------------------------------------------------------------------ clipping

@check.obligation("clip_grad_norm", bounds="3 parameters of 1..2 elements, one without gradient; norms 1, 2, inf; mixed dtypes; empty", functions=["utils.training_utils:clip_grad_norm"], timeout_ms=60000)
def clip(c):
    m = repo("utils.training_utils")
    ord_ = c.choose("norm", [1.0, 2.0, float("inf")])
    kind = c.choose("kind", ["same", "mixed", "empty"])
    mx = c.real("max", 0.1, 10) if kind != "mixed" else c.choose("max", [0.5, 8.0])
    with mode(c):
        dt = [D, D, torch.float64 if kind == "mixed" else D]
        ps = [torch.nn.Parameter(st.real_tensor(c, f"p{i}", n, d)) for i, (n, d) in enumerate(zip((2, 1, 1), dt))]
        g = {}
        for i in (0, 2) if kind != "empty" else ():
            g[i] = st.real_tensor(c, f"g{i}", ps[i].shape[0], dt[i], -10, 10)
            ps[i].grad = g[i]
        g = {i: list(st.vals(t)) for i, t in g.items()}
        c.assume(sand(*[x != 0 for v in g.values() for x in v[:1]]))
        tot = m.clip_grad_norm(iter(ps) if kind == "same" else ps, mx, ord_)
    flat = [x for v in g.values() for x in v]
    if ord_ == 1.0:
        want = add(*[R.absx(x) for x in flat]) if flat else 0
    elif ord_ == 2.0:
        if c.symbolic and flat:
            n2 = [R.sqrt(add(*[sq(x) for x in v])) for v in g.values()]
            want = R.sqrt(add(*[sq(x) for x in n2]))
        else:
            want = sum(float(x) ** 2 for x in flat) ** 0.5
    else:
        want = 0
        for x in flat:
            want = R.maxi(want, R.absx(x))
    got = tot.item() if isinstance(tot, torch.Tensor) else tot
    c.check(st.close(got, R.n(want), 1e-4), "returned total norm", detail=lambda: (got, want))
    coef = div(mx, add(want, 1e-6 if not c.symbolic else R.n(1e-6)))
    coef = R.mini(coef, 1)
    for i, v in g.items():
        for a, b in zip(st.vals(ps[i].grad), v):
            c.check(st.close(a, mul(b, coef), 1e-3), "gradient scaled by min(1, max/norm)", detail=lambda: (a, b))
    c.check(ps[1].grad is None, "missing gradients stay missing")


@check.obligation("weight_clipping", bounds="2x4 weights with a 1x2 companion tiled over them; any limits; several groups", functions=["utils.training_utils:apply_weight_clipping", "utils.training_utils:resolve_weight_clipping"], timeout_ms=60000)
def wclip(c):
    m = repo("utils.training_utils")
    lo, hi = c.real("lo", -5, 5), c.real("hi", -5, 5)
    c.assume(lo <= hi)
    with mode(c):
        w, u, v = param(c, "w", (2, 4)), param(c, "u", (3,)), param(c, "v", (1, 2))
        z = param(c, "z", (1,))
        before = {k: list(st.vals(t.data)) for k, t in dict(w=w, u=u, v=v, z=z).items()}
        groups = m.resolve_weight_clipping(iter([("w", w), ("u", u), ("v", v), ("z", z)]),
                                           [{"params": ["u"], "min_weight": lo, "max_weight": hi}, {"params": ["w"], "virtual_params": ["v"], "min_weight": lo, "max_weight": hi}])
        m.apply_weight_clipping(groups)
    cl = lambda x: R.mini(R.maxi(x, lo), hi)
    same(c, u.data, [cl(x) for x in before["u"]], "clamped weight")
    for i in range(2):
        for j in range(4):
            vv = before["v"][j % 2]
            c.check(st.close(add(st.vals(w.data)[4 * i + j], vv), cl(add(before["w"][4 * i + j], vv)), 1e-3), "effective weight clamped")
    same(c, v.data, before["v"], "companion unchanged")
    same(c, z.data, before["z"], "unlisted parameter unchanged")
    for bad, exc in (([{"params": ["nope"], "min_weight": 0, "max_weight": 1}], KeyError),
                     ([{"params": ["u", "w"], "virtual_params": ["v"], "min_weight": 0, "max_weight": 1}], ValueError)):
        expect_error(c, lambda: m.resolve_weight_clipping([("u", u), ("w", w), ("v", v)], bad), (exc,), "unknown or unpaired names are refused")


# ------------------------------------------------------------------ Muon

def matmul(a, b):
    return [[add(*[mul(a[i][k], b[k][j]) for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(r) for r in zip(*a)]


def ns(c, g, steps):
    """documented Newton-Schulz quintic iteration on one matrix"""
    a, b, k = 3.4445, -4.7750, 2.0315
    x = tr(g) if len(g) > len(g[0]) else g
    nrm = R.sqrt(add(*[sq(e) for r in x for e in r]))
    nrm = R.maxi(nrm, 1e-7)
    x = [[div(e, nrm) for e in r] for r in x]
    for _ in range(steps):
        A = matmul(x, tr(x))
        A2 = matmul(A, A)
        B = [[add(mul(b, A[i][j]), mul(k, A2[i][j])) for j in range(len(A))] for i in range(len(A))]
        BX = matmul(B, x)
        x = [[add(mul(a, x[i][j]), BX[i][j]) for j in range(len(x[0]))] for i in range(len(x))]
    return tr(x) if len(g) > len(g[0]) else x


def mkmuon(shape, steps, tag, n=1, tiers=("quick", "thorough")):
    @check.obligation(f"muon_{tag}", bounds=f"{n} parameter(s) of shape {shape}, 2 steps, {steps} iteration(s); momentum, weight decay, nesterov free", functions=["utils.muon:Muon.step", "utils.muon:zeropower_via_newtonschulz5"], tiers=tiers, timeout_ms=20000)
    def ob(c):
        m = repo("utils.muon")
        lr, wd, mom = c.real("lr", 0.01, 1), c.choose("wd", [0, 0.25]), c.real("momentum", 0, 0.95)
        nest, base = c.choose("nesterov", [True, False]), c.choose("baddbmm", [True, False])
        rows = shape[0]
        cols = 1
        for s in shape[1:]:
            cols *= s
        two = c.choose("steps", [1, 2] if rows * cols <= 2 and steps == 1 else [1])
        with mode(c):
            ps = [param(c, f"p{i}", shape) for i in range(n)]
            idle = param(c, "idle", shape)
            o = m.Muon(ps + [idle], lr=lr, weight_decay=wd, momentum=mom, nesterov=nest, ns_steps=steps, use_baddbmm=base)
            ref = [[list(st.vals(p.data)), [0] * (rows * cols)] for p in ps]
            before = list(st.vals(idle.data))
            for k in range(two):
                for i, p in enumerate(ps):
                    g = st.real_tensor(c, f"g{k}{i}_", shape, D, -10, 10)
                    gv = list(st.vals(g))
                    c.assume(gv[0] > 1)
                    p.grad = g
                    ref[i][1] = [add(mul(mom, b), mul(sub(1, mom), x)) for b, x in zip(ref[i][1], gv)]
                    u = [add(mul(sub(1, mom), x), mul(mom, b)) for b, x in zip(ref[i][1], gv)] if nest else ref[i][1]
                    if len(shape) >= 4:
                        mat = [u[r * cols:(r + 1) * cols] for r in range(rows)]
                    else:
                        mat = [u[r * cols:(r + 1) * cols] for r in range(rows)]
                    x = [e for r in ns(c, mat, steps) for e in r]
                    scale = max(rows, cols) ** 0.5
                    ref[i][0] = [sub(mul(p0, sub(1, mul(lr, wd))), mul(lr, scale, e)) for p0, e in zip(ref[i][0], x)]
                o.step()
        for i, p in enumerate(ps):
            same(c, p.data, ref[i][0], f"parameter {i}")
        same(c, idle.data, before, "parameter without gradient")


mkmuon((1, 2), 1, "wide", 2)
mkmuon((2, 1), 1, "tall")
mkmuon((2, 2), 1, "square")
mkmuon((2, 1, 1, 2), 1, "conv")
mkmuon((1, 2), 2, "two_iterations")
mkmuon((2, 3), 1, "rect", 1, ("thorough",))


@check.obligation("muon_inputs", bounds="2 matrices, a 4-d filter and one without gradient, 3 steps with gradients missing at will; the matrices handed to the orthogonalisation and the use of its result", functions=["utils.muon:Muon.step"], timeout_ms=20000)
def muon_inputs(c):
    m = repo("utils.muon")
    lr, wd, mom = c.real("lr", 0.01, 1), c.real("wd", 0.01, 1), c.real("momentum", 0, 0.95)
    nest = c.choose("nesterov", [True, False])
    shapes = [(1, 2), (1, 2), (2, 1, 1, 2)]
    have = [c.choose(f"have{k}", [(1, 1, 1), (1, 0, 1), (0, 1, 0)]) for k in range(2)]
    seen = []

    def stand_in(G, *a, **kw):
        """any linear map of the flattened matrix: 2x + a per-matrix marker"""
        seen.append(tuple(G.shape))
        return G * 2 + 1
    orig = m.zeropower_via_newtonschulz5
    m.zeropower_via_newtonschulz5 = stand_in
    try:
        with mode(c):
            ps = [param(c, f"p{i}", s) for i, s in enumerate(shapes)]
            o = m.Muon(ps, lr=lr, weight_decay=wd, momentum=mom, nesterov=nest, ns_steps=3)
            ref = [[list(st.vals(p.data)), [0] * p.numel()] for p in ps]
            for k in range(2):
                for i, p in enumerate(ps):
                    p.grad = None
                    if not have[k][i]:
                        continue
                    p.grad = st.real_tensor(c, f"g{k}{i}_", shapes[i], D, -10, 10)
                    gv = list(st.vals(p.grad))
                    ref[i][1] = [add(mul(mom, b), mul(sub(1, mom), x)) for b, x in zip(ref[i][1], gv)]
                    u = [add(mul(sub(1, mom), x), mul(mom, b)) for b, x in zip(ref[i][1], gv)] if nest else ref[i][1]
                    scale = 2 ** 0.5
                    ref[i][0] = [sub(mul(p0, sub(1, mul(lr, wd))), mul(lr, scale, add(mul(2, e), 1))) for p0, e in zip(ref[i][0], u)]
                o.step()
    finally:
        m.zeropower_via_newtonschulz5 = orig
    for i, p in enumerate(ps):
        same(c, p.data, ref[i][0], f"parameter {i}")
    c.check(all(len(s) >= 2 and s[-1] * s[-2] in (2, 4) for s in seen), "matrices are flattened per parameter", detail=lambda: seen)


@check.obligation("muon_routing", bounds="modules with matrices, biases, norms, embeddings, frozen and embedding-named parameters; any parameter freezing", functions=["utils.muon:get_params_for_muon", "utils.training_utils:_make_muon_adamw", "utils.training_utils:build_optimizer", "utils.chained_optimizer:ChainedOptimizer.__init__"])
def routing(c):
    mu, tu = repo("utils.muon"), repo("utils.training_utils")
    net = torch.nn.ModuleDict({"lin": torch.nn.Linear(2, 3), "norm": torch.nn.BatchNorm2d(2), "conv": torch.nn.Conv2d(2, 2, 1), "emb": torch.nn.Embedding(3, 2)})
    net.register_parameter("pos_embed", torch.nn.Parameter(torch.zeros(2, 2)))
    net.register_parameter("table", torch.nn.Parameter(torch.zeros(2, 2)))
    frozen = c.choose("frozen", [None, "lin.weight", "table", "norm.bias", "emb.weight"])
    names = dict(net.named_parameters())
    if frozen:
        names[frozen].requires_grad_(False)
    wd = c.choose("wd", [None, 0.0, 0.5])
    margs = c.choose("muon_args", [{}, {"weight_decay": 0.125, "momentum": 0.5}])
    lr = c.real("lr", 0.001, 1)
    muon = {n for n in ("lin.weight", "conv.weight", "table") if n != frozen}
    c.check({id(p) for p in mu.get_params_for_muon(net)} == {id(names[n]) for n in muon} and len(mu.get_params_for_muon(net)) == len(muon), "matrices go to Muon")
    kw = {"muon_args": dict(margs)} if margs else {}
    if wd is None:
        return
    o = tu.build_optimizer("muon-adamw", c.choose("models", [net, [net]]), lr, wd, adamw_args={"betas": (0.5, 0.75)}, **kw)
    a, b = o.optimizers
    ids = lambda opt: [id(p) for g in opt.param_groups for p in g["params"]]
    c.check(sorted(ids(a)) == sorted(id(names[n]) for n in muon), "Muon updates exactly the matrices")
    c.check(sorted(ids(b)) == sorted(id(p) for n, p in names.items() if n not in muon and n != frozen), "AdamW updates exactly the rest")
    c.check(a.param_groups[0]["lr"] is lr or st.close(a.param_groups[0]["lr"], lr), "Muon rate")
    c.check(st.close(b.param_groups[0]["lr"], lr), "AdamW rate")
    c.check(a.param_groups[0]["weight_decay"] == margs.get("weight_decay", wd), "Muon weight decay as configured", detail=lambda: a.param_groups[0]["weight_decay"])
    c.check(b.param_groups[0]["weight_decay"] == wd and tuple(b.param_groups[0]["betas"]) == (0.5, 0.75), "AdamW settings as configured")
    c.check(a.param_groups[0]["momentum"] == margs.get("momentum", 0.95), "Muon momentum as configured")


@check.obligation("chained", bounds="two SGD parts with their own rates; closure, rate change, late group, checkpoint between steps", functions=["utils.chained_optimizer:ChainedOptimizer.step", "utils.chained_optimizer:ChainedOptimizer.add_param_group", "utils.chained_optimizer:ChainedOptimizer.load_state_dict", "utils.chained_optimizer:ChainedOptimizer.zero_grad"], timeout_ms=60000)
def chained(c):
    m = repo("utils.chained_optimizer")
    lr, lr2, lr3 = c.real("lr", 0, 1), c.real("lr2", 0, 1), c.real("lr3", 0, 1)
    wd = c.real("wd", 0, 1)
    reload, late, closure = c.choose("reload", [False, True]), c.choose("late", [False, True]), c.choose("closure", [False, True])
    with mode(c):
        ps = [param(c, f"p{i}", 1) for i in range(3)]
        first = {id(ps[0]), id(ps[2])}
        specs = [m.OptimizerSpec(torch.optim.SGD, {"momentum": 0.5, "foreach": False}, lambda p: id(p) in first),
                 m.OptimizerSpec(torch.optim.SGD, {"weight_decay": wd, "foreach": False}, None)]
        mk = lambda: m.ChainedOptimizer(ps[:2], specs, lr=lr)
        o = mk()
        if late:
            o.add_param_group({"params": [ps[2]], "lr": lr3})
        p0 = [st.vals(p.data)[0] for p in ps]
        ref, mom = list(p0), [None] * 3
        calls = []
        for k in range(2):
            for g in o.param_groups[:1]:
                g["lr"] = lr if k == 0 else lr2
            if reload and k == 1:
                s = o.state_dict()
                keys = set(s)
                o = mk()
                if late:
                    o.add_param_group({"params": [ps[2]], "lr": lr3})
                o.load_state_dict(s)
                c.check(set(s) == keys, "the checkpoint handed in is not modified")
            gs = [c.real(f"g{k}{i}", -10, 10) for i in range(3)]

            def assign():
                calls.append(k)
                for p, g in zip(ps, gs):
                    p.grad = st.make(c, [g], (1,), D)
                return "loss"
            if closure:
                c.check(o.step(assign) == "loss", "the closure's loss is returned")
                c.check(calls == list(range(k + 1)), "closure evaluated once per step")
            else:
                assign()
                o.step()
            rate = lr if k == 0 else lr2
            for i in (0, 2):
                mom[i] = gs[i] if mom[i] is None else add(mul(0.5, mom[i]), gs[i])
            ref[0] = sub(ref[0], mul(rate, mom[0]))
            ref[1] = sub(ref[1], mul(rate, add(gs[1], mul(wd, ref[1]))))
            if late:
                ref[2] = sub(ref[2], mul(lr3, mom[2]))
        o.zero_grad()
    for i, p in enumerate(ps):
        same(c, p.data, [ref[i]], f"parameter {i}")
    c.check(all(p.grad is None for p in (ps if late else ps[:2])), "gradients cleared in every part")
    expect_error(c, lambda: m.ChainedOptimizer(ps, [m.OptimizerSpec(torch.optim.SGD, {}, lambda p: p is ps[0])], lr=0.1), (ValueError,), "a parameter without optimizer is refused")


@check.obligation("build_optimizer_settings", bounds="every registered optimizer; rates, decay and keyword overrides free; frozen parameters", functions=["utils.training_utils:build_optimizer", "utils.training_utils:_make_adamw", "utils.training_utils:_make_adamw_ams", "utils.training_utils:_make_sgd", "utils.training_utils:_make_sgd_momentum", "utils.training_utils:_make_sgd_nesterov"])
def settings(c):
    tu = repo("utils.training_utils")
    kind = c.choose("kind", ["adamw", "adamw-ams", "sgd", "sgd-momentum", "sgd-nesterov", "nope"])
    lr, wd = c.real("lr", 0.001, 1), c.real("wd", 0.001, 1)
    net = torch.nn.Linear(2, 2)
    net.bias.requires_grad_(c.choose("bias", [True, False]))
    track = c.choose("only_trainable", [True, False])
    if kind == "nope":
        expect_error(c, lambda: tu.build_optimizer(kind, net, lr, wd), (ValueError,), "unknown optimizer")
        return
    over = c.choose("override", [{}, {"betas": (0.5, 0.5)} if kind.startswith("adamw") else {"momentum": 0.25, "nesterov": False}])
    o = tu.build_optimizer(kind, net, lr, wd, only_track_requires_grad=track, **over)
    g = o.param_groups[0]
    n = 2 if net.bias.requires_grad or not track else 1
    c.check(len(o.param_groups) == 1 and len(g["params"]) == n, "tracked parameters", detail=lambda: len(g["params"]))
    c.check(st.close(g["lr"], lr) and st.close(g["weight_decay"], wd), "rate and decay as configured")
    if kind.startswith("adamw"):
        c.check(tuple(g["betas"]) == over.get("betas", (0.9, 0.999)) and g["eps"] == 1e-8 and g["amsgrad"] == (kind == "adamw-ams"), "AdamW settings")
    else:
        d = {"sgd": (0, 0, False), "sgd-momentum": (0.9, 0.1, False), "sgd-nesterov": (0.9, 0, True)}[kind]
        c.check((g["momentum"], g["dampening"], g["nesterov"]) == (over.get("momentum", d[0]), d[1], over.get("nesterov", d[2])), "SGD settings", detail=lambda: g)


@check.obligation("learning_rate_schedule", bounds="constant, step and cosine schedules, 6 iterations, any base rate; restored at any iteration", functions=["utils.training_utils:build_lr_scheduler"], timeout_ms=60000)
def lrs(c):
    import math, warnings
    tu = repo("utils.training_utils")
    kind = c.choose("kind", ["constant", "step", "cosine", "nope"])
    lr = c.real("lr", 0.001, 1)
    gamma, eta = c.real("gamma", 0.01, 1), c.real("eta", 0, 0.5)
    kw = {"constant": {}, "step": {"step_size": 2, "step_gamma": gamma}, "cosine": {"eta_min": eta}, "nope": {}}[kind]
    cut = c.choose("restore", [None, 2, 3])
    n = 6
    p = torch.nn.Parameter(torch.zeros(1))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = torch.optim.SGD([p], lr=lr)
        if kind == "nope":
            expect_error(c, lambda: tu.build_lr_scheduler(o, kind, n), (ValueError,), "unknown schedule")
            return
        s = tu.build_lr_scheduler(o, kind, n, **kw)
        for k in range(n):
            want = {"constant": lambda: lr, "step": lambda: mul(lr, R.powi(gamma, k // 2)),
                    "cosine": lambda: add(eta, mul(sub(lr, eta), (1 + math.cos(math.pi * k / n)) / 2))}[kind]()
            got = o.param_groups[0]["lr"]
            d = sub(got, want)
            c.check(sand(R.lt(d, 1e-6), R.gt(d, -1e-6)), f"learning rate at iteration {k}", detail=lambda: (got, want))
            if cut == k:
                os_, ss = o.state_dict(), s.state_dict()
                o = torch.optim.SGD([p], lr=lr)
                s = tu.build_lr_scheduler(o, kind, n, **kw)
                o.load_state_dict(os_)
                s.load_state_dict(ss)
            s.step()


if __name__ == "__main__":
    check.main()
