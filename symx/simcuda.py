"""CUDA streams as a scheduling problem.

Host threads enqueue operations on streams; every operation has a symbolic execution time, later than its enqueueing, than
the stream's previous operation and than the events the stream waits for - nothing else is known.  A read of device memory
yields the value of the last write executed before it, as a formula over those times; an unwritten cell holds garbage."""
import contextlib
import threading

import torch

from .engine import ctx
from .values import sand, ite, SymBool
from . import symtorch as st


class Sim:
    def __init__(self, c):
        self.c, self.k = c, 0
        self.clock = {"main": self.now0("main")}
        self.host = "main"
        self.default = Stream(self, "compute")
        self.current = {"main": self.default}
        self.threads = []
        self.cells = {}

    def t(self, tag):
        self.k += 1
        return self.c.zint(f"t{self.k}_{tag}", 0, 1 << 40)

    def now0(self, tag):
        return self.c.zint(f"t0_{tag}", 0, 1)

    def advance(self, *after):
        """the running host thread moves on, past the given moments"""
        n = self.t("host")
        self.c.assume(sand(n > self.clock[self.host], *[n > x for x in after]))
        self.clock[self.host] = n
        return n

    def op(self, stream, tag):
        h = self.advance()
        x = self.t(tag)
        self.c.assume(sand(x > h, *[x > p for p in stream.after]))
        stream.after = [x]
        return x

    def stream(self):
        return self.current.get(self.host, self.default)


class Stream:
    def __init__(self, sim, tag="copy"):
        self.sim, self.tag, self.after = sim, tag, []

    def wait_stream(self, o):
        self.sim.advance()
        self.after = self.after + list(o.after)

    def wait_event(self, e):
        self.sim.advance()
        self.after = self.after + list(e.at)

    def record_event(self, e=None):
        e = e or Event(self.sim)
        e.record(self)
        return e

    def synchronize(self):
        self.sim.advance(*self.after)

    def query(self):
        return False


class Event:
    def __init__(self, sim):
        self.sim, self.at = sim, []

    def record(self, stream=None):
        self.sim.advance()
        self.at = list((stream or self.sim.stream()).after)

    def wait(self, stream=None):
        (stream or self.sim.stream()).wait_event(self)

    def synchronize(self):
        self.sim.advance(*self.at)

    def query(self):
        return False


def Dev():
    return torch.device("cuda", 0)


class Mem:
    """one device tensor: writes as (execution time, value)"""

    def __init__(self, garbage):
        self.writes = []
        self.garbage = garbage

    def at(self, when):
        v, best = self.garbage, None
        for t, x in self.writes:
            x = x() if callable(x) else x
            if best is None:
                hit = when > t
                best = ite(hit, t, -1)
                v = ite(hit, x, v)
            else:
                hit = sand(when > t, t > best)
                best = ite(hit, t, best)
                v = ite(hit, x, v)
        return v


class CudaT(torch.Tensor):
    """a device scalar"""

    @staticmethod
    def make(sim, shape=()):
        from torch.utils._python_dispatch import _disable_current_modes
        with _disable_current_modes(), torch._C.DisableTorchFunction():
            r = torch.Tensor._make_subclass(CudaT, torch.zeros(shape))
        r.sim = sim
        r.mem = Mem(sim.c.real(f"garbage{len(sim.cells)}", 1000, 2000))
        sim.cells[len(sim.cells)] = r
        return r

    @property
    def device(self):
        return Dev()

    @property
    def is_cuda(self):
        return True

    def put(self, v):
        """the compute stream overwrites the tensor"""
        x = self.sim.op(self.sim.stream(), "write")
        self.mem.writes.append((x, v))

    def get(self):
        """a synchronous read by the running host thread through its current stream"""
        x = self.sim.op(self.sim.stream(), "read")
        v = self.mem.at(x)
        self.sim.advance(x)
        return v

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        n = getattr(func, "__name__", str(func))
        if n in ("empty_like", "zeros_like", "empty"):
            sim = args[0].sim
            if sim.oom is not None and bool(sim.oom == sim.allocs):
                raise torch.cuda.OutOfMemoryError("CUDA out of memory")
            sim.allocs += 1
            return CudaT.make(sim)
        if n == "copy_":
            a, b = args[0], args[1]
            x = a.sim.op(a.sim.stream(), "copy")
            a.mem.writes.append((x, (lambda: b.mem.at(x)) if isinstance(b, CudaT) else b))  # a later enqueued write may run first
            return a
        if n == "clone":
            r = torch.empty_like(args[0])
            return r.copy_(args[0])
        if n in ("detach", "contiguous", "view_as"):
            return args[0]
        if n == "record_stream":
            return None
        if n in ("__get__",):
            with torch._C.DisableTorchFunctionSubclass():
                return func(*args, **(kwargs or {}))
        from .engine import Unsupported
        raise Unsupported(f"device tensor operation {n}")


class Thread:
    """starts at an arbitrary moment after start(); its Python code runs here when it is joined"""
    sim = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs, self.name = target, args, kwargs or {}, name or f"thread{len(self.sim.threads)}"
        self.state, self.daemon = "new", daemon
        self.id = f"w{len(self.sim.threads)}"
        self.sim.threads.append(self)

    def start(self):
        s = self.sim
        assert self.state == "new"
        self.state = "running"
        s.clock[self.id] = s.advance()

    def work(self):
        s = self.sim
        if self.state != "running":
            return
        self.state = "done"
        old, s.host = s.host, self.id
        try:
            self.target(*self.args, **self.kwargs)
        finally:
            s.host = old

    def join(self, timeout=None):
        s = self.sim
        self.work()
        s.advance(s.clock[self.id])

    def is_alive(self):
        return self.state == "running"


@contextlib.contextmanager
def install(sim, oom=None, side=False):
    sim.oom, sim.allocs = oom, 0
    if side:
        sim.current["main"] = Stream(sim, "side")
    real = {n: getattr(torch.cuda, n) for n in ("Stream", "Event", "stream", "current_stream", "default_stream", "synchronize")}
    rthread = threading.Thread

    @contextlib.contextmanager
    def stream(s):
        old = sim.current.get(sim.host)
        if s is not None:
            sim.current[sim.host] = s
        try:
            yield
        finally:
            sim.current[sim.host] = old or sim.default
    T = type("Thread", (Thread,), {"sim": sim})
    for n, f in {"Stream": lambda *a, **k: Stream(sim), "Event": lambda *a, **k: Event(sim), "stream": stream,
                 "current_stream": lambda *a, **k: sim.stream(), "default_stream": lambda *a, **k: sim.default,
                 "synchronize": lambda *a, **k: sim.advance(*[x for s in (sim.default,) for x in s.after])}.items():
        setattr(torch.cuda, n, f)
    threading.Thread = T
    try:
        yield sim
    finally:
        threading.Thread = rthread
        for n, f in real.items():
            setattr(torch.cuda, n, f)
