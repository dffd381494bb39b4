"""Distributed ranks as lock-step threads.

`World(n).run(fn)` executes fn(rank) for every rank.  Exactly one rank runs at a time; a rank is suspended only at a
collective operation, which completes when every rank has arrived at it.  Ranks arriving at different collectives, or a
rank returning or raising while others wait, is recorded in `world.stuck` (on real hardware: a hang)."""
import contextlib
import threading

import torch

from . import symtorch as st
from .engine import ctx, SymxError


class Hang(BaseException):
    """Raised in ranks that can never proceed."""


class World:
    def __init__(self, n):
        self.n = n
        self.stuck = None
        self.log = []

    def run(self, fn):
        n = self.n
        self.waiting = {}        # rank -> (kind, signature, payload)
        self.answers = {}
        self.results = [None] * n
        self.errors = [None] * n
        self.fatal = None
        self.done = [False] * n
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.kill = False

        def body(r):
            self.sem[r].acquire()
            try:
                with torch.no_grad() if not torch.is_grad_enabled() else contextlib.nullcontext():
                    with st.mode() if ctx().symbolic else contextlib.nullcontext():
                        self.current = r
                        self.results[r] = fn(r)
            except Hang:
                self.errors[r] = "hang"
            except SymxError as e:
                self.fatal = self.fatal or e
            except BaseException as e:  # noqa
                self.errors[r] = e
            self.done[r] = True
            self.main.release()
        threads = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(n)]
        for t in threads:
            t.start()
        ready = list(range(n))
        while ready:
            r = ready.pop(0)
            self.current = r
            self.sem[r].release()
            self.main.acquire()
            if self.fatal is not None and not self.kill:
                self.kill = True
            if not ready and not all(self.done):
                ready = self._settle()
        for t in threads:
            t.join()
        if self.fatal is not None:
            raise self.fatal
        return self.results

    def _settle(self):
        live = [r for r in range(self.n) if not self.done[r]]
        if self.kill:
            self.answers = {r: Hang() for r in live}
            return live
        kinds = {self.waiting[r][:2] for r in live}
        if len(live) < self.n or len(kinds) > 1:
            self.stuck = {r: ("finished" if self.done[r] else self.waiting[r][:2]) for r in range(self.n)}
            self.kill = True
            self.answers = {r: Hang() for r in live}
            return live
        self.log.append(self.waiting[0][0])
        combine = self.waiting[0][3]
        try:
            with st.mode() if ctx().symbolic else contextlib.nullcontext():
                out = combine([self.waiting[r][2] for r in range(self.n)])
        except SymxError as e:
            self.fatal = self.fatal or e
            self.kill = True
            out = [Hang()] * self.n
        self.answers = dict(enumerate(out))
        self.waiting = {}
        return live

    def collective(self, rank, kind, sig, payload, combine):
        self.waiting[rank] = (kind, sig, payload, combine)
        self.main.release()
        self.sem[rank].acquire()
        self.current = rank
        a = self.answers[rank]
        if isinstance(a, Hang):
            raise a
        return a


class Accelerator:
    """The collective interface the trainers use, for one rank of a World."""

    def __init__(self, world, rank):
        self.world, self.process_index = world, rank
        self.num_processes = world.n
        self.device = torch.device("cpu")
        self.is_main_process = self.is_local_main_process = rank == 0
        self.local_process_index = rank

    def _c(self, kind, sig, payload, combine):
        if self.world.n == 1:
            return combine([payload])[0]
        return self.world.collective(self.process_index, kind, sig, payload, combine)

    def reduce(self, t, reduction="mean", scale=1.0):
        def comb(ts):
            r = ts[0]
            for x in ts[1:]:
                r = torch.maximum(r, x) if reduction == "max" else torch.minimum(r, x) if reduction == "min" else r + x
            if reduction == "mean":
                r = r / len(ts)
            return [r.clone() for _ in ts]
        return self._c("reduce", (reduction, tuple(t.shape), t.dtype), t.detach().clone(), comb)

    def gather(self, t):
        if isinstance(t, dict):
            return {k: self.gather(v) for k, v in t.items()}
        x = t if t.ndim else t.reshape(1)
        return self._c("gather", (tuple(x.shape), x.dtype), x.detach().clone(), lambda ts: [torch.cat(ts) for _ in ts])

    def gather_object(self, objs):
        return self._c("gather_object", None, list(objs), lambda os: [[y for x in os for y in x] for _ in os])

    def broadcast_object(self, objs, src=0):
        return self._c("broadcast_object", src, list(objs), lambda os: [list(os[src]) for _ in os])

    def wait_for_everyone(self):
        self._c("barrier", None, None, lambda os: [None] * len(os))

    def autocast(self):
        return contextlib.nullcontext()

    def unwrap_model(self, m, **kw):
        return m


def patch(module, world, accs):
    """routes the module-level collectives of accelerate to the current rank"""
    saved = {}

    def put(name, f):
        if hasattr(module, name):
            saved[name] = getattr(module, name)
            setattr(module, name, f)
    put("gather_object", lambda o: accs[world.current].gather_object(o))
    put("broadcast_object_list", lambda o, from_process=0: o.__setitem__(slice(None), accs[world.current].broadcast_object(o, from_process)))
    return saved


def unpatch(module, saved):
    for k, v in saved.items():
        setattr(module, k, v)
