"""P29: background checkpoint writing (utils/async_checkpoint.py)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *
from symx import symtorch as st, simcuda as G
from types import SimpleNamespace as NS
from collections import OrderedDict
import torch

check = Check("P29", "background checkpoint writing", assumptions=[
    "device work is modelled by execution times: an operation runs after its enqueueing, after its stream's previous operation and after "
    "the events its stream waits for, and at no other known moment; device tensors are scalars; memory of a dropped tensor is not reused",
    "a host read of device memory goes through the reading thread's current stream",
    "<= 3 payloads, <= 3 submits",
])
F = ["utils.async_checkpoint:AsyncCheckpointWriter.submit", "utils.async_checkpoint:AsyncCheckpointWriter._write",
     "utils.async_checkpoint:AsyncCheckpointWriter.flush", "utils.async_checkpoint:_stage_tree"]


def A():
    return repo("utils.async_checkpoint")


def read(x):
    """what a finalizer sees of a staged structure"""
    if isinstance(x, G.CudaT):
        return x.get()
    if isinstance(x, torch.Tensor):
        return ("cpu", tuple(x.shape), str(x.dtype), st.vals(x))
    if isinstance(x, dict):
        return {k: read(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(read(v) for v in x)
    return x


def ctxm(c):
    return st.mode() if c.symbolic else contextlib.nullcontext()


class Run:
    def __init__(self, c, device="cuda", oom=None):
        self.c = c
        self.sim = G.Sim(c)
        self.log = []
        self.stack = contextlib.ExitStack()
        self.stack.enter_context(ctxm(c))
        self.stack.enter_context(G.install(self.sim, oom, side=bool(c.choose("compute_stream", ["default", "other"]) == "other") if device == "cuda" else False))
        os.environ.pop("NNUE_SYNC_CHECKPOINT", None)
        self.w = A().AsyncCheckpointWriter(G.Dev() if device == "cuda" else torch.device("cpu"))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        os.environ.pop("NNUE_SYNC_CHECKPOINT", None)
        self.stack.close()

    def fin(self, name, fail=False):
        def f(obj):
            self.log.append(("begin", name))
            v = read(obj)
            if fail:
                raise OSError("disk " + name)
            self.log.append((name, v, self.sim.host))
        return f

    def hook(self, name, fail=False):
        def f():
            if fail:
                raise OSError("hook " + name)
            self.log.append((name, None, self.sim.host))
        return f

    def order(self):
        return [x[0] for x in self.log if x[0] != "begin"]

    def got(self, name):
        return [x[1] for x in self.log if x[0] == name]


@check.obligation("snapshot", functions=F, budget=60, max_paths=64,
                  bounds="1 device tensor written before the save and 1-2 times after it, on the compute stream or another; every schedule")
def snapshot(c):
    with Run(c) as r:
        p = G.CudaT.make(r.sim)
        v = [c.real(f"v{i}", -9, 9) for i in range(4)]
        p.put(v[0])
        p.put(v[1])
        r.w.submit([({"w": p}, r.fin("a"))], post_hook=r.hook("h"))
        p.put(v[2])
        p.put(v[3])
        if c.choose("again", range(2)):
            r.w.submit([({"w": p}, r.fin("b"))])
            p.put(v[0])
            r.w.flush()
            c.check(eq(r.got("b")[0]["w"], v[3]), "the second file holds the values at the second save")
        else:
            r.w.flush()
        c.check(eq(r.got("a")[0]["w"], v[1]), "the file holds the values at the save")


@check.obligation("training goes on", functions=F, budget=60, max_paths=64,
                  bounds="what the compute stream does before and after the save is not changed by the save; live tensors keep their values")
def untouched(c):
    with Run(c) as r:
        p = G.CudaT.make(r.sim)
        v = [c.real(f"v{i}", -9, 9) for i in range(2)]
        p.put(v[0])
        r.w.submit([({"w": p}, r.fin("a"))])
        c.check(eq(p.get(), v[0]), "the live tensor is unchanged")
        p.put(v[1])
        r.w.flush()
        c.check(eq(p.get(), v[1]), "later writes stand")
        c.check(len(p.mem.writes) == 2, "nothing else wrote to the live tensor")


@check.obligation("structure", functions=F, budget=60, max_paths=64,
                  bounds="nested dict/list/tuple of device and CPU tensors, shared tensors, other values; all CPU contents; later in-place changes")
def structure(c):
    with Run(c) as r:
        g = G.CudaT.make(r.sim)
        gv = c.real("g", -9, 9)
        g.put(gv)
        a = st.real_tensor(c, "a", (2,), torch.float32, lo=-9, hi=9)
        b = st.real_tensor(c, "b", (1, 2), torch.float64, lo=-9, hi=9)
        av, bv = st.vals(a), st.vals(b)
        i = c.int("i", -5, 5)
        keep = []
        o1 = OrderedDict([("z", a), ("y", [b, g, ("s", a, None)]), ("n", {"k": i, 3: True}), ("t", ())])
        o2 = {"again": g, "more": a, "empty": {}, "l": []}

        def fin(obj):
            keep.append(obj)
            r.fin(f"o{len(keep)}")(obj)
        r.w.submit([(o1, fin), (o2, fin)])
        with torch.no_grad():
            a.add_(1)
            b.mul_(2)
        g.put(c.real("g2", -9, 9))
        r.w.flush()
        x, y = r.got("o1")[0], r.got("o2")[0]
        c.check(list(x) == ["z", "y", "n", "t"] and isinstance(x["y"], list) and isinstance(x["y"][2], tuple) and x["t"] == () and list(x["n"]) == ["k", 3],
                "the structure and its order")
        A_, B_ = ("cpu", (2,), "torch.float32"), ("cpu", (1, 2), "torch.float64")
        for t, w, d in ((x["z"], av, A_), (x["y"][2][1], av, A_), (y["more"], av, A_), (x["y"][0], bv, B_)):
            c.check(t[:3] == d and len(t[3]) == len(w), "shape and dtype")
            c.check(sand(*[eq(p, q) for p, q in zip(t[3], w)]), "CPU tensors hold the values at the save")
        c.check(sand(eq(x["y"][1], gv), eq(y["again"], gv)), "device tensors hold the values at the save")
        c.check(x["y"][2][0] == "s" and x["y"][2][2] is None and bool(eq(x["n"]["k"], i)) and x["n"][3] is True, "other values")
        c.check(y["empty"] == {} and y["l"] == [], "empty containers")
        k1, k2 = keep
        c.check(k1["z"] is k1["y"][2][1] and k1["z"] is k2["more"] and k1["y"][1] is k2["again"], "a shared tensor is staged once")
        c.check(k1["z"] is not a and k1["y"][1] is not g, "staged tensors are copies")


@check.obligation("order and failures", functions=F, budget=60, max_paths=400,
                  bounds="3 payloads and a hook; any one of them fails, or none; background, CPU, disabled by the environment, or out of memory at any allocation")
def failures(c):
    how = c.choose("how", ["background", "cpu", "env", "oom"])
    bad = c.choose("bad", range(5))          # 0..2 payload, 3 hook, 4 none
    oom = c.choose("allocation", range(3)) if how == "oom" else None
    with Run(c, "cpu" if how == "cpu" else "cuda", oom) as r:
        if how == "env":
            os.environ["NNUE_SYNC_CHECKPOINT"] = "1"
        ps = [G.CudaT.make(r.sim) for _ in range(3)]
        v = [c.real(f"v{i}", -9, 9) for i in range(3)]
        for p, x in zip(ps, v):
            p.put(x)
        err = None
        try:
            r.w.submit([({"w": p}, r.fin(f"f{i}", bad == i)) for i, p in enumerate(ps)], post_hook=r.hook("hook", bad == 3))
        except OSError as e:
            err = e
        now = r.order()
        for p in ps:
            p.put(c.real(f"later{[q is p for q in ps].index(True)}", -9, 9))
        if how == "background":
            c.check(err is None, "a background failure does not surface inside submit")
        else:
            c.check((err is not None) == (bad < 4), "a synchronous failure surfaces at once")
            c.check(now == ["f0", "f1", "f2", "hook"][:bad], "synchronous saves are complete when submit returns")
        again = c.choose("then", ["flush", "submit"])
        os.environ.pop("NNUE_SYNC_CHECKPOINT", None)
        err2 = None
        try:
            if again == "flush":
                r.w.flush()
            else:
                q = G.CudaT.make(r.sim)
                q.put(v[0])
                r.w.submit([({"w": q}, r.fin("next"))])
        except RuntimeError as e:
            err2 = e
        if how == "background" and bad < 4:
            c.check(err2 is not None and ("disk" in str(err2) or "hook" in str(err2)), "a background failure is raised at the next flush or save")
            c.check("next" not in r.order(), "nothing is written after an unreported failure")
        else:
            c.check(err2 is None, "no failure is invented")
        try:
            r.w.flush()
        except RuntimeError as e:
            c.fail(f"a failure is reported once: {e}")
        names = [x for x in r.order() if x != "next"]
        c.check(names == ["f0", "f1", "f2", "hook"][:bad], "files in order, pruning only after all of them")
        for i, n in enumerate(n for n in names if n != "hook"):
            c.check(eq(r.got(n)[0]["w"], v[i]), "every file holds the values at the save")
        if err2 is None and again == "submit":
            c.check(r.order()[-1] == "next" and eq(r.got("next")[0]["w"], v[0]), "the next save is written")


@check.obligation("one writer", functions=F, budget=60, max_paths=200,
                  bounds="3 saves in a row, each overtaking the previous or after a flush; CPU tensors, arbitrary values")
def one_writer(c):
    with Run(c) as r:
        a = st.real_tensor(c, "a", (1,), torch.float64, lo=-9, hi=9)
        want = []
        live = 0
        for k in range(3):
            want.append(st.vals(a))
            r.w.submit([({"a": a}, r.fin(f"s{k}")), ({"b": a}, r.fin(f"t{k}"))], post_hook=r.hook(f"h{k}"))
            live = sum(t.state == "running" for t in r.sim.threads)
            c.check(live <= 1, "saves never overlap")
            with torch.no_grad():
                a.mul_(2)
                a.add_(1)
            if c.choose(f"flush{k}", range(2)):
                r.w.flush()
                c.check(r.order()[-1] == f"h{k}", "flush waits for the files")
        r.w.flush()
        c.check(r.order() == [x + str(k) for k in range(3) for x in "sth"], "saves complete one after another")
        for k in range(3):
            c.check(eq(r.got(f"s{k}")[0]["a"][3][0], want[k][0]), "every save has its own moment's values")


if __name__ == "__main__":
    check.main()
