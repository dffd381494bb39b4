"""P30: the training step (trainer/base.py): bad values, failures on one rank, accumulation, reported means."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.harness import *
from symx import symtorch as st, world as W, simfs, simcuda as G, sreal
from types import SimpleNamespace as NS
from fractions import Fraction
import torch
import P28_checkpoint as base
from P28_checkpoint import T, Cfg, D, ctxm, files

check = Check("P30", "training step", assumptions=[
    "parameters and data are exact reals plus NaN and the infinities at the injected place; torch.optim.SGD and torch.nn.utils are correct",
    "accelerate averages gradients over ranks, scales the loss by 1/accumulation and skips optimizer calls on non-final micro-batches as documented",
    "<= 5 iterations, <= 2 ranks, <= 4 micro-batches; a failure inside a collective or inside gradient clipping on one rank only is outside the claim",
])
B = "trainer.base:BaseTrainer."
F = [B + "run", B + "_run_train_step", B + "_synchronize_step_validity", B + "_enqueue_step_validity", B + "_drain_pending_step_validity",
     B + "_discard_pending_step_validity", B + "_synchronize_phase_errors", B + "_fetch_batch", B + "_normalize_train_metrics",
     B + "_gather_train_metrics", B + "_clip_gradients", "utils.training_utils:clip_grad_norm", "utils.training_utils:apply_weight_clipping",
     "utils.misc_utils:add_dict_to"]


class Opt:
    """accelerate's optimizer wrapper"""

    def __init__(self, opt, acc, log):
        self.opt, self.acc, self.log, self.step_was_skipped, self.fail = opt, acc, log, False, None

    def step(self):
        if self.acc.sync_gradients:
            if self.fail and self.fail():
                raise ValueError("optimizer")
            self.log.append("step")
            self.opt.step()

    def zero_grad(self, set_to_none=True):
        if self.acc.sync_gradients:
            self.opt.zero_grad(set_to_none=set_to_none)

    def __getattr__(self, n):
        return getattr(self.opt, n)


class Stream:
    """a resumable stream: commits are what training tells it"""
    capabilities = NS(resumable=True)

    def __init__(self, log):
        self.log, self.committed_epoch, self.done = log, 0, []

    def prepare_commit(self, tokens):
        self.log.append(("prepare", tuple(t.batch_index for t in tokens)))
        return NS(before_digest=len(self.done), after_digest=tokens[-1].after_digest, token_count=len(tokens), tokens=list(tokens))

    def commit_prepared(self, p):
        self.log.append(("commit", tuple(t.batch_index for t in p.tokens)))
        self.done += [t.batch_index for t in p.tokens]
        self.committed_epoch = p.tokens[-1].epoch


def trainer(c, fs, cfg, world, rank, init, data, o):
    """a trainer of base.make with accelerate's accumulation, gradient averaging and hooks for faults"""
    t = base.make(fs, cfg, world, rank, init, data)
    acc, A = t.accelerator, cfg.accum
    t.log, t.micro, t.seen = [], 0, []
    if A > 1 or world.n > 1:
        @contextlib.contextmanager
        def accumulate(*m):
            t.micro += 1
            acc.sync_gradients = t.micro % A == 0
            yield
        acc.accumulate = accumulate

    def backward(l):
        (l / A).backward()
        if world.n > 1 and acc.sync_gradients:
            for m in t.models.values():
                for p in m.parameters():
                    if p.grad is not None:
                        p.grad = acc.reduce(p.grad, reduction="mean")
    acc.backward = backward
    acc.clip_grad_norm_ = lambda ps, max_norm, norm_type=2: repo("utils.training_utils").clip_grad_norm(ps, max_norm, norm_type)
    acc.clip_grad_value_ = lambda ps, clip_value: torch.nn.utils.clip_grad_value_(ps, clip_value, foreach=False)
    t.optimizers = {k: Opt(v, acc, t.log) for k, v in t.optimizers.items()}
    t._validate = lambda: t.log.append(("val", t.state.iteration))
    t._clip_gradients = lambda parameters=None: torch.zeros((), dtype=D)

    def train_step(batch, **kw):
        x = sum((t.data[i] for i in batch[1:]), t.data[batch[0]])
        t.seen.append((t.state.iteration, tuple(batch)))
        loss = None
        for k, m in t.models.items():
            l = (m.w * x).sum()
            loss = l if loss is None else loss + l
        return loss, {"loss": loss.detach()}, {"aux": x[0] * 2, "n": len(batch)}
    t.train_step = train_step
    if o is not None:
        o(t, rank)
    return t


def drive(c, fs, cfg, n, init, data, o=None, go=None):
    world = W.World(n)
    ts = [None] * n

    def body(r):
        t = ts[r] = trainer(c, fs, cfg, world, r, init, data[r], o)
        return (go or (lambda t: t.run()))(t)
    saved = W.patch(T(), world, [NS(gather_object=lambda o, r=r: ts[r].accelerator.gather_object(o) if ts[r] else accs[r].gather_object(o)) for r in range(n)])
    accs = [W.Accelerator(world, r) for r in range(n)]
    try:
        if n == 1:
            world.current = 0
            err = None
            try:
                body(0)
            except SymxError:
                raise
            except BaseException as e:
                err = e
            return ts, [err], world
        world.run(body)
        return ts, world.errors, world
    finally:
        W.unpatch(T(), saved)


def committed(fs):
    return sorted(int(f.rsplit("_", 1)[1][:7]) for f in files(fs) if f.endswith(".pt") and (f.startswith("state_") or f.startswith("ckpt_")))


BAD = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}


@check.obligation("a bad value stops the run", functions=F, budget=200, max_paths=1500, bounds=(
    "5 iterations; NaN or an infinity in the loss, a loss metric, an aux metric or only the gradient, at any iteration or none; log, validation and "
    "save intervals from {1,2,3,never}; all parameters and data"))
def bad_value(c):
    where = c.choose("where", ["loss", "loss metric", "aux", "gradient"])
    val = BAD[c.choose("value", list(BAD))] if where != "gradient" else BAD["inf"]
    save, vali, log = c.choose("intervals", [(100, 100, 100), (1, 100, 2), (3, 100, 1), (100, 1, 100), (100, 2, 3), (2, 3, 100), (3, 2, 2)])
    k = c.zint("at", 1, 6)
    cfg = Cfg(5, save, 100, None, -1)
    with ctxm(c):
        init, data = base.inputs(c, samples=4)
        fs = simfs.FS(c)

        def o(t, r):
            t.val_interval, t.val_loader, t.log_interval = vali, [1], log
            real = t.train_step
            t._log_metrics = lambda *a: None
            if where == "gradient":
                t._clip_gradients = lambda parameters=None: sum((p.grad.abs().sum() for p in t._all_trained_parameters()), torch.zeros((), dtype=D))

            def step(batch, **kw):
                loss, l, a = real(batch)
                if bool(k == t.state.iteration):
                    if where == "loss":
                        loss = loss + val
                    elif where == "loss metric":
                        l["loss"] = l["loss"] + val
                    elif where == "aux":
                        a["extra"] = a["aux"] * val if False else torch.full((), val, dtype=D)
                    else:
                        t.models["net"].w.register_hook(lambda g: g + val)
                if where == "aux":
                    a.setdefault("extra", torch.zeros((), dtype=D))
                return loss, l, a
            t.train_step = step
        try:
            with simfs.install(fs):
                ts, errs, w = drive(c, fs, cfg, 1, init, data, o)
                t, e = ts[0], errs[0]
                due = [i for i in range(1, 6) if i % save == 0] + ([5] if 5 % save else [])
                vals = [i for i in range(1, 6) if i % vali == 0]
                if bool(k > 5):
                    c.check(e is None, f"a healthy run ends: {e}")
                    c.check(sorted(set(committed(fs))) == due, "every due checkpoint")
                    c.check([x[1] for x in t.log if x[0] == "val"] == vals, "every due validation")
                    return
                k_ = next(i for i in range(1, 6) if bool(k == i))
                c.check(isinstance(e, RuntimeError) and "non-finite" in str(e), f"the run is stopped: {e!r}")
                c.check(f"iteration {k_} " in str(e), f"the message names iteration {k_}: {e}")
                c.check(sorted(set(committed(fs))) == [i for i in due if i < k_], f"nothing of iteration {k_} or later is committed: {files(fs)}")
                c.check([x[1] for x in t.log if x[0] == "val"] == [i for i in vals if i < k_], "no validation of iteration %d or later" % k_)
                c.check(max(i for i, _ in t.seen) <= k_ + 1, "the run stops within one further step")
        finally:
            fs.close()


FAULTS = ["pre hook", "train step", "loss shape", "loss grad", "metric", "metric key", "schema", "nan loss", "nan metric", "optimizer", "post hook", "fetch", "empty", "token"]


def ranks(c, n, stream, accs):
    kind = c.choose("fault", FAULTS if stream else FAULTS[:-1])
    A = c.choose("accum", accs)
    who = c.choose("rank", range(n))
    k = c.zint("at", 1, 3)
    micro = 0 if kind in ("optimizer", "post hook") else c.choose("micro", range(A))
    if n == 1 and kind in ("schema", "token"):
        c.assume(False)
    cfg = Cfg(3, 1, 100, None, -1, A)
    with ctxm(c):
        init, data = base.inputs(c, n=n, samples=4 * n * A)
        fs = simfs.FS(c)
        after = {}

        def o(t, r):
            me = r == who
            hit = lambda m=None: me and bool(k == t.state.iteration) and (m is None or t.calls == m)
            t.calls = -1
            real = t.train_step
            if stream:
                t._resume_sampler, t._resume_stream, t.n = None, Stream(t.log), 0
                t._save_checkpoint = lambda **kw: (t.log.append(("saved", t.state.iteration)), setattr(t, "_last_state_save_iteration", t.state.iteration))

            def fresh():
                t.it_now = t.state.iteration
                t.calls = -1

            class L:
                def __iter__(s):
                    def g():
                        it = None if stream else iter(src)
                        while True:
                            b = None if stream else next(it, None)
                            if b is None and not stream:
                                return
                            # fetches for micro-step 0 happen before the counter moves
                            step = t.n_f // A + 1
                            m = t.n_f % A
                            f = me and bool(k == step) and m == micro
                            t.n_f += 1
                            if f and kind == "fetch":
                                raise OSError("unreadable")
                            if f and kind == "empty":
                                t.dry = True
                            if t.dry:
                                return
                            if stream:
                                i = t.n_f - 1
                                yield repo("dataset.stream").BatchEnvelope([2 * i % len(data[r]), (2 * i + 1) % len(data[r])], NS(
                                    epoch=0, batch_index=i, before_digest=i, after_digest=i + (1000 if f and kind == "token" else 1)), None, ())
                            else:
                                yield b
                    return g()
            src = t.train_loader
            t.n_f, t.dry, t.train_loader = 0, False, L()

            def step(batch, **kw):
                t.calls = (t.calls + 1) % A
                h = hit(micro)
                if h and kind == "train step":
                    raise ValueError("forward")
                loss, l, a = real(batch)
                if h and kind == "loss shape":
                    loss = loss.reshape(1)
                if h and kind == "loss grad":
                    loss = loss.detach()
                if h and kind == "metric":
                    l["loss"] = "0.5"
                if h and kind == "metric key":
                    a[3] = 1.0
                if kind == "schema" and me:
                    a["mine"] = 1.0
                if h and kind == "nan loss":
                    loss = loss + float("nan")
                if h and kind == "nan metric":
                    l["loss"] = torch.full((), float("inf"), dtype=D)
                return loss, l, a
            t.train_step = step

            def pre(d):
                if me and bool(k == t.state.iteration) and (t.calls + 1) % A == micro and kind == "pre hook":
                    raise ValueError("before")
                return {}
            t.on_before_step = pre

            def post(d):
                if kind == "post hook" and hit():
                    raise ValueError("after")
            t.on_after_step = post
            if kind == "optimizer":
                t.optimizers["main"].fail = lambda: hit()
            orig = t._run_train_step
            if r == 0:
                after[0] = [st.vals(m.w.detach()) for m in t.models.values()]

            def whole(d):
                x = orig(d)
                if r == 0:
                    after[t.state.iteration] = [st.vals(m.w.detach()) for m in t.models.values()]
                return x
            t._run_train_step = whole
        try:
            with simfs.install(fs):
                ts, errs, w = drive(c, fs, cfg, n, init, data, o)
                k_ = next(i for i in range(1, 4) if bool(k == i))
                if kind == "schema":
                    k_ = 1
                c.check(w.stuck is None, f"ranks wait for each other for ever: {w.stuck}")
                late = n == 1 and kind.startswith("nan") and micro == A - 1
                for t, e in zip(ts, errs):
                    c.check(isinstance(e, RuntimeError), f"every rank stops: {e!r}")
                    if n > 1 and kind not in ("schema", "token", "empty"):
                        c.check(f"rank {who}" in str(e), f"the failing rank is named on every rank: {e}")
                    done = sum(1 for x in t.log if x == "step")
                    if kind == "optimizer":
                        c.check(done in (k_ - 1, k_), "the other ranks' optimizers stop too")
                    elif kind == "post hook":
                        c.check(done == k_, "the step was made")
                    elif not late:
                        c.check(done == k_ - 1, "no optimizer step for a failed training step")
                        for m, v in zip(t.models.values(), after[k_ - 1]):
                            c.check(sand(*[eq(x, y) for x, y in zip(st.vals(m.w.detach()), v)]), "the weights are those of the last good step")
                    if not late:
                        c.check(t.state.iteration == k_ - 1 and t.state.rows == (k_ - 1) * A * 2 * n, "the failed step is not counted")
                        if stream:
                            c.check(t._resume_stream.done == list(range((k_ - 1) * A)), "only the batches of good steps are committed")
                        else:
                            s = t._resume_sampler
                            c.check(s.epoch * 4 * A + s.offset == (k_ - 1) * A * 2, f"the data position is that of the last good step: {s.epoch} {s.offset}")
                            if k_ < 3 and kind not in ("fetch", "empty"):
                                fresh = repo("utils.training_utils").ResumableSampler(list(range(len(data[0]))), shuffle=True, seed=3, rank=t.accelerator.process_index, world_size=n)
                                c.check(list(iter(s)) == list(iter(fresh))[(k_ - 1) * A * 2:], "a further attempt draws the failed step's samples again")
                if stream:
                    saved = [x[1] for x in ts[0].log if x[0] == "saved"]
                else:
                    saved = sorted({i for i in committed(fs)})
                c.check([s for s in saved if s] == list(range(1, k_)), f"only good steps are committed: {saved}")
        finally:
            fs.close()


@check.obligation("one rank fails", functions=F, budget=240, max_paths=1500, bounds=(
    "2 ranks, 1-2 micro-batches, 3 iterations; one rank fails at any step and micro-step in a hook, forward, with a malformed or non-finite loss or metric, "
    "a different metric schema, in the optimizer, in the loader or with an empty loader; all parameters and data"))
def one_rank(c):
    ranks(c, 2, False, [1, 2])


@check.obligation("one rank fails, stream", functions=F, budget=240, max_paths=1500, bounds="the same with a resumable stream, whose tokens may differ between the ranks; 2 micro-batches")
def one_rank_stream(c):
    ranks(c, 2, True, [2])


@check.obligation("a single process fails", functions=F, budget=240, max_paths=1500, bounds="the same faults in a single process; 1-2 micro-batches; sampler and stream")
def one_process(c):
    ranks(c, 1, c.choose("stream", [False, True]), [1, 2])


@check.obligation("late readback", functions=[B + "_enqueue_step_validity", B + "_drain_pending_step_validity", B + "_discard_pending_step_validity"],
                  budget=100, max_paths=600, bounds=(
    "a CUDA device: 4 steps, each queueing its result and draining - everything at any subset of the steps; every schedule of the copies; one result "
    "bad or none; a discarded attempt before"))
def readback(c):
    N = 4
    sim = G.Sim(c)
    k = c.zint("bad", 1, N + 1)
    full = [c.choose(f"full{i}", [False, True]) for i in range(1, N + 1)]
    again = c.choose("after_a_discarded_attempt", [False, True])
    real_empty = torch.empty

    def empty(*a, **kw):
        c.check(kw.get("pin_memory") is True and kw.get("dtype") is torch.bool, "the slot is pinned host memory")
        r = G.CudaT.make(sim)
        r.host = True
        return r
    with ctxm(c), G.install(sim):
        torch.empty = empty
        try:
            t = object.__new__(T().BaseTrainer)
            t.accelerator = NS(device=G.Dev(), num_processes=1, process_index=0)
            t.state = T().TrainingState()
            t._validity_check_slots, t._validity_check_counter, t._validity_checks_in_flight, t._known_divergent = None, 0, [], False
            G.CudaT.item = lambda s: bool(s.mem.at(sim.advance()) == 1)      # a host read sees whatever has arrived
            G.CudaT.is_pinned = lambda s: True
            G.CudaT.__bool__ = lambda s: s.item()
            if again:
                f = G.CudaT.make(sim)
                f.put(0)
                t._enqueue_step_validity(f, phase="old")
                t._discard_pending_step_validity()
                c.check(not t._validity_checks_in_flight, "a new attempt starts with nothing queued")
            for i in range(1, N + 1):
                t.state.iteration = i
                f = G.CudaT.make(sim)                   # every step's result is a fresh tensor
                f.put(ite(k == i, 0, 1))
                t._enqueue_step_validity(f, phase="p")
                try:
                    t._drain_pending_step_validity(include_current=full[i - 1])
                except RuntimeError as e:
                    j = next((j for j in range(1, N + 1) if bool(k == j)), None)
                    c.check(j is not None, f"a good run is stopped: {e}")
                    c.check(j in (i, i - 1), "the stop comes at most one step late")
                    c.check(f"iteration {j} " in str(e), f"the message names iteration {j}: {e}")
                    c.check(t._known_divergent is True, "the run is marked divergent")
                    return
                c.check(k >= (i + 1 if full[i - 1] else i), "a bad result is noticed before a validation, a checkpoint or a second step")
        finally:
            torch.empty = real_empty
            for n in ("item", "is_pinned", "__bool__"):
                if n in G.CudaT.__dict__:
                    delattr(G.CudaT, n)


@check.obligation("accumulation", functions=F, budget=200, max_paths=400, bounds=(
    "1-2 ranks, 1, 2 or 4 micro-batches, 2 optimizer steps with momentum and a step schedule; all parameters and data: weights, learning rate, metrics"))
def accumulation(c):
    n, A = c.choose("n_A", [(1, 1), (1, 2), (1, 4), (2, 1), (2, 2)])
    skipped = c.choose("skipped", [False, True]) if n == 1 and A == 1 else False
    cfg = Cfg(2, 100, 100, None, -1, A)
    with ctxm(c):
        init, data = base.inputs(c, n=n, samples=4 * n * A)
        fs = simfs.FS(c)
        got = [[] for _ in range(n)]

        def o(t, r):
            orig = t._run_train_step
            if skipped:
                t.optimizers["main"].step_was_skipped = True
            t._save_checkpoint = lambda **kw: None

            def whole(d):
                lr = t.optimizers["main"].param_groups[0]["lr"]
                x = orig(d)
                got[r].append((x, lr, st.vals(t.models["net"].w.detach())))
                return x
            t._run_train_step = whole
        try:
            with simfs.install(fs):
                ts, errs, w = drive(c, fs, cfg, n, init, data, o)
                for e in errs:
                    if e is not None:
                        raise e
                R = sreal
                w0 = list(init["net"])
                buf = None
                for it in (1, 2):
                    batches = [[b for i, b in t.seen if i == it] for t in ts]
                    c.check(all(len(b) == A for b in batches), "A micro-batches for one step")
                    col = lambda i, j, r: st.vals(data[r][i])[j]
                    g = [R.div(R.add(*[col(i, j, r) for r, bs in enumerate(batches) for b in bs for i in b]), n * A) for j in range(2)]
                    for r in range(n):
                        (ld, ad), lr, wv = got[r][it - 1]
                        loss = R.div(R.add(*[R.mul(w0[j], col(i, j, r)) for b in batches[r] for i in b for j in range(2)]), A)
                        c.check(st.close(st.vals(ld["loss"])[0], loss), "the loss is the mean over the micro-batches")
                        aux = R.div(R.add(*[R.mul(2, col(i, 0, r)) for b in batches[r] for i in b]), A)
                        c.check(st.close(st.vals(ad["aux"])[0], aux), "metrics are means over the micro-batches")
                        c.check(st.close(st.vals(ad["n"])[0], 2), "plain numbers are averaged too")
                    buf = g if buf is None else [R.add(R.mul(0.5, b), x) for b, x in zip(buf, g)]
                    w0 = [R.sub(x, R.mul(0.25, b)) for x, b in zip(w0, buf)]
                    for r in range(n):
                        for x, y in zip(got[r][it - 1][2], w0):
                            c.check(st.close(x, y), "one SGD step on the mean gradient of all micro-batches and ranks")
                c.check(ts[0].log == ["step"] * 2, "one optimizer step per iteration")
                lr = ts[0].optimizers["main"].param_groups[0]["lr"]
                c.check(lr == (0.25 if skipped else 0.125), "the schedule advances once per step that was made")
        finally:
            fs.close()


@check.obligation("clipping", functions=F, budget=200, max_paths=400, bounds="3 gradients over two tensors, one without; max norm any positive number or none; value clipping; weight clipping; all values")
def clipping(c):
    U = repo("utils.training_utils")
    with ctxm(c):
        ps = [torch.nn.Parameter(st.real_tensor(c, f"p{i}", (2 - i,), D, lo=-9, hi=9)) for i in range(2)] + [torch.nn.Parameter(st.real_tensor(c, "q", (1,), D, lo=-9, hi=9))]
        gs = [st.real_tensor(c, f"g{i}", (2 - i,), D, lo=-9, hi=9) for i in range(2)]
        for p, g in zip(ps, gs):
            p.grad = g.clone()
        t = object.__new__(T().BaseTrainer)
        t.accelerator = W.Accelerator(W.World(1), 0)
        t.models = {"m": NS(parameters=lambda: iter(ps))}
        how = c.choose("how", ["none", "norm", "value"])
        m = c.choose("max", ["1", "3", "1/2"])
        t.clip_grad_norm = t.clip_grad_value = None
        cuts = []
        t.accelerator.clip_grad_value_ = lambda params, clip_value: cuts.append((list(params), clip_value))
        if how == "norm":
            t.clip_grad_norm = float(Fraction(m))
        if how == "value":
            t.clip_grad_value = 0.5
        flat = [x for g in gs for x in st.vals(g)]
        R = sreal
        n = st.vals(t._clip_gradients())[0]
        c.check(sand(R.ge(n, 0), st.close(R.sq(n), R.add(*[R.sq(x) for x in flat]))), "the reported norm is the gradient norm before clipping")
        out = [x for p in ps[:2] for x in st.vals(p.grad)]
        c.check(ps[2].grad is None, "a parameter without gradient stays without")
        if how == "norm":
            lim = R.add(n, Fraction(1e-6) if c.symbolic else 1e-6)
            mm = Fraction(m)
            if bool(R.ge(mm, lim)):
                c.check(sand(*[st.close(a, b) for a, b in zip(out, flat)]), "a gradient within the limit is untouched")
            else:
                c.check(sand(*[st.close(R.mul(a, lim), R.mul(b, mm)) for a, b in zip(out, flat)]), "a larger gradient keeps its direction and gets the maximal norm")
        else:
            c.check(sand(*[st.close(a, b) for a, b in zip(out, flat)]), "nothing is scaled")
        c.check(len(cuts) == (1 if how == "value" else 0) and all(len(x[0]) == 3 and x[1] == 0.5 for x in cuts), "value clipping is delegated for every parameter")


@check.obligation("reported means", functions=F, budget=200, max_paths=400, bounds=(
    "1-2 ranks, 5 iterations, log and display intervals from {1,2,3}; all losses: each report is the mean over all ranks and every iteration since the last"))
def means(c):
    n = c.choose("ranks", [1, 2])
    log, show = c.choose("intervals", [(1, 1), (2, 2), (2, 3), (3, 1), (3, 2), (1, 3)])
    cfg = Cfg(5, 100, 100, None, -1)
    with ctxm(c):
        init = {"net": [c.real(f"w{i}", -4, 4) for i in range(2)]}
        data = [[torch.zeros(2, dtype=D) for _ in range(2 * n)] for _ in range(n)]
        v = [[c.real(f"v{r}_{i}", -9, 9) for i in range(6)] for r in range(n)]
        fs = simfs.FS(c)

        def o(t, r):
            t.log_interval, t.show_interval = log, show
            t.out = []
            real = t.train_step
            t._save_checkpoint = lambda **kw: None

            def step(b, **kw):
                l, ld, ad = real(b)
                i = t.state.iteration
                return l, {"loss": ld["loss"] * 0 + v[r][i]}, {"b": torch.zeros((), dtype=D) + v[r][i] * 2, "a": i}
            t.train_step = step
            t._log_metrics = lambda a, b: t.out.append(("log", t.state.iteration, a, b))
            t._show_progress = lambda a: t.out.append(("show", t.state.iteration, a, None))
        try:
            with simfs.install(fs):
                ts, errs, w = drive(c, fs, cfg, n, init, data, o)
                for e in errs:
                    if e is not None:
                        raise e
                for t in ts:
                    last, want = 0, []
                    for i in range(1, 6):
                        if i % log == 0 or i % show == 0:
                            span = range(last + 1, i + 1)
                            m = sum((v[r][j] for r in range(n) for j in span), 0) / (n * len(span))
                            k = sum(span) / len(span)
                            want += ([("log", i, m, k)] if i % log == 0 else []) + ([("show", i, m, k)] if i % show == 0 else [])
                            last = i
                    c.check([x[:2] for x in t.out] == [x[:2] for x in want], "reports at the configured iterations")
                    for (kind, i, a, b), (_, _, m, k) in zip(t.out, want):
                        c.check(sand(set(a) == {"loss"}, st.close(a["loss"], m)), "the reported loss is the mean since the last report over all ranks")
                        if kind == "log":
                            c.check(sand(set(b) == {"a", "b"}, st.close(b["b"], m * 2), st.close(b["a"], k)), "so is every other metric")
        finally:
            fs.close()


if __name__ == "__main__":
    check.main()
