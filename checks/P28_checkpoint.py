"""P28: checkpoints - crash anywhere, resume, same training (trainer/base.py, utils/file_utils.py)."""
import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *
from symx import symtorch as st, world as W, simfs
from types import SimpleNamespace as NS
import torch

check = Check("P28", "crash-safe checkpoints", assumptions=[
    "a crash is the death of the process between (or in the middle of) two file system effects; effects that happened are on disk in "
    "order (no reordering of unsynchronised writes by a power failure); rename and link are atomic",
    "model parameters, optimizer moments and training data are exact reals; torch.save/torch.load carry any value unchanged",
    "CPU device: the writer commits in place (the background path is P29); <= 6 iterations, <= 2 models, <= 2 ranks",
])
F = ["trainer.base:BaseTrainer.run", "trainer.base:BaseTrainer._save_checkpoint", "trainer.base:BaseTrainer._save_checkpoint_main",
     "trainer.base:BaseTrainer._load_checkpoint", "trainer.base:BaseTrainer._load_state_checkpoint",
     "trainer.base:BaseTrainer._cleanup_checkpoints", "trainer.base:BaseTrainer._build_training_state",
     "trainer.base:BaseTrainer._local_resume_state", "trainer.base:BaseTrainer._restore_continuation_state",
     "trainer.base:BaseTrainer._validate_rank_resume_states", "trainer.base:BaseTrainer._validate_committed_checkpoint_set",
     "trainer.base:BaseTrainer._write_vq_runtime_sidecar", "trainer.base:BaseTrainer._validate_retained_vq_runtime_manifest",
     "trainer.base:BaseTrainer._run_train_step", "trainer.base:BaseTrainer._fetch_batch", "trainer.base:_atomic_torch_save",
     "utils.file_utils:save_torch_ckpt", "utils.file_utils:load_torch_ckpt", "utils.file_utils:find_latest_ckpt",
     "utils.async_checkpoint:AsyncCheckpointWriter.submit"]
D = torch.float64


def T():
    return repo("trainer.base")


class Net(torch.nn.Module):
    def __init__(self, vals, vq=0):
        super().__init__()
        self.vq = None
        if vq:
            self.vq = repo("model.vq").VectorQuantize(vq, 2, convert_to_fp32=False).double()
            if ctx().symbolic:
                for tab, k in ((self.vq._parameters, "embed"), (self.vq._buffers, "embed_avg"), (self.vq._buffers, "cluster_size")):
                    z = st.mk(np.array(tab[k].detach().numpy().astype(object)), D)
                    tab[k] = torch.nn.Parameter(z, requires_grad=False) if tab is self.vq._parameters else z
        self.name = "net"
        self.w = torch.nn.Parameter(torch.zeros(2, dtype=D))
        self.register_buffer("seen", torch.zeros((), dtype=D))
        put(self, vals)


def put(net, vals):
    c = ctx()
    net.w = torch.nn.Parameter(st.make(c, list(vals), (2,), D) if c.symbolic else torch.tensor([float(v) for v in vals], dtype=D))
    net.seen = st.make(c, [0], (), D) if c.symbolic else torch.zeros((), dtype=D)


class Loader:
    """one batch of two samples per next(); reads the resumable sampler"""

    def __init__(self, sampler, data):
        self.sampler, self.data, self.dataset = sampler, data, NS()

    def __iter__(self):
        def g():
            it = iter(self.sampler)
            while True:
                b = []
                for i in it:
                    b.append(int(i))
                    if len(b) == 2:
                        break
                if len(b) < 2:
                    return
                yield b
        return g()


class Died(Exception):
    pass


class Cfg:
    def __init__(self, iters, save, temp, state, keep, accum=1, vq=0):
        self.iters, self.save, self.temp, self.state, self.keep, self.accum, self.vq = iters, save, temp, state, keep, accum, vq


def make(fs, cfg, world, rank, init, data, fail=None):
    """a trainer as a fresh process would construct it, then resumed by the real code"""
    B = T().BaseTrainer
    U = repo("utils.training_utils")

    class X(B):
        def train_step(self, batch, **kw):
            if fail == ("fwd", self.state.iteration):
                raise ValueError("boom")
            x = sum((self.data[i] for i in batch[1:]), self.data[batch[0]])
            noise = random.random() + float(torch.rand(())) if world.n == 1 else 0.5    # ranks share the interpreter's generators here
            loss = None
            for k, m in self.models.items():
                l = (m.w * x).sum() * (1 + noise) + m.w[0] * 0.5 * m.seen
                m.seen = m.seen + 1
                if m.vq is not None and not m.vq.is_initialized():
                    m.vq(x.detach().reshape(1, 2))
                loss = l if loss is None else loss + l
            self.trace.append(tuple(batch))
            return loss, {"loss": loss.detach()}, {}

        def on_after_step(self, d):
            if fail == ("after", self.state.iteration):
                raise ValueError("late")

        def _clip_gradients(self, parameters=None):
            return torch.zeros((), dtype=D)

        def _show_progress(self, *a):
            pass

        _log_metrics = _show_progress

        def _unwrap(self, m):
            return m
    t = object.__new__(X)
    acc = W.Accelerator(world, rank)
    acc.scaler, acc.sync_gradients, acc.mixed_precision = None, True, "no"
    acc.accumulate = lambda *m: contextlib.nullcontext()
    acc.backward = lambda l: (l * (1.0 / cfg.accum)).backward()
    acc.print = lambda *a: t.said.append(" ".join(map(str, a)))
    t.said, t.trace, t.data = [], [], data
    t.accelerator, t.rundir = acc, os.path.join(fs.root, "run")
    t.use_cpu = True
    t.model_name, t.load_from = "net", None
    t.models = {k: Net(v, cfg.vq) for k, v in init.items()}
    t.aux_models = {}
    t.iterations, t.batch_size, t.batch_size_per_process = cfg.iters, 2 * world.n, 2
    t.gradient_accumulation_steps = cfg.accum
    t.save_interval, t.temp_save_interval, t.state_save_interval, t.num_keep_states = cfg.save, cfg.temp, cfg.state, cfg.keep
    t.log_interval = t.show_interval = t.val_interval = 100
    t.val_loader, t.tb_logger, t.log_file = None, NS(close=lambda: None), NS(close=lambda: None)
    t.optim_type, t.optim_args, t.weight_decay, t.clip_grad_norm, t.clip_grad_value = "sgd", {}, 0.0, None, None
    t._weight_clip_groups = []
    t.lr_scheduler_type, t.lr_scheduler_args = "step", {"step_size": 2, "step_gamma": 0.5}
    t.profiler = T().NULL_PROFILER
    t.state = T().TrainingState()
    for k, v in dict(_pending_resume_state=None, _pending_resume_version=None, _pending_scheduler_states=None, _pending_runtime_lrs=None,
                     _last_state_save_iteration=None, _checkpoint_attempt_failed=False, _checkpoint_safe=False, _known_divergent=False,
                     _optimizer_state_mutated=False, _resume_states_for_save=None, _validity_check_slots=None, _validity_check_counter=0,
                     _validity_checks_in_flight=[], _temp_snapshot_iters=set(), _async_checkpoint_writer=None, _exact_resume_reason=None,
                     _resume_stream=None, train_dataset=NS(), dataset_type="x", train_datas=[], num_worker=0,
                     _data_stream_signature={"kind": "map", "n": len(data)}, _inited=True).items():
        setattr(t, k, v)
    t._resume_sampler = U.ResumableSampler(list(range(len(data))), shuffle=True, seed=3, rank=rank, world_size=world.n)
    t.train_loader = Loader(t._resume_sampler, data)
    ps = [p for m in t.models.values() for p in m.parameters()]
    t.optimizers = {"main": torch.optim.SGD(ps, lr=0.25, momentum=0.5, foreach=False)}
    t._optimizer_config = t._current_optimizer_config()
    random.seed(7 + rank)
    torch.manual_seed(7 + rank)
    np.random.seed(7)
    t._load_checkpoint()
    t._setup_scheduler()
    return t


def snap(t):
    """everything a continued run depends on"""
    r = {"it": t.state.iteration, "rows": t.state.rows, "epoch": t.state.epoch, "lr": t.optimizers["main"].param_groups[0]["lr"],
         "cursor": (t._resume_sampler.epoch, t._resume_sampler.offset)}
    v = []
    for m in t.models.values():
        v += st.vals(m.w.detach()) + st.vals(m.seen)
        if m.vq is not None:
            r["vq"] = bool(m.vq.inited)
            v += st.vals(m.vq.embed.detach()) + st.vals(m.vq.cluster_size)
    for s in t.optimizers["main"].state_dict()["state"].values():
        b = s.get("momentum_buffer")
        v += st.vals(b) if b is not None else ["none"]
    return r, v


def same_snap(c, a, b, what):
    if a[0] != b[0]:
        c.fail(f"{what}: {a[0]} instead of {b[0]}")
    c.check(sand(*[eq(x, y) if not isinstance(x, str) and not isinstance(y, str) else type(x) is type(y) for x, y in zip(a[1], b[1])]) if len(a[1]) == len(b[1]) else False,
            f"{what}: restored tensors differ")


def session(c, fs, cfg, n, init, data, fail=None, record=None, until=None):
    """one process (or process group) started on the directory; returns (trainers, errors)"""
    world = W.World(n)
    ts = [None] * n

    def body(r):
        t = ts[r] = make(fs, cfg, world, r, init, data[r], fail)
        start.append(snap(t))
        if record is not None and r == 0:
            orig = t._run_train_step

            def step(d):
                o = orig(d)
                record[t.state.iteration] = snap(t)
                return o
            t._run_train_step = step
        t.run()
    start = []
    accs = {}
    saved = W.patch(T(), world, [NS(gather_object=lambda o, r=r: ts_acc(r).gather_object(o)) for r in range(n)])

    def ts_acc(r):
        if r not in accs:
            accs[r] = W.Accelerator(world, r)
        return accs[r]
    try:
        if n == 1:
            world.current = 0
            err = None
            try:
                body(0)
            except SymxError:
                raise
            except BaseException as e:
                err = e
            errs = [err]
        else:
            world.run(body)
            errs = world.errors
    finally:
        W.unpatch(T(), saved)
    return ts, errs, start, world


def inputs(c, models=("net",), n=1, samples=6):
    init = {k: [c.real(f"w_{k}_{i}", -4, 4) for i in range(2)] for k in models}
    data = [[st.real_tensor(c, f"x_{r}_{i}", (2,), D, lo=-4, hi=4) if r == 0 else None for i in range(samples)] for r in range(n)]
    for r in range(1, n):
        data[r] = data[0]
    return init, data


def ctxm(c):
    return st.mode() if c.symbolic else contextlib.nullcontext()


def files(fs):
    d = os.path.join(fs.root, "run", "ckpts")
    return sorted(os.listdir(d)) if os.path.isdir(d) else []


def expected_files(cfg, models, permanent_only=False):
    """documented directory contents after a complete run without interruption"""
    due = [i for i in range(1, cfg.iters + 1) if i % cfg.save == 0 or i % cfg.temp == 0 or (cfg.state and i % cfg.state == 0)]
    states = [i for i in due if cfg.state is None or i % cfg.state == 0]
    if cfg.iters not in states:
        states.append(cfg.iters)
        if cfg.iters not in due:
            due.append(cfg.iters)
    keep = states[-cfg.keep:] if cfg.keep > 0 else states if cfg.keep < 0 else []
    want = {f"state_{i:07d}.pt" for i in keep}
    for i in due:
        if i % cfg.save == 0 or i in keep or i == max(due):
            want |= {f"ckpt_{m}_{i:07d}.pt" for m in models}
    return want, keep


def audit(c, fs, cfg, models, exact=True):
    got = files(fs)
    want, keep = expected_files(cfg, models)
    plain = {f for f in got if not f.startswith("runtime_") and not f.endswith(".tmp")}
    missing = want - plain
    c.check(not missing, f"missing after the run: {sorted(missing)}")
    if exact:
        c.check(plain == want, f"unexpected files: {sorted(plain - want)}")
    extra_states = {f for f in plain if f.startswith("state_")} - want
    c.check(not extra_states, f"states beyond the configured number: {sorted(extra_states)}")
    side = [f for f in got if f.startswith("runtime_") or f.startswith(".runtime")]
    bad = [f for f in side if not any(f.startswith(f"runtime_{i:07d}_") for i in keep)]
    c.check(not bad, f"orphaned runtime files: {bad}")


CFGS = {
    "every": Cfg(4, 2, 1, None, 1),
    "sparse states": Cfg(5, 4, 1, 2, 1),
    "two states": Cfg(4, 100, 1, None, 2),
    "odd end": Cfg(5, 3, 2, None, 1),
    "vq": Cfg(4, 100, 1, None, 1, vq=3),
    "two": Cfg(2, 100, 1, None, 1),
    "accum": Cfg(3, 100, 1, None, 1, 2),
    "all states": Cfg(4, 2, 1, None, -1),
}


def crash_run(c, cfg, models, fault, second=False, n=1):
    """run - crash (or fail) at an arbitrary file system effect - start again - compare with the uninterrupted run"""
    T()
    with ctxm(c):
        init, data = inputs(c, models, n)
        ref = {}
        fs0 = simfs.FS(c)
        try:
            with simfs.install(fs0):
                ts, errs, start, w = session(c, fs0, cfg, n, init, data, record=ref)
            for e in errs:
                if e is not None:
                    raise e
            ref[0] = start[0]
            total = fs0.n
            audit(c, fs0, cfg, models)
        finally:
            fs0.close()
        k = c.zint("crash", 1, total)
        fs = simfs.FS(c, **{("crash_at" if fault == "crash" else "fail_at"): k})
        try:
            with simfs.install(fs):
                ts, errs, start, w = session(c, fs, cfg, n, init, data)
                c.check(w.stuck is None, f"ranks wait for each other for ever: {w.stuck}")
                c.check(fs.hit is not None, "the run makes the same effects again")
                if all(e is None for e in errs):
                    # the code may retry or do without; then nothing may be lost
                    c.check(fault == "failure", "a dead process cannot finish")
                    same_snap(c, snap(ts[0]), ref[cfg.iters], f"end of a run that made light of a failure at {fs.hit}")
                    audit(c, fs, cfg, models)
                    return
                log = list(fs.log)
                fs.revive()
                committed = [0] + [int(f[6:13]) for what, f in (log[:-1] if fs.hit == log[-1] else log)
                                   if what in ("replace", "rename") and f.startswith("state_")]
                if fault == "failure":
                    i = log.index(fs.hit)
                    committed = [0] + [int(f[6:13]) for j, (what, f) in enumerate(log) if what in ("replace", "rename") and f.startswith("state_") and j != i]
                before = set(files(fs))
                complete(c, fs, ref, models, f"{fault} at {fs.hit}")
                ts, errs, start, w = session(c, fs, cfg, n, init, data)
                for e in errs:
                    if e is not None:
                        c.fail(f"after a {fault} at {fs.hit} the run cannot be continued: {type(e).__name__}: {e}")
            at = start[0][0]["it"]
            c.check(at == max(committed), f"{fault} at {fs.hit}: continued from iteration {at}, the newest committed state is {max(committed)}")
            same_snap(c, start_resumed(ts[0], start[0], ref[at]), start_resumed(ts[0], ref[at], ref[at]), f"state loaded after {fault} at {fs.hit}")
            for t in ts[1:]:
                c.check((t._resume_sampler.epoch, t._resume_sampler.offset) == ref[cfg.iters][0]["cursor"], "every rank continues at the same position")
            same_snap(c, snap(ts[0]), ref[cfg.iters], f"end of the run continued after {fault} at {fs.hit}")
            if at < cfg.iters:
                audit(c, fs, cfg, models, exact=False)
            perm = {f for f in before if f.startswith("ckpt_") and f.endswith(".pt") and int(f.split("_")[-1][:7]) % cfg.save == 0}
            c.check(perm <= set(files(fs)), "a permanent snapshot vanished")
        finally:
            fs.close()


def complete(c, fs, ref, models, what):
    """whatever carries a checkpoint's name is that whole checkpoint"""
    fu = repo("utils.file_utils")
    d = os.path.join(fs.root, "run", "ckpts")
    for f in files(fs):
        if not f.endswith(".pt") or not f.startswith(("ckpt_", "state_")):
            continue
        it = int(f.split("_")[-1][:7])
        try:
            if f.startswith("ckpt_"):
                sd, _, meta = fu.load_torch_ckpt(os.path.join(d, f))
                got = st.vals(sd["w"]) + st.vals(sd["seen"])
                j = list(models).index(f[5:-11])
                want = per_model(ref[it][1], models)[j]
                c.check(str(meta.get("iteration")) == str(it), f"{what}: {f} says iteration {meta.get('iteration')}")
                c.check(sand(*[eq(x, y) for x, y in zip(got, want)]), f"{what}: {f} holds other weights")
            else:
                s = torch.load(os.path.join(d, f), map_location="cpu", weights_only=True)
                c.check(int(s["metadata"]["iteration"]) == it, f"{what}: {f} says iteration {s['metadata']['iteration']}")
        except (SymxError, PathInfeasible, Violation):
            raise
        except BaseException as e:
            c.fail(f"{what}: {f} is not a complete checkpoint ({type(e).__name__})")


def per_model(v, models):
    """weights and counter of every model in a snapshot (configurations with a codebook have one model)"""
    return [v[3 * i:3 * i + 3] for i in range(len(models))]


def start_resumed(t, s, ref):
    """the sampler cursor is restored by run(), after loading"""
    r = dict(s[0])
    r.pop("cursor")
    r.pop("epoch")
    return r, s[1]


def reg(name, cfg, models, fault, tier, budget=120, n=1):
    @check.obligation(name, functions=F, tiers=tier, budget=budget, max_paths=400,
                      bounds=f"{CFGS[cfg].iters} iterations, save/temp/state intervals {CFGS[cfg].save}/{CFGS[cfg].temp}/{CFGS[cfg].state}, keep {CFGS[cfg].keep}, "
                             f"{len(models)} model(s), {n} rank(s); any single {fault} at any file system effect; arbitrary parameters and data")
    def _(c):
        crash_run(c, CFGS[cfg], models, fault, n=n)
    return _


Q, TH = ("quick", "thorough"), ("thorough",)
reg("crash, every iteration saved", "every", ("net",), "crash", Q)
reg("crash, states less often than snapshots", "sparse states", ("net",), "crash", Q)
reg("crash, two states kept, two models", "two states", ("net", "ema"), "crash", Q)
reg("crash, run ends off the schedule", "odd end", ("net",), "crash", Q)
reg("crash while the codebook collects its first samples", "vq", ("net",), "crash", Q)
reg("crash, accumulation", "accum", ("net",), "crash", TH)
reg("crash, all states kept", "all states", ("net",), "crash", TH)
reg("crash, two ranks", "two", ("net",), "crash", Q, n=2)
reg("failing write, every iteration saved", "every", ("net",), "failure", Q)
reg("failing write, two states kept, two models", "two states", ("net", "ema"), "failure", TH)
reg("failing write, two ranks", "two", ("net",), "failure", Q, n=2)



# ---- a training step that fails
@check.obligation("failing step", functions=F, budget=120, max_paths=200,
                  bounds="4 iterations; the forward of, or the hook after, any iteration raises; every-iteration or every-second-iteration saves; 1-2 micro-steps")
def failing_step(c):
    T()
    kind = ["fwd", "after"][c.choose("where", range(2))]
    it = c.choose("iteration", range(4)) + 1
    cfg = [Cfg(4, 100, 1, None, 1), Cfg(4, 2, 2, None, 1), Cfg(4, 2, 2, None, 1, 2)][c.choose("config", range(3))]
    with ctxm(c):
        init, data = inputs(c)
        ref = {}
        fs = simfs.FS(c)
        try:
            with simfs.install(fs):
                _, errs, start, w = session(c, fs, cfg, 1, init, data, record=ref)
                if errs[0] is not None:
                    raise errs[0]
            ref[0] = start[0]
        finally:
            fs.close()
        fs = simfs.FS(c)
        try:
            with simfs.install(fs):
                ts, errs, start, w = session(c, fs, cfg, 1, init, data, fail=(kind, it))
                c.check(errs[0] is not None, "a failing step ends the run")
                c.check("boom" in str(errs[0]) or "late" in str(errs[0]), "the original failure is reported")
                if kind == "fwd":
                    c.check(ts[0].state.iteration == it - 1, "counters of the failed iteration are taken back")
                ts, errs, start, w = session(c, fs, cfg, 1, init, data)
                if errs[0] is not None:
                    c.fail(f"cannot continue: {errs[0]}")
            at = start[0][0]["it"]
            lo = max([0] + [i for i in range(1, it) if i % cfg.temp == 0])
            c.check(lo <= at <= it - 1, f"continued from {at} after a failure in iteration {it}")
            same_snap(c, start_resumed(ts[0], start[0], ref[at]), start_resumed(ts[0], ref[at], ref[at]), "state loaded")
            same_snap(c, snap(ts[0]), ref[cfg.iters], "end of the continued run")
        finally:
            fs.close()


# ---- an iteration is committed once
@check.obligation("collision", functions=F, budget=120, max_paths=200,
                  bounds="3 iterations; re-saving the last iteration with one element of one saved component changed by an arbitrary amount")
def collision(c):
    T()
    what = ["nothing", "weight", "momentum", "buffer", "epoch", "rows", "cursor", "lr", "generator", "signature"][c.choose("changed", range(10))]
    d = c.real("delta", -2, 2)
    if what in ("weight", "momentum", "buffer"):
        c.assume(snot(eq(d, 0)))
    cfg = Cfg(3, 100, 1, None, 1)
    with ctxm(c):
        init, data = inputs(c)
        fs = simfs.FS(c)
        try:
            with simfs.install(fs):
                ts, errs, start, w = session(c, fs, cfg, 1, init, data)
                if errs[0] is not None:
                    raise errs[0]
                t = ts[0]
                m = t.models["net"]
                if what == "weight":
                    with torch.no_grad():
                        m.w[1] += d
                elif what == "momentum":
                    b = t.optimizers["main"].state[m.w]["momentum_buffer"]
                    with torch.no_grad():
                        b[0] += d
                elif what == "buffer":
                    m.seen = m.seen + d
                elif what == "epoch":
                    t.state.epoch += 1
                elif what == "rows":
                    t.state.rows += 2
                elif what == "cursor":
                    t._resume_sampler.offset += 1
                elif what == "lr":
                    t.optimizers["main"].param_groups[0]["lr"] *= 2
                elif what == "generator":
                    random.random()
                elif what == "signature":
                    t._data_stream_signature = {"kind": "other"}
                before = {f: open(os.path.join(fs.root, "run", "ckpts", f), "rb").read() for f in files(fs)}
                n = len(fs.log)
                saved = W.patch(T(), w, [NS(gather_object=lambda o: o)])
                try:
                    err = None
                    t._save_checkpoint(force_state=True)
                except RuntimeError as e:
                    err = e
                finally:
                    W.unpatch(T(), saved)
                after = {f: open(os.path.join(fs.root, "run", "ckpts", f), "rb").read() for f in files(fs)}
            c.check(before == after and len(fs.log) == n, "a committed iteration is never rewritten")
            if what == "nothing":
                c.check(err is None, f"saving again without change: {err}")
            else:
                c.check(err is not None, f"a different state ({what}) passed for the committed one")
        finally:
            fs.close()


# ---- what must not be resumed
TAMPER = ["world size", "optimizer args", "scheduler", "signature", "rank digest", "slot", "duplicate slot", "model missing", "model iteration",
          "metadata iteration", "format", "no resume", "sidecar bytes", "sidecar missing", "cursor kind", "optimizer names", "extra rank",
          "cursor edited", "global digest"]


@check.obligation("refusals", functions=F, budget=120, max_paths=200,
                  bounds="2-rank checkpoint of 2 iterations; one of 19 disagreements between the saved state and the run (or damage to it)")
def refusals(c):
    T()
    what = TAMPER[c.choose("what", range(len(TAMPER)))]
    cfg = Cfg(2, 100, 1, None, 1)
    with ctxm(c):
        init, data = inputs(c, n=2)
        fs = simfs.FS(c)
        try:
            with simfs.install(fs):
                ts, errs, start, w = session(c, fs, cfg, 2, init, data)
                for e in errs:
                    if e is not None:
                        raise e
                d = os.path.join(fs.root, "run", "ckpts")
                sp = os.path.join(d, "state_0000002.pt")
                mp = os.path.join(d, "ckpt_net_0000002.pt")
                s = torch.load(sp, map_location="cpu", weights_only=True)
                ranks = s["resume"]["ranks"]
                cfg2, n2, fresh = Cfg(4, 100, 1, None, 1), 2, {}
                cfg2.iters = 2
                drop = None
                if what == "world size":
                    n2 = 1
                elif what == "extra rank":
                    ranks.append(dict(ranks[0]))
                elif what == "optimizer args":
                    s["optimizer_config"]["weight_decay"] = 0.5
                elif what == "scheduler":
                    cfg2.iters = 4
                elif what == "signature":
                    data = [x + x[:1] for x in data]
                elif what == "rank digest":
                    ranks[1]["local_digest"] = "0" * 64
                elif what == "global digest":
                    ranks[1]["global_digest"] = "0" * 64
                elif what == "slot":
                    ranks[0]["slot"] = ranks[0]["rank"] = 5
                elif what == "duplicate slot":
                    ranks[1] = dict(ranks[0])
                elif what == "cursor edited":
                    ranks[1]["sampler"] = dict(ranks[1]["sampler"], offset=0)
                elif what == "cursor kind":
                    ranks[0]["cursor_kind"] = "other"
                elif what == "metadata iteration":
                    s["metadata"]["iteration"] = 1
                elif what == "format":
                    s["format_version"] = 3
                elif what == "no resume":
                    s.pop("resume")
                elif what == "optimizer names":
                    s["optimizers"]["second"] = s["optimizers"]["main"]
                elif what == "model missing":
                    drop = mp
                elif what == "model iteration":
                    m = torch.load(mp, map_location="cpu", weights_only=True)
                    m["iteration"] = "1"
                    torch.save(m, mp)
                side = [os.path.join(d, f) for f in files(fs) if f.startswith("runtime_0000002_") and f.endswith("_rank_1.pt")][0]
                if what == "sidecar bytes":
                    b = bytearray(open(side, "rb").read())
                    b[len(b) // 2] ^= 1
                    open(side, "wb").write(bytes(b))
                if what == "sidecar missing":
                    drop = side
                torch.save(s, sp)
                if drop:
                    os.remove(drop)
                cfg2.iters = max(cfg2.iters, 2)
                if what.startswith("sidecar"):
                    cfg2.iters = 2       # restored before the first iteration
                ts, errs, start, w = session(c, fs, cfg2, n2, init, data)
            c.check(any(e is not None for e in errs), f"resumed in spite of: {what}")
        finally:
            fs.close()


@check.obligation("slots", functions=["trainer.base:BaseTrainer._validate_rank_resume_states"], budget=60, max_paths=400,
                  bounds="3 ranks; recorded slot of every rank state any of 0..4, the rank field equal or not")
def slots(c):
    import hashlib
    m = T()
    core = repo("dataset.core")
    t = object.__new__(m.BaseTrainer)
    t.accelerator = NS(num_processes=3, process_index=0)
    states = []
    sl = [c.choose(f"slot_{i}", range(4)) for i in range(3)]
    lie = c.choose("lie", range(4))
    for i in range(3):
        x = {"supported": True, "cursor_kind": "map_sampler_v1", "slot": sl[i], "rank": sl[i] + (lie == i), "data_stream_signature": {"a": 1},
             "sampler": {"epoch": 1, "rank": sl[i]}, "rng": i}
        x["global_digest"] = hashlib.sha256(core.canonical_pipeline_state_bytes(t._global_resume_projection(x))).hexdigest()
        x["local_digest"] = hashlib.sha256(core.canonical_pipeline_state_bytes(x)).hexdigest()
        states.append(x)
    ok = sorted(sl) == [0, 1, 2] and lie == 3
    try:
        r = t._validate_rank_resume_states(list(states))
        c.check(ok, f"slots {sl} accepted")
        c.check([x["rng"] for x in r] == [sl.index(k) for k in range(3)], "every rank gets its own state")
    except RuntimeError:
        c.check(not ok, f"slots {sl} refused")


# ---- the latest checkpoint
@check.obligation("latest", functions=["utils.file_utils:find_latest_ckpt", "utils.file_utils:get_iteration_from_ckpt_filename"], budget=60, max_paths=600,
                  bounds="3 files with any iteration below 10**12 (symbolic numbers), foreign files between them")
def latest(c):
    fu = repo("utils.file_utils")
    its = [c.zint(f"it{i}", 0, 10 ** 12) for i in range(3)]
    names = [f"state_{i}.pt" for i in range(3)]
    for i in range(3):
        for j in range(i):
            c.assume(snot(eq(its[i], its[j])))
    root = simfs.FS(c)
    try:
        for n in names + ["state_x.pt", "ckpt_state_9.pt", "state_0.pt.tmp", "xstate_1.pt"]:
            open(os.path.join(root.root, n), "w").close()
        os.mkdir(os.path.join(root.root, "state_7.pt.d"))
        real = fu.get_iteration_from_ckpt_filename

        def parse(name):
            b = os.path.basename(name)
            return its[names.index(b)] if b in names else real(name)
        with patched(fu, "get_iteration_from_ckpt_filename", parse):
            got = fu.find_latest_ckpt(root.root, "state_")
        c.check(got is not None and os.path.basename(got) in names, "a state file is found")
        g = its[names.index(os.path.basename(got))]
        c.check(sand(*[g >= x for x in its]), "the newest iteration wins")
    finally:
        root.close()


@check.obligation("iteration names", functions=["utils.file_utils:get_iteration_from_ckpt_filename", "utils.file_utils:find_latest_ckpt",
                                                "trainer.base:BaseTrainer._state_path", "trainer.base:BaseTrainer._model_ckpt_path"], budget=60,
                  bounds="iterations around every power of ten up to 10**9, model names with digits and underscores", max_paths=1500)
def iteration_names(c):
    fu, m = repo("utils.file_utils"), T()
    e = c.choose("exp", range(10))
    it = max(0, 10 ** e + c.choose("off", range(3)) - 1)
    other = 10 ** c.choose("exp2", range(10)) + 5
    name = ["net", "mix10_v2", "a_7_b", "123"][c.choose("name", range(4))]
    t = object.__new__(m.BaseTrainer)
    fs = simfs.FS(c)
    try:
        t.rundir = fs.root
        os.mkdir(t.ckpt_dir)
        for p in (t._state_path(it), t._model_ckpt_path(name, it)):
            c.check(fu.get_iteration_from_ckpt_filename(p) == it, f"{os.path.basename(p)} names iteration {it}")
        for x in (it, other):
            open(t._state_path(x), "w").close()
            open(t._state_path(x) + ".tmp", "w").close()
        c.check(fu.find_latest_ckpt(t.ckpt_dir, "state_") == t._state_path(max(it, other)), "the larger iteration is the latest")
    finally:
        fs.close()


# ---- random number generators
@check.obligation("generators", functions=["trainer.base:BaseTrainer._capture_rng_state", "trainer.base:BaseTrainer._restore_rng_state"],
                  bounds="every word of the numpy and python generator states arbitrary (8 words shown; torch bytes fixed), any position", budget=60)
def generators(c):
    m = T()
    t = object.__new__(m.BaseTrainer)
    t.use_cpu, t.accelerator = True, NS(device=torch.device("cpu"))
    words = sym_vec(c, "np", 8, np.uint32)
    tb = [(7 * i * i + 200) % 256 for i in range(40)]
    pos, hg = c.int("pos", 0, 624), c.choose("gauss", range(2))
    cg = c.real("cg", -9, 9)
    py = (3, tuple(c.int(f"py{i}", 0, 2 ** 32 - 1) for i in range(4)), None)
    got = {}
    with ctxm(c):
        tt = torch.tensor(tb, dtype=torch.uint8)
        with patched(random, "getstate", lambda: py), patched(random, "setstate", lambda s: got.__setitem__("py", s)), \
                patched(m.np.random, "get_state", lambda: ("MT19937", words, pos, hg, cg)), \
                patched(m.np.random, "set_state", lambda s: got.__setitem__("np", s)), \
                patched(torch, "get_rng_state", lambda: tt), patched(torch, "set_rng_state", lambda s: got.__setitem__("t", s)):
            s = t._capture_rng_state()
            t._restore_rng_state(s)
        c.check(same(got["py"], py), "python generator")
        c.check(got["np"][0] == "MT19937" and bool(got["np"][3] == hg), "numpy generator kind")
        c.check(sand(*[eq(x, y) for x, y in zip(elems(got["np"][1]), elems(words))]) if len(elems(got["np"][1])) == 8 else False, "numpy words")
        c.check(sand(eq(got["np"][2], pos), eq(got["np"][4], cg)), "numpy position and cached value")
        c.check(sand(*[eq(x, y) for x, y in zip(st.vals(got["t"]), tb)]) if len(st.vals(got["t"])) == 40 else False, "torch bytes")


if __name__ == "__main__":
    check.main()
