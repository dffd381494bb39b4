"""P38: distributed evaluation (trainer/base.py: validation, test, aggregation)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *
from symx import symtorch as st, sreal as R, world as W
from symx.sreal import add, mul, sub, div, sq, mean
from types import SimpleNamespace as NS
import torch

check = Check("P38", "distributed evaluation", assumptions=[
    "ranks are lock-step threads suspended only at collective operations, which are stand-ins computing sum/max/concatenation exactly; "
    "ranks waiting at different collectives, or left behind by a finished rank, count as a hang",
    "models and their statistics are stand-ins: each batch yields arbitrary sums (exact reals) and counts (integers below 2**20)",
    "<= 3 ranks, <= 3 batches per rank",
])
F = ["trainer.base:BaseTrainer._validate", "trainer.base:BaseTrainer.test", "trainer.base:BaseTrainer._iter_collective_safe_batches",
     "trainer.base:BaseTrainer._finalize_masked_global_batch", "trainer.base:BaseTrainer._gather_averaged_metrics",
     "trainer.base:BaseTrainer._accumulate_evaluation_metrics", "trainer.base:BaseTrainer._zero_evaluation_stat",
     "trainer.base:BaseTrainer._preflight_evaluation_schema", "trainer.base:BaseTrainer._global_vq_eval_metrics",
     "trainer.base:BaseTrainer._synchronize_phase_errors", "trainer.base:BaseTrainer._normalize_train_metrics",
     "trainer.base:BaseTrainer._run_synchronized_operation"]
D = torch.float32


def T():
    return repo("trainer.base")


class VQ:
    """stand-in for a vector quantiser collecting code counts during evaluation"""

    def __init__(self):
        self.on = True

    def reset_eval_perplexity_stats(self):
        self._eval_cluster_size = torch.zeros(2, dtype=D)

    def set_eval_perplexity_stats_enabled(self, e):
        self.on = e

    def see(self, t):
        if self.on:
            self._eval_cluster_size = self._eval_cluster_size + t

    def eval_perplexity_from_cluster_size(self, t):
        return t[0] * 2 + t[1], t[0] - t[1]


class Model:
    def __init__(self, vq):
        self.vq = vq
        self.mode = "train"

    def modules(self):
        return [self] + ([self.vq] if self.vq else [])

    def eval(self):
        self.mode = "eval"

    def train(self):
        self.mode = "train"


class Log:
    def write(self, x):
        pass

    flush = lambda self: None


class Setting:
    """symbolic contents of every (rank, batch)"""

    def __init__(self, c, world, counts, keys, real=None, vq=False):
        core = repo("dataset.core")
        self.c, self.n, self.counts, self.keys, self.real = c, world, counts, keys, real
        self.core = core
        self.vals = {}
        for r in range(world):
            for b in range(counts[r]):
                v = {}
                for k in keys:
                    v[k] = c.real(f"{k}_{r}_{b}", -1000, 1000)
                    if k in ("s", "e", "q", "x"):
                        v["n" + k] = c.zint(f"n{k}_{r}_{b}", 0, 1 << 20)
                if vq:
                    v["vq"] = [c.real(f"vq{i}_{r}_{b}", 1, 100) for i in range(2)]
                self.vals[r, b] = v

    def stats(self, r, b):
        core, c = self.core, self.c
        v = self.vals[r, b]
        t = lambda x, s=(): st.make(c, [x] if s == () else x, s, D)
        out = {}
        if "s" in self.keys:
            out["total_loss"] = core.SumCount("global_batch", t(v["s"]), v["ns"])
        if "e" in self.keys:
            out["plain"] = core.SumCount("evaluation", t(v["e"]), v["ne"])
        if "q" in self.keys:
            out["sq"] = core.SufficientStats("global_batch", "policy_mean_square_v1", {"valid_logit_sum": t(v["q"])}, {"valid_cells": v["nq"]})
        if "x" in self.keys:
            out["best"] = core.Maximum("evaluation", t(v["x"]), v["nx"])
        if "y" in self.keys:
            out["const"] = core.SufficientStats("evaluation", "mean_v1", {"sum": t(v["y"])}, {"count": 2})
        return out

    def want(self, groups):
        """groups: per global batch, the (rank, batch) that count"""
        V = self.vals
        allm = [rb for g in groups for rb in g]
        out = {}

        def batchwise(f):
            return div(add(*[mul(len(g), f(g)) for g in groups]), len(allm))
        if "s" in self.keys:
            out["total_loss"] = batchwise(lambda g: div(add(*[V[x]["s"] for x in g]), add(*[V[x]["ns"] for x in g])))
        if "q" in self.keys:
            out["sq"] = batchwise(lambda g: sq(div(add(*[V[x]["q"] for x in g]), add(*[V[x]["nq"] for x in g]))))
        if "e" in self.keys:
            out["plain"] = div(add(*[V[x]["e"] for x in allm]), add(*[V[x]["ne"] for x in allm]))
        if "y" in self.keys:
            out["const"] = div(add(*[V[x]["y"] for x in allm]), 2 * len(allm))
        return out

    def assume(self, groups):
        c, V = self.c, self.vals
        for k in ("s", "q"):
            if k in self.keys:
                for g in groups:
                    c.assume(sum((V[x]["n" + k] for x in g[1:]), V[g[0]]["n" + k]) >= 1)
        allm = [rb for g in groups for rb in g]
        for k in ("e", "x"):
            if k in self.keys:
                c.assume(sum((V[x]["n" + k] for x in allm[1:]), V[allm[0]]["n" + k]) >= 1)


class Loader:
    def __init__(self, items, planned, fail_at=None, fail_iter=False):
        self.items, self.fail_at, self.fail_iter = items, fail_at, fail_iter
        self.dataset = NS(yields_batches=planned)

    def __iter__(self):
        if self.fail_iter:
            raise OSError("no iterator")

        def g():
            for i, x in enumerate(self.items):
                if self.fail_at == i:
                    raise OSError("disk")
                yield x
            if self.fail_at == len(self.items):
                raise OSError("disk")
        return g()


def trainer(acc, loader, stepf, vq=None, bs=4, captured=None):
    B = T().BaseTrainer

    class X(B):
        def validate_step(self, data, **kw):
            s = stepf(data)
            return dict(list(s.items())[:2]), dict(list(s.items())[2:])

        def _unwrap(self, m):
            return m

        def _loss_summary(self, d):
            return ""
    t = object.__new__(X)
    t.accelerator = acc
    t.state = NS(iteration=5, rows=7, epoch=1)
    t.models = {"main": Model(vq)}
    t.model_name = "main"
    t.val_loader = t.test_loader = loader
    t.batch_size_per_process, t.eval_bs_multipler = bs, 1
    t.iterations = 10
    t.tb_logger, t.log_file = None, Log()
    t._start_time = t._log_last_time = t._show_last_time = 0.0
    t.checkpoint = t.dataset_type = t.dataset_args = None
    return t


@contextlib.contextmanager
def env(c, world, accs):
    """collectives and output of the module replaced by stand-ins; JSON records are captured"""
    m = T()
    rec = []
    saved = W.patch(m, world, accs)
    old = {k: m.__dict__[k] for k in ("json", "log_value_dict", "tqdm")}
    m.json = NS(dumps=lambda o, **k: (rec.append(o), "")[1])
    m.log_value_dict = lambda *a, **k: None
    m.tqdm = lambda it, **k: it
    m.print = lambda *a, **k: None
    try:
        yield rec
    finally:
        W.unpatch(m, saved)
        for k, v in old.items():
            setattr(m, k, v)
        del m.print


def item(x):
    return st.vals(x)[0] if isinstance(x, torch.Tensor) else x


def equal(c, got, want, what):
    c.check(st.close(item(got), R.n(want) if c.symbolic else want, 1e-4), what, detail=lambda: (got, want))


def run_world(c, n, body):
    w = W.World(n)
    accs = [W.Accelerator(w, r) for r in range(n)]
    with env(c, w, accs) as rec:
        if n == 1:
            w.current, w.results, w.errors = 0, [None], [None]
            with st.mode() if c.symbolic else contextlib.nullcontext():
                try:
                    w.results[0] = body(0, accs[0])
                except Exception as e:  # noqa
                    w.errors[0] = e
        else:
            w.run(lambda r: body(r, accs[r]))
    return w, rec


def groups_of(counts):
    return [[(r, b) for r in range(len(counts)) if b < counts[r]] for b in range(max(counts))]


def mkrun(n, counts, mode, planned, keys, vq, tag, tiers=("quick", "thorough")):
    @check.obligation(f"{mode}_{tag}", bounds=f"{n} ranks with {counts} batches; any sums and counts of each statistic", functions=F, tiers=tiers, timeout_ms=60000)
    def ob(c):
        s = Setting(c, n, counts, keys, vq=vq)
        groups = groups_of(counts)
        s.assume(groups)
        vqs = [VQ() if vq else None for _ in range(n)]
        reals = {rb: [True] * (4 - (rb[0] + rb[1]) % 4) + [False] * ((rb[0] + rb[1]) % 4) for rb in s.vals}
        trainers = []

        def body(r, acc):
            core = repo("dataset.stream")
            items = []
            for b in range(counts[r]):
                if planned:
                    items.append(core.BatchEnvelope(data={"id": (r, b)}, token=None, is_real=torch.tensor(reals[r, b]), sample_keys=()))
                else:
                    items.append({"id": (r, b)})

            def step(data):
                q, b = data["id"]
                if vqs[r]:
                    vqs[r].see(st.make(c, s.vals[q, b]["vq"], (2,), D))
                return s.stats(q, b)
            t = trainer(acc, Loader(items, planned), step, vqs[r])
            trainers.append(t)
            return t._validate() if mode == "validate" else t.test()
        w, rec = run_world(c, n, body)
        c.check(w.stuck is None, "a rank waits for a collective the others never reach", detail=lambda: w.stuck)
        c.check(all(e is None for e in w.errors), "evaluation failed", detail=lambda: w.errors)
        if mode == "validate":
            c.check(len(rec) == 1, "one record written by the main process")
            got = {**rec[0]["val_loss"], **rec[0]["val_aux"]}
            entries = rec[0]["num_val_entries"]
            c.check(all(t.models["main"].mode == "train" for t in trainers), "models back in training mode")
        else:
            got = dict(w.results[0])
            c.check(all(x is None for x in w.results[1:]), "only the main process reports")
            entries = None
        want = s.want(groups)
        allm = [x for g in groups for x in g]
        if entries is not None:
            c.check(entries == sum(sum(reals[x]) if planned else 4 for x in allm), "number of evaluated entries", detail=lambda: entries)
        if "x" in keys:
            g = item(got.pop("best"))
            valid = [(s.vals[x]["x"], s.vals[x]["nx"]) for x in allm]
            c.check(sand(*[simplies(m >= 1, R.ge(g, v)) for v, m in valid]), "maximum bounds every contributing value")
            c.check(sor(*[sand(m >= 1, st.close(g, v)) for v, m in valid]), "maximum is a contributing value")
        if vq:
            tot = [add(*[s.vals[x]["vq"][i] for x in allm]) for i in range(2)]
            equal(c, got.pop("vq_perplexity"), add(mul(2, tot[0]), tot[1]), "codes counted once per evaluated batch")
            equal(c, got.pop("vq_normed_perplexity"), sub(tot[0], tot[1]), "codes counted once per evaluated batch (normalised)")
        c.check(set(got) == set(want), "reported metrics", detail=lambda: (set(got), set(want)))
        for k in want:
            equal(c, got[k], want[k], k)


for _mode in ("validate", "test"):
    mkrun(1, [2], _mode, True, "seqxy", True, "planned_1rank")
    mkrun(2, [2, 2], _mode, True, "seqx", True, "planned_2ranks")
    mkrun(1, [3], _mode, False, "sex", False, "plain_1rank", ("thorough",))
    mkrun(2, [1, 2], _mode, False, "seq", True, "uneven_1_2")
    mkrun(2, [0, 2], _mode, False, "sexy", True, "uneven_0_2")
    mkrun(3, [2, 0, 1], _mode, False, "sq", True, "uneven_2_0_1")
    mkrun(3, [1, 3, 2], _mode, False, "seqxy", False, "uneven_1_3_2", ("thorough",))


@check.obligation("max_batches", bounds="2 ranks, 0..3 batches each, limit 1..3: which batches count", functions=F)
def maxb(c):
    planned = c.choose("planned", [True, False])
    a = c.choose("a", [1, 2, 3])
    b = a if planned else c.choose("b", [0, 1, 3])
    lim = c.choose("limit", [1, 2, 3])
    counts = [a, b]
    eff = [min(x, lim) for x in counts]
    s = Setting(c, 2, counts, "s")
    groups = groups_of(eff)
    s.assume(groups)

    def body(r, acc):
        core = repo("dataset.stream")
        items = [{"id": (r, i)} for i in range(counts[r])]
        if planned:
            items = [core.BatchEnvelope(data=x, token=None, is_real=torch.tensor([True]), sample_keys=()) for x in items]
        t = trainer(acc, Loader(items, planned), lambda d: s.stats(*d["id"]))
        return t.test(max_batches=lim)
    w, rec = run_world(c, 2, body)
    c.check(w.stuck is None and all(e is None for e in w.errors), "limited evaluation finishes", detail=lambda: (w.stuck, w.errors))
    want = s.want(groups)
    for k in want:
        equal(c, w.results[0][k], want[k], k)


@check.obligation("failures_reach_every_rank", bounds="2 ranks, 2 batches; failure when creating the iterator, fetching or evaluating any batch on either rank", functions=F)
def failures(c):
    planned = c.choose("planned", [True, False])
    mode = c.choose("mode", ["validate", "test"])
    where = c.choose("where", ["iter", "fetch", "step", "type"])
    bad = c.choose("rank", [0, 1])
    at = c.choose("batch", [0, 1, 2] if where == "fetch" else [0, 1])
    s = Setting(c, 2, [2, 2], "s")

    def body(r, acc):
        core = repo("dataset.stream")
        items = [{"id": (r, i)} for i in range(2)]
        if planned:
            items = [core.BatchEnvelope(data=x, token=None, is_real=torch.tensor([True]), sample_keys=()) for x in items]

        def step(d):
            if where == "step" and d["id"] == (bad, at):
                raise ArithmeticError("overflow")
            if where == "type" and d["id"] == (bad, at):
                return {"total_loss": 3.0}
            return s.stats(*d["id"])
        l = Loader(items, planned, at if where == "fetch" and r == bad else None, where == "iter" and r == bad)
        t = trainer(acc, l, step)
        return t._validate() if mode == "validate" else t.test()
    s.assume(groups_of([2, 2]))
    w, rec = run_world(c, 2, body)
    c.check(w.stuck is None, "no rank is left waiting", detail=lambda: w.stuck)
    c.check(all(isinstance(e, RuntimeError) for e in w.errors), "every rank reports the failure", detail=lambda: w.errors)
    c.check(rec == [], "nothing is logged for a failed evaluation")


@check.obligation("schema_divergence", bounds="2 ranks: a statistic missing, of another kind, scope, finaliser, shape or dtype, non-tensor, on one rank or in a later batch", functions=F)
def schema(c):
    core = repo("dataset.core")
    SC, MX, SS = core.SumCount, core.Maximum, core.SufficientStats
    z = lambda sh=(), dt=D: torch.zeros(sh, dtype=dt)
    base = lambda: {"a": SC("global_batch", z(), 1), "b": SS("global_batch", "mean_v1", {"sum": z()}, {"count": 1}), "m": MX("evaluation", z(), 1)}
    change = {
        "missing": lambda d: d.pop("b"),
        "extra": lambda d: d.update(z=SC("global_batch", z(), 1)),
        "kind": lambda d: d.update(a=MX("evaluation", z(), 1)),
        "scope": lambda d: d.update(a=SC("evaluation", z(), 1)),
        "finaliser": lambda d: d.update(b=SS("global_batch", "policy_mean_square_v1", {"valid_logit_sum": z()}, {"valid_cells": 1})),
        "shape": lambda d: d.update(a=SC("global_batch", z((2,)), 1)),
        "mshape": lambda d: d.update(m=MX("evaluation", z((2,)), 1)),
        "dtype": lambda d: d.update(a=SC("global_batch", z((), torch.float64), 1)),
        "bdtype": lambda d: d.update(b=SS("global_batch", "mean_v1", {"sum": z((), torch.float64)}, {"count": 1})),
        "number": lambda d: d.update(a=1.0),
        "tensor": lambda d: d.update(a=z()),
        "none": lambda d: d.update(m=None),
    }
    kind = c.choose("kind", list(change))
    mode = c.choose("mode", ["rank", "batch"])
    bad = c.choose("rank", [0, 1])
    x = c.real("x")

    def body(r, acc):
        t = trainer(acc, None, None)
        out = []
        for b in range(2):
            d = base()
            if (mode == "rank" and r == bad and b == 0) or (mode == "batch" and b == 1):
                change[kind](d)
            try:
                t._preflight_evaluation_schema(state_attr="_sch", loss=d, aux={})
                out.append("ok")
            except RuntimeError:
                out.append("refused")
                break
        return out
    w, rec = run_world(c, 2, body)
    c.check(w.stuck is None and all(e is None for e in w.errors), "the schema check itself cannot hang", detail=lambda: (w.stuck, w.errors))
    want = ["refused"] if mode == "rank" else ["ok", "refused"]
    c.check(w.results == [want, want], "divergent statistics are refused by every rank before any reduction", detail=lambda: w.results)
    c.check(all(k == "gather_object" for k in w.log), "no numerical collective ran", detail=lambda: w.log)
    c.check(x == x, "")


@check.obligation("no_batches", bounds="1..3 ranks without any batch", functions=F)
def none(c):
    n = c.choose("n", [1, 2, 3])
    planned = c.choose("planned", [True, False])
    mode = c.choose("mode", ["validate", "test"])
    w, rec = run_world(c, n, lambda r, acc: (lambda t: t._validate() if mode == "validate" else t.test())(trainer(acc, Loader([], planned), None)))
    c.check(w.stuck is None, "no rank is left waiting")
    c.check(all(isinstance(e, RuntimeError) for e in w.errors), "an empty evaluation is an error, not a zero", detail=lambda: w.errors)


@check.obligation("planned_availability_differs", bounds="2 ranks whose planned streams end at different batches", functions=F)
def avail(c):
    n0, n1 = c.choose("n", [(0, 1), (1, 0), (1, 2), (2, 1)])
    s = Setting(c, 2, [n0, n1], "s")
    for v in s.vals.values():
        c.assume(v["ns"] >= 1)

    def body(r, acc):
        core = repo("dataset.stream")
        items = [core.BatchEnvelope(data={"id": (r, i)}, token=None, is_real=torch.tensor([True]), sample_keys=()) for i in range((n0, n1)[r])]
        return trainer(acc, Loader(items, True), lambda d: s.stats(*d["id"])).test()
    w, rec = run_world(c, 2, body)
    c.check(w.stuck is None and all(isinstance(e, RuntimeError) for e in w.errors), "streams of different length are refused on every rank", detail=lambda: (w.stuck, w.errors))


@check.obligation("plain_scalars", bounds="2 ranks, plain numbers and tensors accumulated over any batch counts", functions=F)
def scalars(c):
    vals = [[c.real(f"v{r}_{b}", -100, 100) for b in range(2)] for r in range(2)]
    mx = [[c.real(f"m{r}_{b}", -100, 100) for b in range(2)] for r in range(2)]
    kind = c.choose("kind", ["number", "tensor"])

    def body(r, acc):
        t = trainer(acc, None, None)
        tot = {}
        conv = (lambda x: x) if kind == "number" else (lambda x: st.make(c, [x], (), D))
        for b in range(2):
            t._accumulate_evaluation_metrics(tot, {"v": conv(vals[r][b]), "value_abserr_max": conv(mx[r][b]), "value_relerr_max": conv(mx[r][b])})
        return t._gather_averaged_metrics(tot, 2)
    w, _ = run_world(c, 2, body)
    c.check(all(e is None for e in w.errors), "aggregation works", detail=lambda: w.errors)
    got, n = w.results[0]
    c.check(n == 4 and w.results[1] == (None, None), "batch total")
    equal(c, got["v"], div(add(*[x for r in vals for x in r]), 4), "mean over all batches")
    for k in ("value_abserr_max", "value_relerr_max"):
        g = item(got[k])
        c.check(sand(*[R.ge(g, x) if c.symbolic else g >= x - 1e-4 for r in mx for x in r]), f"{k} bounds all")
        c.check(sor(*[st.close(g, x, 1e-4) for r in mx for x in r]), f"{k} attained")


if __name__ == "__main__":
    check.main()
