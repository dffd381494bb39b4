import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.harness import *
from plan_common import *

check = Check("P06", "batch delivery", assumptions=[
    "the thread pool is a stand-in that runs each submitted job either at submission or when its result is demanded (a free choice per job); "
    "true data races inside a decode are outside the model",
    "<= 5 records, batch 2, 1..3 workers, 1..4 prefetched batches",
])


class Pool:
    """Stand-in executor: when a job runs is a free choice; results are only read through futures."""
    c = None
    late = None
    jobs = 0

    def __init__(self, max_workers=None, **kw):
        if max_workers < 1:
            raise ValueError
        self.q = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for f in self.q:
            f.run()
        return False

    def shutdown(self, *a, **k):
        pass

    def submit(self, fn, *args, **kw):
        i = Pool.jobs
        Pool.jobs += 1
        f = Fut(lambda: fn(*args, **kw))
        self.q.append(f)
        if not (Pool.late and i < 4 and bool(Pool.c.bool(f"late{i}"))):
            f.run()
        return f


class Fut:
    def __init__(self, fn):
        self.fn, self.done, self.v, self.e = fn, False, None, None

    def run(self):
        if not self.done:
            self.done = True
            try:
                self.v = self.fn()
            except Exception as ex:  # noqa
                self.e = ex

    def result(self, timeout=None):
        self.run()
        if self.e:
            raise self.e
        return self.v


def src(n, shapes, api, kind="one"):
    s = make_source(n, shapes, kind, declare={k: k for k in sorted(set(shapes))} if len(set(shapes)) > 1 else {1: 1})
    type(s).thread_safe_materialization = True
    T = type(s)
    data = lambda envs: {"x": [("data", e.record_key) for e in envs]}
    T.materialize_batch = lambda self, envs: data(envs)
    if api == "keys":
        T.materialize_batch_with_keys = lambda self, envs: (data(envs), tuple(("k", e.record_key) for e in envs))
        T.sample_keys_for_batch = lambda self, envs: tuple(("k", e.record_key) for e in envs)
    if api == "many":
        T.materialize_batches = lambda self, bs: [data(b) for b in bs]
        T.sample_keys_for_batch = lambda self, envs: tuple(("k", e.record_key) for e in envs)
    if api == "manykeys":
        T.materialize_batch_with_keys = lambda self, envs: (data(envs), tuple(("k", e.record_key) for e in envs))
        T.materialize_batches_with_keys = lambda self, bs: [(data(b), tuple(("k", e.record_key) for e in b)) for b in bs]
    return s


def obs(e):
    b = e.token.batch
    return (e.data, list(map(bool, elems(e.is_real))), tuple(e.sample_keys), e.token.before_digest, e.token.after_digest, b.is_last, b.batch_index,
            e.token.epoch, keys(b))


def mk(api, mode, nshape, N, steps=None, tiers=("quick", "thorough")):
    @check.obligation(f"prefetching does not change what is delivered: source api {api}, {mode}, {nshape} shape(s), <= {N} records, budget {steps}", tiers=tiers,
                      bounds=f"1..{N} records, 1..3 workers, 1..4 batches in flight, every job schedule", budget=300, covers=["done", "late"],
                      functions=["SourceBatchDataset._iter_prefetched", "_iter_synchronous", "_planned_transactions", "_decode_batches", "_publish", "__iter__"])
    def ob(c):
        SD = repo("dataset.source_dataset")
        n = int(c.int("n", 2, N))
        shapes = [int(c.int(f"shape{i}", 1, nshape)) if nshape > 1 else 1 for i in range(n)]
        workers = int(c.int("workers", 1, 3))
        inflight = int(c.int("inflight", 1, 4))
        fin = bool(c.bool("finalize_early"))
        fz = lambda d: {"x": [("final", v) for v in d["x"]]}
        Pool.c, Pool.late, Pool.jobs = c, True, 0
        with FreeSlots(c).install(free=False), patched(SD, "ThreadPoolExecutor", Pool):
            def run(w):
                s = src(n, shapes, api)
                p = planner(s, B=2, mode=mode, steps=steps)
                d = SD.SourceBatchDataset(p, s, finalize_batch=fz, prefetch_workers=w, prefetch_batches=inflight, finalize_in_prefetch=fin)
                out = []
                for ep in range(2):
                    rows = []
                    try:
                        for e in d:
                            rows.append(obs(e))
                            if mode == "train":
                                p.commit_batch(e.token)
                    except RuntimeError as ex:
                        rows.append("error " + str(ex)[:40])
                        out.append(rows)
                        break
                    out.append(rows)
                return out
            a, b = run(0), run(workers)
        c.check(a == b, "prefetched delivery differs from synchronous delivery", detail=lambda: (a, b))
        if a and isinstance(a[0][-1], tuple):
            for rows in a:
                if rows and isinstance(rows[-1], tuple):
                    c.check([r[5] for r in rows] == [False] * (len(rows) - 1) + [True], "exactly the last batch must be marked last")
                    c.check(all(r[0] == {"x": [("final", ("data", k)) for k in r[8]]} for r in rows), "data does not belong to the planned records")
                    c.check(all(x[4] == y[3] for x, y in zip(rows, rows[1:])), "token chain broken")
            c.check(len(a) == 2 and [r[8] for r in a[0]] != [r[8] for r in a[1]], "the second epoch did not advance")
        if Pool.jobs > 1:
            c.cover("late")
        c.cover("done")


mk("plain", "train", 1, 5)
mk("keys", "validate", 1, 5)
mk("many", "validate", 2, 3)
mk("many", "validate", 2, 4, tiers=("thorough",))
mk("manykeys", "train", 1, 6)
mk("plain", "train", 1, 5, steps=2)


def mkstop(mode, pipe):
    @check.obligation(f"abandoning an epoch loses nothing: {mode}, pipeline={pipe}", bounds="4..6 records, any stop point, commits lagging by 0..2, sync or 2 workers", budget=300,
                      covers=["done", "early"], functions=["__iter__", "rollback_uncommitted", "_iter_prefetched", "_iter_synchronous"])
    def ob(c):
        SD = repo("dataset.source_dataset")
        n = int(c.int("n", 4, 6))
        workers = c.choose("workers", [0, 2])
        inflight = int(c.int("inflight", 1, 3))
        stop = int(c.int("stop", 0, 3))
        lag = int(c.int("lag", 0, 2))
        Pool.c, Pool.late, Pool.jobs = c, True, 0
        with FreeSlots(c).install(free=False), patched(SD, "ThreadPoolExecutor", Pool):
            def ds():
                s = src(n, [1], "plain")
                p = planner(s, B=2, mode=mode, composer=comp(pipe))
                return p, SD.SourceBatchDataset(p, s, prefetch_workers=workers, prefetch_batches=inflight)
            p0, d0 = ds()
            full = []
            for e in d0:
                full.append(obs(e))
                if mode == "train":
                    p0.commit_batch(e.token)
            p, d = ds()
            it = iter(d)
            got = []
            pend = []
            for e in it:
                if len(got) == stop:
                    break
                got.append(obs(e))
                pend.append(e.token)
                if mode == "train" and len(pend) > lag:
                    p.commit_batch(pend.pop(0))
            it.close()
            committed = (len(got) - len(pend)) if mode == "train" else min(len(full), len(got) + 1)
            if len(got) == len(full) and committed < len(full):
                expect_error(c, lambda: list(d), (RuntimeError,), "uncommitted batches were skipped")
                c.cover("done")
                return
            if committed >= len(full):
                c.cover("done")
                return
            c.cover("early")
            st = p.state_dict()
            c.check(st["cursor"]["batch_index"] == committed, "committed position", detail=lambda: (st["cursor"]["batch_index"], committed))
            rest = []
            for e in d:
                rest.append(obs(e))
                if mode == "train":
                    p.commit_batch(e.token)
        c.check(got == full[:len(got)], "delivered prefix differs")
        c.check(rest == full[committed:], "the rest of the epoch differs after an abandoned iteration", detail=lambda: (committed, rest, full))
        c.cover("done")


def comp(on):
    if not on:
        return None
    C = repo("dataset.core")

    class Counter:
        pipeline_id, schema_version, input_fields, output_fields = "counter", 1, (), ()

        def signature_state(self):
            return {"k": 1}

        def initial_state(self):
            return {"seen": 0}

        def prepare_batch(self, data, *, current_state, sample_keys, rng_keys):
            return C.PreparedPipelineResult(dict(data), {"seen": current_state["seen"] + len(sample_keys)})
    return C.PipelineStateComposer([Counter()])


mkstop("train", False)
mkstop("train", True)
mkstop("validate", False)


@check.obligation("a failing decode is reported and nothing is lost", bounds="failure in any of the batches, any schedule", covers=["done"],
                  functions=["_iter_prefetched", "_decode_batches"])
def ob(c):
    SD = repo("dataset.source_dataset")
    workers = c.choose("workers", [0, 1, 2])
    bad = int(c.int("bad", 0, 2))
    kind = c.choose("kind", ["raise", "short"])
    Pool.c, Pool.late, Pool.jobs = c, True, 0
    with FreeSlots(c).install(free=False), patched(SD, "ThreadPoolExecutor", Pool):
        s = src(6, [1], "plain")
        T = type(s)
        calls = {"arm": True}
        victim = None

        p = planner(s, B=2, mode="train", shuffle=False)
        orig = T.materialize_batch

        def mat(self, envs):
            if calls["arm"] and envs[0].record_key[2] // 2 == bad:
                raise OSError("disk")
            return orig(self, envs)
        T.materialize_batch = mat
        if kind == "short":
            T.materialize_batches = lambda self, bs: [orig(self, b) for b in bs][:-1] if calls["arm"] and any(b[0].record_key[2] // 2 == bad for b in bs) else [orig(self, b) for b in bs]
        d = SD.SourceBatchDataset(p, s, prefetch_workers=workers, prefetch_batches=3)
        got = []
        try:
            for e in d:
                got.append(obs(e))
                p.commit_batch(e.token)
            c.fail("a failed decode went unnoticed")
        except (OSError, RuntimeError):
            pass
        c.check(len(got) <= bad, "a batch that failed to decode was delivered")
        calls["arm"] = False
        rest = []
        for e in d:
            rest.append(obs(e))
            p.commit_batch(e.token)
        c.check([r[8] for r in got + rest] == [[(0, 0, 2 * i), (0, 0, 2 * i + 1)] for i in range(3)], "records lost or repeated after a failed decode",
                detail=lambda: (got, rest))
    c.cover("done")


@check.obligation("no more batches are in flight than configured", bounds="prefetch limit 1..20, 1..5 workers, 24 batches", covers=["done", "full"], budget=200,
                  functions=["_iter_prefetched", "_planned_transactions"])
def ob(c):
    SD = repo("dataset.source_dataset")
    workers = int(c.int("workers", 1, 5))
    limit = int(c.int("limit", 1, 20))
    Pool.c, Pool.late, Pool.jobs = c, False, 0
    count = {"planned": 0, "decoded": 0}
    with FreeSlots(c).install(free=False), patched(SD, "ThreadPoolExecutor", Pool):
        s = src(24, [1], "plain")
        p = planner(s, B=1, mode="train", shuffle=False)
        T = type(s)
        orig, mat = p.next_transactional_batch, T.materialize_batch

        def spy():
            r = orig()
            count["planned"] += r is not None
            return r

        def decode(self, envs):
            count["decoded"] += 1
            return mat(self, envs)
        p.next_transactional_batch = spy
        T.materialize_batch = decode
        d = SD.SourceBatchDataset(p, s, prefetch_workers=workers, prefetch_batches=limit)
        got, worst = 0, 0
        for e in d:
            c.check(count["decoded"] - got <= limit, "more batches are in flight than configured", detail=lambda: (count, got, limit))
            # the planner may look one batch ahead to find the end of the epoch
            c.check(count["planned"] - got <= limit + 1, "more batches are planned ahead than configured", detail=lambda: (count, got, limit))
            worst = max(worst, count["decoded"] - got)
            got += 1
            p.commit_batch(e.token)
        c.check(got == 24, "batches lost")
        c.check(worst >= min(limit, 2), "prefetching never looks ahead")
        if worst == limit:
            c.cover("full")
    c.cover("done")


@check.obligation("an epoch without a full batch is reported", bounds="0..1 records of batch 2", covers=["done"], functions=["_iter_synchronous", "_planned_transactions"])
def ob(c):
    SD = repo("dataset.source_dataset")
    Pool.c, Pool.late, Pool.jobs = c, False, 0
    n = int(c.int("n", 0, 1))
    w = c.choose("w", [0, 2])
    with FreeSlots(c).install(free=False), patched(SD, "ThreadPoolExecutor", Pool):
        s = src(n, [1], "plain")
        p = planner(s, B=2, mode="train")
        d = SD.SourceBatchDataset(p, s, prefetch_workers=w)
        expect_error(c, lambda: list(d), (RuntimeError,), "an empty epoch passed silently")
    c.cover("done")


if __name__ == "__main__":
    check.main()
