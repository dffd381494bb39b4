import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.harness import *
from plan_common import *

check = Check("P04", "batch planning", assumptions=[
    "record sources are stubs honouring the source contract (short blocks, empty block at end); slot choices of the shuffle are free",
    "<= 5 records per epoch, global batch <= 3, <= 2 shapes, world size <= 3, reservoir capacity 2 (or 1 with shuffling off)",
])


def verify(c, got, n, shapes, B, mode, real_keys):
    per = {}
    for i in range(n):
        per.setdefault(shapes[i % len(shapes)], []).append(real_keys(i))
    seen = []
    for j, (ks, real, b) in enumerate(got):
        c.check(len(ks) == B and len(real) == B, "batch does not have exactly the global batch size", detail=lambda: (ks, real))
        c.check(b.batch_index == j, "batch indices are not consecutive")
        sh = {e.shape_code for e in b.envelopes}
        c.check(len(sh) == 1, "batch mixes shapes", detail=lambda: ks)
        nr = sum(1 for r in real if r)
        c.check(nr >= 1 and all(real[:nr]) and not any(real[nr:]), "real rows are not a non-empty prefix of the batch")
        c.check(ks == [ks[i % nr] for i in range(B)], "padding rows do not repeat the real rows cyclically", detail=lambda: (ks, real))
        if mode == "train":
            c.check(nr == B, "training batch contains a padded row")
        seen += ks[:nr]
    c.check(len(set(seen)) == len(seen), "a record was delivered twice", detail=lambda: seen)
    allk = [k for v in per.values() for k in v]
    c.check(set(seen) <= set(allk), "a delivered record does not exist")
    want_batches = 0
    for s, ks in per.items():
        k = sum(1 for x in ks if x in seen)
        if mode == "train":
            c.check(k == (len(ks) // B) * B, "training must deliver every full batch of every shape", detail=lambda: (s, ks, seen))
            want_batches += len(ks) // B
        else:
            c.check(k == len(ks), "evaluation lost a record", detail=lambda: (s, ks, seen))
            want_batches += -(-len(ks) // B)
    c.check(len(got) == want_batches, "wrong number of batches")
    if len(got) < want_batches or not got:
        return
    c.check(not any(b.is_last for *_, b in got[:-1]), "a batch before the end is marked last")


def mk(kind, nshape, B, mode, shuffle, N, tiers=("quick", "thorough")):
    @check.obligation(f"exactly once: {kind}, {nshape} shape(s), batch {B}, {mode}, shuffle={shuffle}",
                      bounds=f"0..{N} records, free shapes and slots, two epochs", budget=300, covers=["done", "batches", "empty"],
                      functions=["DatasetPlanner.next_batch", "_next_uniform_batch", "_next_packed_uniform_batch", "_refill_ready",
                                 "_append_shape", "_make_batch", "start_epoch", "PackedUInt64ReadyBuffer.pop"], tiers=tiers)
    def ob(c):
        n = int(c.int("n", 0, N))
        shapes = [int(c.int(f"shape{i}", 1, nshape)) if nshape > 1 else 1 for i in range(n)] or [1]
        with FreeSlots(c).install():
            src = make_source(n, shapes, kind, zero=(kind == "chunk" and B == 2), declare={(k, k): k for k in range(1, nshape + 1)})
            p = planner(src, B=B, mode=mode, shuffle=shuffle)
            got = drain_batches(p)
            verify(c, got, n, shapes, B, mode, lambda i: (0, 0, i))
            c.check(p.finished and p.next_batch() is None, "finished planner keeps producing")
            c.cover("batches" if got else "empty")
            if not shuffle and nshape == 1:
                flat = [k for ks, real, _ in got for k, r in zip(ks, real) if r]
                c.check(flat == [(0, 0, i) for i in range(len(flat))], "without shuffling the order changed")
            c.check(p.epoch == 0 and all(b.epoch == 0 for *_, b in got), "epoch number")
            p.start_epoch(3)
            again = drain_batches(p)
            verify(c, again, n, shapes, B, mode, lambda i: (3, 0, i))
            c.check(len(again) == len(got) and all(b.epoch == 3 for *_, b in again), "second epoch delivers a different amount")
        c.cover("done")


for kind in ("one", "chunk", "packed"):
    for mode in ("train", "validate"):
        mk(kind, 1, 2, mode, True, 5)
        mk(kind, 1, 3, mode, False, 7)
mk("chunk", 2, 2, "train", True, 4)
mk("chunk", 2, 2, "test", True, 4)
mk("one", 2, 3, "validate", False, 5)
mk("one", 2, 1, "validate", True, 4)
mk("chunk", 3, 2, "validate", False, 5)
mk("chunk", 2, 3, "train", False, 6)
mk("chunk", 2, 2, "train", True, 5, tiers=("thorough",))
mk("chunk", 2, 2, "validate", True, 5, tiers=("thorough",))
mk("chunk", 3, 3, "validate", False, 6, tiers=("thorough",))
mk("packed", 1, 3, "validate", True, 7, tiers=("thorough",))
mk("one", 1, 3, "train", True, 7, tiers=("thorough",))


@check.obligation("packed planning equals object planning", bounds="<=6 records, batch 1..3, every slot choice", covers=["done"],
                  functions=["_next_packed_uniform_batch", "_next_uniform_batch", "PackedEnvelopeBatch"])
def ob(c):
    n = int(c.int("n", 0, 6))
    B = int(c.int("B", 1, 3))
    mode = c.choose("mode", ["train", "validate"])
    res = []
    fs = FreeSlots(c)
    fs.pick = lambda e, s, k, n_: fs.table.setdefault((k, n_), None) or _slot(fs, c, k, n_)
    for kind in ("one", "packed"):
        with fs.install():
            p = planner(make_source(n, [1], kind), B=B, mode=mode)
            res.append(drain_batches(p))
    a, b = res
    c.check(len(a) == len(b), "different number of batches")
    for (ka, ra, ba), (kb, rb, bb) in zip(a, b):
        c.check(ka == kb and ra == rb and ba.is_last == bb.is_last, "packed and object planning differ", detail=lambda: (ka, kb))
        c.check([x for x in (e.payload for e in ba.envelopes)] == [bb.envelopes[i].payload for i in range(len(bb.envelopes))], "payload differs")
    c.cover("done")


def _slot(fs, c, k, n):
    if fs.table.get((k, n)) is None:
        fs.table[(k, n)] = int(c.int(f"slot{k}_{n}", 0, n - 1)) if n > 1 else 0
    return fs.table[(k, n)]


def mkslices(kind, nshape, mode):
    @check.obligation(f"rank slices partition every global batch: {kind}, {nshape} shape(s), {mode}",
                      bounds="0..4 records, world 1..3, local batch 1..2", covers=["done", "many"], functions=["DatasetPlanner.local_slice"])
    def ob(c):
        n = int(c.int("n", 0, 4))
        W = int(c.int("world", 1, 3))
        L = int(c.int("local", 1, 2))
        shapes = [int(c.int(f"shape{i}", 1, nshape)) if nshape > 1 else 1 for i in range(n)] or [1]
        B = W * L
        parts = []
        full = None
        with FreeSlots(c).install(free=False):
            for r in range(W):
                p = planner(make_source(n, shapes, kind, declare={(k, k): k for k in range(1, nshape + 1)}), B=B, world=W, rank=r, mode=mode)
                rows = []
                mine = []
                desc = []
                while (t := p.next_transactional_batch()) is not None:
                    b, tok = t
                    envs, mask = p.local_slice(b)
                    c.check(len(envs) == L and shape_of(mask) == (L,), "rank slice has the wrong size")
                    rows.append(([e.record_key for e in envs], [bool(x) for x in elems(mask)]))
                    mine.append((keys(b), list(b.is_real)))
                    desc.append(tok.coordination_descriptor)
                parts.append(rows)
                if full is None:
                    full = (mine, desc)
                c.check((mine, desc) == full, "ranks disagree on the global plan")
        for j, (ks, real) in enumerate(full[0]):
            c.check([k for r in range(W) for k in parts[r][j][0]] == ks, "rank slices do not concatenate to the global batch", detail=lambda: (ks, parts))
            c.check([k for r in range(W) for k in parts[r][j][1]] == real, "rank masks do not concatenate to the global mask")
        if W > 1 and full[0]:
            c.cover("many")
        c.cover("done")


mkslices("one", 1, "validate")
mkslices("packed", 1, "validate")
mkslices("chunk", 2, "validate")
mkslices("chunk", 1, "train")


def mkbudget(kind, nshape):
    @check.obligation(f"step budget caps an epoch: {kind}, {nshape} shape(s)", bounds="0..5 records, budget 1..3, batch 1..2", covers=["budget", "short"],
                      functions=["_make_batch", "_finish_budget_epoch"])
    def ob(c):
        n = int(c.int("n", 0, 5))
        steps = int(c.int("steps", 1, 3))
        B = int(c.int("B", 1, 2))
        mode = c.choose("mode", ["train", "validate"])
        shapes = [int(c.int(f"shape{i}", 1, nshape)) if nshape > 1 else 1 for i in range(n)] or [1]
        dec = {(k, k): k for k in range(1, nshape + 1)}
        with FreeSlots(c).install(free=False):
            ref = drain_batches(planner(make_source(n, shapes, kind, declare=dec), B=B, mode=mode))
            p = planner(make_source(n, shapes, kind, declare=dec), B=B, mode=mode, steps=steps)
            got = drain_batches(p)
            c.check([g[:2] for g in got] == [g[:2] for g in ref[:steps]], "the budget changes which batches are produced")
            if len(got) == steps:
                c.check(got[-1][2].is_last and p.finished, "the batch that uses up the budget is not last")
                c.check(not any(b.is_last for *_, b in got[:-1]), "a batch before the budget is marked last")
                c.cover("budget")
                st = p.state()
                c.check(st.finished and st.source_exhausted and not len(st.ready) and not st.shape_queues, "finished state keeps work")
                q = planner(make_source(n, shapes, kind, declare=dec), B=B, mode=mode, steps=steps)
                q.restore(st)
                c.check(q.finished and q.next_batch() is None, "restored finished epoch produces more")
            else:
                c.check(len(got) == len(ref), "epoch ended before the budget although data was left")
                c.cover("short")


mkbudget("one", 1)
mkbudget("packed", 1)
mkbudget("chunk", 2)


def mksharded(kind, nshape):
    @check.obligation(f"rank-sharded streams deliver exactly the budget: {kind}, {nshape} shape(s)", bounds="three source cycles of 0..3 records, budget 1..3, local batch 1..2",
                      covers=["done", "recycled", "empty"], functions=["_restart_source_cycle", "_next_uniform_batch", "next_batch", "local_slice"])
    def ob(c):
        cyc = [int(c.int(f"cycle{i}", 0, 3)) for i in range(3)] + [2]
        steps = int(c.int("steps", 1, 3))
        L = int(c.int("local", 1, 2))
        shapes = [1 + (i % nshape) for i in range(3)]
        with FreeSlots(c).install(free=False):
            src = make_source(0, shapes, kind, exact=False, cycles=cyc, declare={(k, k): k for k in range(1, nshape + 1)})
            p = planner(src, B=2 * L, world=2, rank=1, steps=steps)
            c.check(src.dist == (2, 1, True), "source was not told its shard")
            got = drain_batches(p)
            c.check(len(got) == steps and got[-1][2].is_last and p.finished, "the epoch is not exactly the step budget")
            seen = []
            for ks, real, b in got:
                envs, mask = p.local_slice(b)
                c.check(len(ks) == L and all(real) and [e.record_key for e in envs] == ks, "rank-local batch size")
                c.check(len({e.shape_code for e in b.envelopes}) == 1, "mixed shapes")
                seen += ks
            c.check(len(set(seen)) == len(seen), "a record was repeated within one source cycle", detail=lambda: seen)
            last = max(k[1] for k in seen)
            for q in range(last):
                have = {k for k in seen if k[1] == q}
                n = cyc[min(q, 3)]
                lost = n - len(have)
                c.check(lost == 0 if nshape == 1 else lost < L * nshape, "records of a completed source cycle were dropped", detail=lambda: (q, cyc, seen))
            if last > 0:
                c.cover("recycled")
            if cyc[0] == 0:
                c.cover("empty")
            c.cover("done")


mksharded("one", 1)
mksharded("chunk", 1)
mksharded("chunk", 2)


@check.obligation("a rank-sharded stream without any record is reported", bounds="an endless run of empty cycles", covers=["done"], functions=["_next_uniform_batch", "next_batch"])
def ob(c):
    nshape = int(c.int("nshape", 1, 2))
    src = make_source(0, [1], "chunk", exact=False, cycles=[0], declare={(k, k): k for k in range(1, nshape + 1)})
    with FreeSlots(c).install(free=False):
        p = planner(src, B=2, world=2, rank=0, steps=2)
        expect_error(c, p.next_batch, (RuntimeError,), "endless empty cycles are not reported")
    c.cover("done")


@check.obligation("planner construction contract", bounds="every combination of the flags", covers=["ok", "bad"], functions=["DatasetPlanner.__init__"])
def ob(c):
    world = int(c.int("world", 1, 2))
    exact = bool(c.bool("exact"))
    steps = c.choose("steps", [None, 2])
    mode = c.choose("mode", ["train", "validate"])
    sharded = world > 1 and not exact
    must_fail = sharded and (mode != "train" or steps is None)
    src = make_source(2, [1], "one", exact=exact)
    with FreeSlots(c).install(free=False):
        try:
            p = planner(src, B=2, world=world, mode=mode, steps=steps)
        except ValueError:
            c.check(must_fail, "a legal configuration was rejected")
            c.cover("bad")
            return
        c.check(not must_fail, "an unsupported distributed configuration was accepted")
        c.check(src.dist == (world, 0, sharded), "source distribution")
        c.cover("ok")


@check.obligation("shape queues are bounded and shapes enforced", bounds="4 records, up to 3 shapes, limit 1..3", covers=["over", "fits", "foreign"],
                  functions=["_append_shape", "_next_uniform_batch"])
def ob(c):
    lim = int(c.int("limit", 1, 3))
    shapes = [int(c.int(f"s{i}", 1, 3)) for i in range(4)]
    with FreeSlots(c).install(free=False):
        p = planner(make_source(4, shapes, "one", declare={1: 1, 2: 2, 3: 3}), B=4, mode="validate", maxq=lim, shuffle=False)
        distinct = len(set(shapes))
        try:
            drain_batches(p)
            c.check(distinct <= lim, "shape queue limit exceeded silently")
            c.cover("fits")
        except RuntimeError:
            c.check(distinct > lim, "shape queue limit raised too early")
            c.cover("over")
        u = planner(make_source(4, shapes, "one", declare={1: 1}), B=2, mode="validate")
        if any(s != 1 for s in shapes):
            expect_error(c, lambda: drain_batches(u), (RuntimeError,), "foreign shape accepted in a uniform stream")
            c.cover("foreign")


if __name__ == "__main__":
    check.main()
