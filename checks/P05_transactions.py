import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dataclasses import replace
import pickle
from symx.harness import *
from plan_common import *

check = Check("P05", "planner transactions", assumptions=[
    "record sources are stubs honouring the source contract; slot choices of the shuffle are free; SHA-256 is collision free",
    "<= 4 records per epoch, batch 1..2, crash after any number of yielded and committed batches, two epochs",
])


class Counter:
    pipeline_id, schema_version, input_fields, output_fields = "counter", 1, (), ()

    def signature_state(self):
        return {"k": 1}

    def initial_state(self):
        return {"seen": 0}

    def prepare_batch(self, data, *, current_state, sample_keys, rng_keys):
        C = repo("dataset.core")
        n = current_state["seen"] + 1 + len(sample_keys)
        return C.PreparedPipelineResult(dict(data), {"seen": n})


def composer(on):
    return repo("dataset.core").PipelineStateComposer([Counter()]) if on else None


class Run:
    """A training loop in miniature: yields with a one-batch look-ahead exactly as the dataset does."""

    def __init__(self, p, pipe):
        self.p, self.pipe = p, pipe
        self.out = []

    def step(self):
        t = self.p.next_transactional_batch()
        if t is None:
            if self.out and not self.out[-1][0].is_last and self.p.finished:
                return "end"
            return None
        b, tok = t
        if self.pipe:
            _, tok = self.p.prepare_pipeline_batch(b, tok, {"x": [1]}, tuple(keys(b)))
        self.out.append((b, tok))
        return b, tok


def row(b, tok):
    return (b.epoch, b.batch_index, keys(b), list(b.is_real), b.is_last, tok.before_digest, tok.after_digest, tok.after_pipeline_blob)


def reference(p, pipe, epochs=2):
    eps = []
    for e in range(epochs):
        rows = []
        while (t := p.next_transactional_batch()) is not None:
            b, tok = t
            if pipe:
                _, tok = p.prepare_pipeline_batch(b, tok, {"x": [1]}, tuple(keys(b)))
            p.commit_batch(tok)
            rows.append(row(b, tok))
        eps.append(rows)
        if e + 1 < epochs:
            p.begin_next_epoch()
    return eps


def through_disk(state):
    return pickle.loads(pickle.dumps(state))


def mk(kind, nshape, mode, pipe, shuffle, N, steps=None, tiers=("quick", "thorough")):
    @check.obligation(f"resume at any point: {kind}, {nshape} shape(s), {mode}, pipeline={pipe}, shuffle={shuffle}, budget={steps}",
                      bounds=f"1..{N} records, every cut", covers=["rollback", "reload", "mid"], budget=400, tiers=tiers,
                      functions=["next_transactional_batch", "prepare_pipeline_batch", "prepare_commit", "commit_prepared", "rollback_uncommitted",
                                 "state_dict", "load_state_dict", "state", "restore", "_state_to_serializable", "_state_from_serializable"])
    def ob(c):
        n = int(c.int("n", 1, N))
        B = int(c.int("B", 1, 2))
        shapes = [int(c.int(f"shape{i}", 1, nshape)) if nshape > 1 else 1 for i in range(n)]
        dec = {(k, k): k for k in range(1, nshape + 1)}
        with FreeSlots(c).install(free=shuffle):
            new = lambda: planner(make_source(n, shapes, kind, declare=dec), B=B, mode=mode, shuffle=shuffle, composer=composer(pipe), steps=steps)
            ref = reference(new(), pipe)
            p = new()
            total = len(ref[0])
            k = int(c.int("yielded", 0, total))
            j = int(c.int("committed", 0, k))
            group = bool(c.bool("grouped"))
            toks = []
            for i in range(k):
                b, tok = p.next_transactional_batch()
                if pipe:
                    _, tok = p.prepare_pipeline_batch(b, tok, {"x": [1]}, tuple(keys(b)))
                toks.append(tok)
                if i < j and not group:
                    p.commit_batch(tok)
            if group and j:
                cand = p.prepare_commit(toks[:j])
                c.check(cand.token_count == j, "token count")
                p.commit_prepared(cand)
            if bool(c.bool("new_process")):
                st = p.state_dict()
                st = through_disk(st)
                p = new()
                p.load_state_dict(st)
                c.cover("reload")
            else:
                p.rollback_uncommitted()
                c.cover("rollback")
            if 0 < j < total:
                c.cover("mid")
            rest = reference_rest(p, pipe)
            c.check(rest == ref[0][j:], "the resumed epoch differs from the uninterrupted one", detail=lambda: (j, k, rest, ref[0]))
            p.begin_next_epoch()
            nxt = reference(p, pipe, 1)[0]
            c.check(nxt == ref[1], "the epoch after a resume differs", detail=lambda: (nxt, ref[1]))


def reference_rest(p, pipe):
    return reference(p, pipe, 1)[0]


mk("one", 1, "train", False, True, 4)
mk("chunk", 1, "validate", False, True, 4)
mk("packed", 1, "train", False, True, 4)
mk("packed", 1, "validate", True, True, 4)
mk("chunk", 2, "validate", False, False, 4)
mk("one", 2, "train", True, False, 4)
mk("chunk", 2, "train", False, True, 3)
mk("one", 1, "train", True, True, 4, steps=2)
mk("packed", 1, "train", False, True, 5, tiers=("thorough",))
mk("chunk", 2, "validate", True, True, 4, tiers=("thorough",))


@check.obligation("rank-sharded progress resumes across source cycles", bounds="cycles of 0..2 records, budget 3, any cut", covers=["done", "recycled"],
                  functions=["_restart_source_cycle", "coordination_state_dict", "restore"])
def ob(c):
    cyc = [int(c.int(f"cycle{i}", 0, 2)) for i in range(3)] + [2]
    L = int(c.int("L", 1, 2))
    nshape = int(c.int("nshape", 1, 2))
    with FreeSlots(c).install(free=False):
        new = lambda rank=1: planner(make_source(0, [1, nshape], "one", exact=False, cycles=cyc, declare={(k, k): k for k in range(1, nshape + 1)}),
                                     B=2 * L, world=2, rank=rank, steps=3)
        ref = reference(new(), False)
        p = new()
        j = int(c.int("committed", 0, 3))
        for _ in range(j):
            p.commit_batch(p.next_transactional_batch()[1])
        p.next_transactional_batch()
        st = through_disk(p.state_dict())
        co = p.coordination_state_dict()
        q = new(0)
        for _ in range(j):
            q.commit_batch(q.next_transactional_batch()[1])
        c.check(q.coordination_state_dict() == co, "ranks at the same step report different progress")
        c.check(co["batch_index"] == j and co["finished"] == (j == 3) and co["epoch"] == 0, "progress summary")
        p = new()
        p.load_state_dict(st)
        rest = reference_rest(p, False)
        c.check(rest == ref[0][j:], "the resumed shard differs", detail=lambda: (cyc, j, rest, ref[0]))
        if any(k[1] > 0 for r in ref[0] for k in r[2]):
            c.cover("recycled")
    c.cover("done")


@check.obligation("only a contiguous run of tokens can be committed", bounds="3 batches, every tampering below", covers=["done"],
                  functions=["prepare_commit", "commit_prepared"])
def ob(c):
    pipe = bool(c.bool("pipe"))
    resumable = bool(c.bool("resumable"))
    with FreeSlots(c).install(free=False):
        p = planner(make_source(8, [1], "one", resumable=resumable), B=2, composer=composer(pipe))
        toks = []
        for _ in range(4):
            b, t = p.next_transactional_batch()
            if pipe:
                _, t = p.prepare_pipeline_batch(b, t, {"x": [1]}, tuple(keys(b)))
            toks.append(t)
        done = int(c.int("done", 0, 1))
        for i in range(done):
            p.commit_batch(toks[i])
        t = toks[done:]
        before = (p._committed_digest, p._committed_pipeline_blob)
        kind = c.choose("tamper", ["empty", "skip_first", "repeat", "reorder", "gap", "old", "digest", "epoch", "index", "state", "blob", "short_digest"])
        if kind == "empty":
            expect_error(c, lambda: p.prepare_commit([]), (ValueError,), "an empty transaction was accepted")
        else:
            bad = {
                "skip_first": lambda: [t[1], t[2]], "repeat": lambda: [t[0], t[0]], "reorder": lambda: [t[1], t[0]],
                "gap": lambda: [t[0], t[2]], "old": lambda: [toks[0], toks[1]] if done else [t[2]],
                "digest": lambda: [t[0], replace(t[1], before_digest="0" * 64)],
                "epoch": lambda: [t[0], replace(t[1], epoch=t[1].epoch + 1)],
                "index": lambda: [t[0], replace(t[1], batch_index=t[1].batch_index + 1)],
                "state": lambda: [t[0], replace(t[1], before_state=t[0].before_state)],
                "blob": lambda: [t[0], replace(t[1], before_pipeline_blob=t[1].before_pipeline_blob + b" ")],
                "short_digest": lambda: [t[0], replace(t[1], after_digest=t[1].after_digest[:-1])],
            }[kind]()
            legal = kind == "state" and not resumable
            try:
                p.prepare_commit(bad)
                c.check(legal, f"a tampered transaction was accepted: {kind}")
            except RuntimeError:
                c.check(not legal, "a legal transaction was rejected")
        c.check((p._committed_digest, p._committed_pipeline_blob) == before, "a rejected transaction changed the committed state")
        cand = p.prepare_commit(t[:2])
        c.check(cand.before_digest == t[0].before_digest and cand.after_digest == t[1].after_digest and cand.after_pipeline_blob == t[1].after_pipeline_blob,
                "prepared commit does not span the tokens")
        if resumable:
            c.check(cand.after_state == t[1].after_state, "prepared commit has the wrong cursor")
        other = p.prepare_commit(t[:1])
        p.commit_prepared(other)
        expect_error(c, lambda: p.commit_prepared(cand), (RuntimeError,), "a stale prepared commit was accepted")
        p.commit_batch(t[1])
        if resumable:
            c.check(p.state_dict()["cursor"]["batch_index"] == done + 2, "committed progress")
        else:
            expect_error(c, p.state_dict, (RuntimeError,), "non-resumable source produced a checkpoint")
            expect_error(c, p.rollback_uncommitted, (RuntimeError,), "non-resumable source rolled back")
    c.cover("done")


@check.obligation("an epoch cannot advance with unfinished or uncommitted work", bounds="2..4 records", covers=["done"], functions=["begin_next_epoch", "finalize_terminal_token"])
def ob(c):
    n = int(c.int("n", 2, 4))
    with FreeSlots(c).install(free=False):
        p = planner(make_source(n, [1], "one"), B=2)
        expect_error(c, p.begin_next_epoch, (RuntimeError,), "unfinished epoch advanced")
        toks = []
        while (t := p.next_transactional_batch()) is not None:
            b, tok = t
            if toks:
                p.commit_batch(toks[-1])
            toks.append(tok)
            c.check(not b.is_last, "terminal batch known too early")
            if not p.finished:
                expect_error(c, lambda: p.finalize_terminal_token(tok), (RuntimeError,), "a non-terminal token was finalized")
        expect_error(c, p.begin_next_epoch, (RuntimeError,), "uncommitted batches were skipped")
        if len(toks) > 1:
            expect_error(c, lambda: p.finalize_terminal_token(toks[0]), (RuntimeError,), "an old token was finalized")
        b, fin = p.finalize_terminal_token(toks[-1])
        c.check(b.is_last and fin.batch.is_last and b.envelopes == toks[-1].batch.envelopes, "terminal batch not marked last")
        c.check(fin.after_digest != toks[-1].after_digest, "the end-of-epoch flag is not covered by the digest")
        c.check(fin.after_state.finished, "final cursor is not finished")
        p.commit_batch(fin)
        st = through_disk(p.state_dict())
        q = planner(make_source(n, [1], "one"), B=2)
        q.load_state_dict(st)
        c.check(q.finished and q.next_transactional_batch() is None, "a finished epoch restarts after reload")
        for r in (p, q):
            r.begin_next_epoch()
            c.check(r.epoch == 1 and r.batch_index == 0 and r.committed_epoch == 1, "next epoch position")
            b, tok = r.next_transactional_batch()
            c.check(all(k[0] == 1 for k in keys(b)), "the next epoch replays the previous one")
            c.check(tok.before_digest not in (t.before_digest for t in toks), "epochs share a digest chain")
    c.cover("done")


@check.obligation("a checkpoint is refused after the contract changed", bounds="each listed change", covers=["done"], functions=["load_state_dict", "signature_state", "_state_from_serializable"])
def ob(c):
    with FreeSlots(c).install(free=False):
        base = dict(B=2, cap=2, seed=5, mode="train", shuffle=True, steps=None)
        pipe = bool(c.bool("pipe"))
        p = planner(make_source(4, [1], "one"), composer=composer(pipe), **base)
        p.commit_batch(finish(p, pipe))
        st = p.state_dict()
        kind = c.choose("change", ["same", "seed", "batch", "cap", "shuffle", "mode", "source", "steps", "pipe", "world", "version", "algorithm", "digest",
                                   "blob", "cursor", "slot"])
        kw, src, st2 = dict(base), make_source(4, [1], "one"), dict(through_disk(st))
        comp = composer(pipe)
        if kind == "seed":
            kw["seed"] = 6
        if kind == "batch":
            kw["B"] = 1
        if kind == "cap":
            kw["cap"] = 3
        if kind == "shuffle":
            kw["shuffle"] = False
        if kind == "mode":
            kw["mode"] = "validate"
        if kind == "source":
            src = make_source(5, [1], "one")
        if kind == "steps":
            kw["steps"] = 9
        if kind == "pipe":
            comp = composer(not pipe)
        if kind == "world":
            kw["world"] = 2
        if kind == "version":
            st2["version"] = 2
        if kind == "algorithm":
            st2["planner_algorithm"] = "x"
        if kind == "digest":
            st2["cursor_digest"] = "00"
        if kind == "blob":
            st2["pipeline_state"] = "zz"
        if kind == "cursor":
            st2["cursor"] = {k: v for k, v in st2["cursor"].items() if k != "ready"}
        if kind == "slot":
            cu = dict(st2["cursor"])
            cu["reservoir"] = dict(cu["reservoir"], offered=cu["reservoir"]["offered"] + 1)
            st2["cursor"] = cu
        q = planner(src, composer=comp, **kw)
        fresh = q.state_dict()
        if kind == "same":
            q.load_state_dict(st2)
            c.check(q.state_dict() == st, "a reloaded checkpoint is not the checkpoint")
        else:
            expect_error(c, lambda: q.load_state_dict(st2), (RuntimeError, ValueError), f"checkpoint accepted after a change of {kind}")
            c.check(q.state_dict() == fresh, "a refused checkpoint changed the committed state")
    c.cover("done")


def finish(p, pipe):
    b, tok = p.next_transactional_batch()
    if pipe:
        _, tok = p.prepare_pipeline_batch(b, tok, {"x": [1]}, tuple(keys(b)))
    return tok


@check.obligation("restored positions are validated", bounds="any batch index and cycle in [-3,6], every flag and queue layout", covers=["ok", "bad"],
                  functions=["DatasetPlanner.restore"])
def ob(c):
    steps = c.choose("steps", [None, 2])
    with FreeSlots(c).install(free=False):
        mq = 1 + int(c.int("maxq", 0, 1))
        mkp = lambda one=False: planner(make_source(5, [1] if one else [1, 2], "one", declare={1: 1, 2: 2}), B=2, mode="validate", steps=steps, cap=1, maxq=mq)
        p = mkp(mq == 1)
        p.next_batch()
        st = p.state()
        E = repo("dataset.source").RecordEnvelope
        bi = c.int("batch_index", -3, 6)
        cy = c.int("cycle", -3, 6)
        fin = bool(c.bool("finished"))
        exh = bool(c.bool("exhausted"))
        closed = bool(c.bool("closed"))
        nready = int(c.int("nready", 0, 1))
        layout = c.choose("queues", ["none", "one", "two", "dup", "full", "empty", "foreign"])
        e = lambda s, i: E(0, (0, 0, i), s, ("p",), 0)
        qs = {"none": (), "one": ((1, (e(1, 7),)),), "two": ((1, (e(1, 7),)), (2, (e(2, 8),))), "dup": ((1, (e(1, 7),)), (1, (e(1, 8),))),
              "full": ((1, (e(1, 7), e(1, 8))),), "empty": ((1, ()),), "foreign": ((1, (e(2, 7),)),)}[layout]
        res = replace(st.reservoir, closed=closed, slots=() if closed else st.reservoir.slots, slot_sizes=() if closed else st.reservoir.slot_sizes,
                      emitted=st.reservoir.offered if closed else st.reservoir.emitted)
        s2 = replace(st, batch_index=bi, source_cycle=cy, finished=fin, source_exhausted=exh, reservoir=res, ready=tuple(e(1, 9) for _ in range(nready)),
                     shape_queues=qs)
        good = sand(bi >= 0, cy == 0, exh == closed, not (fin and (not exh or nready or qs)),
                    layout in ("none", "one", "two"), len(qs) <= p.config.max_shape_queues)
        if steps is not None:
            good = sand(good, bi <= steps, sor(bi < steps, fin))
        q = mkp(mq == 1)
        try:
            q.restore(s2)
        except ValueError:
            c.check(snot(good), "a valid planner state was rejected")
            c.cover("bad")
            return
        c.check(good, "an inconsistent planner state was accepted", detail=lambda: (bi, cy, fin, exh, closed, layout))
        c.check(same(q.batch_index, bi), "restored batch index")
        c.check(q.finished == fin, "restored lifecycle")
        c.cover("ok")


@check.obligation("the digest chain identifies the whole history", bounds="two histories of <= 2 batches of <= 2 records", covers=["same", "differ"],
                  functions=["_token_digest", "_initial_digest"])
def ob(c):
    def hist(tag):
        S = repo("dataset.source")
        n = int(c.int(f"n{tag}", 1, 3))
        ks = [int(c.int(f"k{tag}{i}", 0, 1)) for i in range(n)]
        B = 2
        src = make_source(n, [1], "one")
        src._env = lambda cur, i: S.RecordEnvelope(0, (ks[i],), 1, ("p",), 0)
        src.manifest_state = lambda: {"kind": "stub"}
        p = planner(src, B=B, mode="validate", shuffle=False)
        ds = []
        while (t := p.next_transactional_batch()) is not None:
            ds.append((keys(t[0]), list(t[0].is_real), t[0].is_last))
            last = t[1].after_digest
        return ds, last
    with FreeSlots(c).install(free=False):
        a, b = hist("a"), hist("b")
    c.check((a[0] == b[0]) == (a[1] == b[1]), "digest does not identify the history", detail=lambda: (a, b))
    c.cover("same" if a[0] == b[0] else "differ")


@check.obligation("pipeline state follows the batch it was computed from", bounds="2 batches", covers=["done"], functions=["prepare_pipeline_batch"])
def ob(c):
    with FreeSlots(c).install(free=False):
        p = planner(make_source(6, [1], "one"), B=2, composer=composer(True))
        b0, t0 = p.next_transactional_batch()
        look = bool(c.bool("lookahead"))
        if look:
            b1, t1 = p.next_transactional_batch()
            expect_error(c, lambda: p.prepare_pipeline_batch(b0, t0, {"x": 1}, tuple(keys(b0))), (RuntimeError,), "pipeline applied to a stale batch")
        else:
            d, t0b = p.prepare_pipeline_batch(b0, t0, {"x": 1}, tuple(keys(b0)))
            b1, t1 = p.next_transactional_batch()
            c.check(t1.before_pipeline_blob == t0b.after_pipeline_blob and t1.before_digest == t0b.after_digest, "pipeline state is not chained")
            expect_error(c, lambda: p.prepare_pipeline_batch(b1, t0b, {"x": 1}, ()), (RuntimeError,), "token of another batch accepted")
            d, t1 = p.prepare_pipeline_batch(b1, t1, {"x": 1}, tuple(keys(b1)))
            C = repo("dataset.core")
            c.check(p.pipeline_composer._decode_blob(t1.after_pipeline_blob) == [{"seen": 6}], "pipeline state after two batches")
            p.rollback_uncommitted()
            b, t = p.next_transactional_batch()
            c.check(t.before_pipeline_blob == p.pipeline_composer.initial_blob and keys(b) == keys(b0), "rollback keeps pipeline progress")
    c.cover("done")


if __name__ == "__main__":
    check.main()
