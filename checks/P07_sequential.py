import os, sys, io, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dataclasses import replace
import pickle
from symx.harness import *

check = Check("P07", "sequential source", assumptions=[
    "files are in-memory byte streams of 2-byte entries; admission of a record is a free choice per record identity (its rule is decided by P01)",
    "<= 4 files, <= 3 entries per file, <= 2 subrecords, quantum <= 2, <= 3 open files",
])


class World:
    def __init__(self, c, counts, sub, trunc=None):
        self.c, self.counts, self.sub = c, counts, sub
        self.dir = tempfile.mkdtemp(prefix="seq_", dir=scratch())
        self.paths = []
        self.content = {}
        self.opened = []
        for i, k in enumerate(counts):
            p = os.path.join(self.dir, f"f{i}.bin")
            with open(p, "wb") as f:
                f.write(b"x" * (i + 1))
            os.utime(p, ns=(10**9, 10**9))
            p = os.path.realpath(p)
            self.paths.append(p)
            self.content[p] = b"".join(bytes([i * 16 + j, sub(i, j)]) for j in range(k)) + (b"\x01" if trunc == i else b"")
        self.adm = {}

    def admit(self, rate, seed, epoch, key):
        k = (epoch, self.paths_index(key), key[3])
        if k not in self.adm:
            self.adm[k] = True if rate == 1.0 else bool(self.c.bool("adm_" + "_".join(map(str, [epoch % 97, k[1], *k[2]]))))
        return self.adm[k]

    def paths_index(self, key):
        return self.fk[key[1]]

    def close(self):
        import shutil
        shutil.rmtree(self.dir)


def build(w, api="entry", subs=False, shuffle=False, rate=1.0, streams=2, quantum=1, seed=3, paths=None, fmt="t"):
    S = repo("dataset.sequential_source")

    def open_file(p):
        b = io.BytesIO(w.content[p])
        w.opened.append(b)
        live = sum(1 for x in w.opened if not x.closed)
        w.peak = max(getattr(w, "peak", 0), live)
        return b

    def read_entry(st):
        b = st.read(2)
        if len(b) < 2:
            raise EOFError("short")
        return tuple(b)

    def read_raw(st):
        b = st.read(2)
        if len(b) < 2:
            raise EOFError("short")
        return b
    kw = {}
    if api == "raw":
        kw = dict(read_raw_entry=read_raw, decode_raw_entry=lambda b: tuple(b))
    if subs:
        kw["subrecord_count"] = lambda e: e[1] % 4
    s = S.InterleavedSequentialSource(
        paths or w.paths, format_id=fmt, schema_version=1, seed=seed, shuffle=shuffle, sample_rate=rate, active_streams=streams, read_quantum=quantum,
        output_shapes=[(1, 1), (2, 2)], open_file=open_file, read_entry=read_entry,
        shape_of=lambda e: None if e[1] & 8 else ((2, 2) if e[1] & 4 else (1, 1)),
        materialize_entry=lambda e, key, ep, *a: {"e": e, "key": key, "ep": ep, "sub": a}, **kw)
    w.fk = {d.file_key: i for i, d in enumerate(s.descriptors)}
    return s


def run(s, cur, stop=None, hist=None):
    out = []
    while True:
        if stop is not None and len(out) >= stop:
            return out, cur
        e, cur = s.next_envelope(cur)
        if e is None:
            return out, cur
        out.append(e)
        if len(out) > 100:
            raise RuntimeError("source does not terminate")


def ids(out):
    return [(e.source_id, e.record_key[3], e.shape_code, e.payload.raw_entry, e.payload.subrecord, e.payload.augmentation_epoch, e.record_key, e.resident_bytes)
            for e in out]


def mk(api, subs, nf, rate, shuffle, tiers=("quick", "thorough"), K=2):
    @check.obligation(f"every record once, resumable anywhere: {api}, subrecords={subs}, {nf} files, rate {rate}, shuffle={shuffle}, <={K} entries", tiers=tiers,
                      bounds=f"{nf} files of 0..{K} entries, quantum 1..2, 1..{nf} open files, any cut", budget=300, covers=["done", "cut"],
                      functions=["next_envelope", "_next_pending_envelope", "_replace_or_remove", "_advance_turn", "save_cursor", "restore_cursor", "start_cycle"])
    def ob(c):
        S = repo("dataset.sequential_source")
        counts = [int(c.int(f"count{i}", 0, K)) for i in range(nf)]
        kinds = {}

        def sub(i, j):
            if (i, j) not in kinds:
                kinds[(i, j)] = int(c.int(f"sub{i}_{j}", 0, 2)) if subs and i == 0 else (2 if subs else (4 if (i + j) % 3 == 0 else (8 if (i + j) % 5 == 2 else 0)))
            return kinds[(i, j)]
        w = World(c, counts, sub)
        try:
            streams, quantum = int(c.int("streams", 1, nf)), int(c.int("quantum", 1, 2))
            new = lambda: build(w, api, subs, shuffle, rate, streams, quantum)
            with patched(S, "sample_is_admitted", w.admit) if hasattr(S, "sample_is_admitted") else contextlib.nullcontext():
                s = new()
                full, end = run(s, s.start_epoch(1, 0))
                c.check(not end.active and w.peak <= streams, "more files open than configured")
                want = []
                for i in range(nf):
                    for j in range(counts[i]):
                        b = sub(i, j)
                        if b & 8:
                            continue
                        for q in (range(b % 4) if subs else [None]):
                            addr = (j,) if q is None else (j, q)
                            if w.admit(rate, 0, 1, ("", s.descriptors[i].file_key, "", addr)):
                                want.append((i, addr, 1 if b & 4 else 0, bytes([i * 16 + j, b])))
                got = [(e.source_id, e.record_key[3], e.shape_code, e.payload.raw_entry) for e in full]
                c.check(sorted(got) == sorted(want), "records lost, repeated or altered", detail=lambda: (got, want))
                for i in range(nf):
                    mine = [g[1] for g in got if g[0] == i]
                    c.check(mine == sorted(mine), "records of one file are out of order")
                c.check(len({e.record_key for e in full}) == len(full), "record identity is not unique")
                # the rotation: one file never keeps the turn beyond its quantum while another is open
                cut = int(c.int("cut", 0, min(len(full), 4)))
                a = new()
                head, cur = run(a, a.start_epoch(1, 0), cut)
                st = pickle.loads(pickle.dumps(a.save_cursor(cur)))
                if bool(c.bool("closed")):
                    a.close_cursor(cur)
                b_ = new()
                cur2 = b_.restore_cursor(st)
                c.check(b_.save_cursor(cur2) == st, "a restored cursor saves differently")
                tail, _ = run(b_, cur2)
                c.check(ids(head) + ids(tail) == ids(full), "resume changes the stream", detail=lambda: (cut, ids(tail)))
                if 0 < cut < len(full):
                    c.cover("cut")
                # payloads survive a checkpoint
                for e in head:
                    c.check(b_.restore_payload(pickle.loads(pickle.dumps(a.save_payload(e.payload)))) == e.payload, "payload round trip")
        finally:
            w.close()
        c.cover("done")


mk("entry", False, 2, 1.0, False)
mk("raw", False, 3, 1.0, True)
mk("entry", True, 2, 1.0, False)
mk("raw", True, 2, 0.5, True, K=1)
mk("entry", False, 2, 0.5, False)
mk("raw", True, 3, 1.0, False, tiers=("thorough",))
mk("entry", True, 2, 0.5, False, tiers=("thorough",))
mk("raw", False, 3, 1.0, False, tiers=("thorough",), K=3)


@check.obligation("readers rotate after their quantum", bounds="2..3 files, quantum 1..3, 1..3 open files", covers=["done"], functions=["_advance_turn", "_replace_or_remove"])
def ob(c):
    nf = int(c.int("nf", 1, 3))
    counts = [int(c.int(f"count{i}", 0, 3)) for i in range(nf)]
    w = World(c, counts, lambda i, j: 0)
    try:
        streams, q = int(c.int("streams", 1, 3)), int(c.int("quantum", 1, 3))
        s = build(w, "raw", streams=streams, quantum=q)
        got = [(e.source_id, e.record_key[3][0]) for e in run(s, s.start_epoch(0, 0))[0]]
        # reference round robin
        order = list(range(nf))
        act = [[f, 0] for f in order[:streams]]
        nxt = len(act)
        ref, t, used = [], 0, 0
        while act:
            f, k = act[t]
            if k >= counts[f]:
                if nxt < nf:
                    act[t] = [nxt, 0]
                    nxt += 1
                else:
                    act.pop(t)
                    if act:
                        t %= len(act)
                used = 0
                continue
            ref.append((f, k))
            act[t][1] += 1
            used += 1
            if used >= q:
                t, used = (t + 1) % len(act), 0
        c.check(got == ref, "interleaving differs from round robin with the configured quantum", detail=lambda: (got, ref))
    finally:
        w.close()
    c.cover("done")


def mkshard(nf, W, tiers=("quick", "thorough")):
  @check.obligation(f"rank shards partition the files and are balanced: {nf} files, {W} ranks", bounds="files of any size < 2**62, any epoch/cycle", covers=["done"], budget=300,
                  functions=["_file_order", "configure_distributed"], tiers=tiers)
  def ob(c):
    shuffle = bool(c.bool("shuffle"))
    w = World(c, [1] * nf, lambda i, j: 0)
    try:
        s = build(w, "raw", shuffle=shuffle)
        if nf < W:
            expect_error(c, lambda: s.configure_distributed(W, 0, rank_sharded=True), (ValueError,), "more ranks than files accepted")
            c.cover("done")
            return
        sizes = [c.zint(f"size{i}", 0, (1 << 62) - 1) for i in range(nf)]
        s.descriptors = tuple(replace(d, size=z) for d, z in zip(s.descriptors, sizes))
        shards = []
        for cyc in (0, 2):
            cur = []
            for r in range(W):
                s.configure_distributed(W, r, rank_sharded=True)
                cur.append(s.start_cycle(5, cyc, r).file_order)
            flat = sorted(f for x in cur for f in x)
            c.check(flat == list(range(nf)), "shards do not partition the files", detail=lambda: cur)
            c.check(all(len(x) > 0 for x in cur), "a rank got no file")
            shards.append([sorted(x) for x in cur])
        c.check(shards[0] == shards[1], "file ownership changes between cycles")
        loads = [0] * W
        for r in range(W):
            for f in shards[0][r]:
                loads[r] = loads[r] + sizes[f]
        top = sizes[0]
        for z in sizes[1:]:
            top = ite(z > top, z, top)
        for a in loads:
            for b in loads:
                c.check(a - b <= top, "shard sizes differ by more than the largest file")
        s.configure_distributed(W, 0, rank_sharded=False)
        o = s.start_cycle(5, 0, 0).file_order
        c.check(sorted(o) == list(range(nf)), "a replicated stream must read every file")
        if not shuffle:
            c.check(list(o) == list(range(nf)), "unshuffled files must be read in order")
        expect_error(c, lambda: s.start_cycle(5, 0, 1), (ValueError,), "foreign rank accepted")
        expect_error(c, lambda: s.configure_distributed(W, W, rank_sharded=False), (ValueError,), "rank outside world accepted")
    finally:
        w.close()
    c.cover("done")


mkshard(1, 2)
for nf in (2, 3, 4):
    for W in (1, 2, 3):
        if nf >= W:
            mkshard(nf, W)
mkshard(5, 2, ("thorough",))
mkshard(5, 3, ("thorough",))


@check.obligation("materialisation checks identity and decodes the stored entry", bounds="2 files, cycle 0..2, every field tampered", covers=["good", "bad"],
                  functions=["materialize_batch"])
def ob(c):
    S = repo("dataset.sequential_source")
    subs = bool(c.bool("subs"))
    api = c.choose("api", ["raw", "entry"])
    cyc = int(c.int("cycle", 0, 2))
    w = World(c, [2, 1], lambda i, j: 2 if subs else 0)
    try:
        s = build(w, api, subs)
        s.configure_distributed(1, 0, rank_sharded=False)
        out, _ = run(s, s.start_cycle(4, cyc, 0))
        with patched(S, "collate_sample_dicts", lambda samples, **k: samples):
            got = s.materialize_batch(out)
            for e, g in zip(out, got):
                c.check(g["e"] == tuple(e.payload.raw_entry) and g["key"] == e.record_key and g["ep"] == e.payload.augmentation_epoch
                        and g["sub"] == ((e.payload.subrecord,) if subs else ()), "materialised sample does not belong to the envelope")
            c.check(len({e.payload.augmentation_epoch for e in out}) == 1, "augmentation epoch varies within a cycle")
            if cyc == 0:
                c.check(out[0].payload.augmentation_epoch == 4, "first cycle must use the epoch number")
            e = out[1]
            k = e.record_key
            tamper = c.choose("tamper", ["source", "key_file", "fmt", "sub", "trail", "range"])
            if tamper == "source":
                bad = replace(e, source_id=1 - e.source_id)
            elif tamper == "key_file":
                bad = replace(e, record_key=(k[0], s.descriptors[1 - e.source_id].file_key, k[2], k[3]))
            elif tamper == "fmt":
                bad = replace(e, record_key=(k[0], k[1], "zz", k[3]))
            elif tamper == "sub":
                bad = replace(e, payload=replace(e.payload, subrecord=None if subs else 0))
            elif tamper == "range":
                bad = replace(e, source_id=7)
            else:
                if api == "raw":
                    c.cover("bad")
                    return
                bad = replace(e, payload=replace(e.payload, raw_entry=e.payload.raw_entry + b"z"))
            expect_error(c, lambda: s.materialize_batch([bad]), (RuntimeError,), f"inconsistent envelope accepted: {tamper}")
            c.cover("bad")
        c.cover("good")
    finally:
        w.close()


@check.obligation("source cycles and epochs never share record identities", bounds="epochs 0..3, cycles 0..3", covers=["done"], functions=["start_cycle", "_augmentation_epoch"])
def ob(c):
    w = World(c, [2], lambda i, j: 2)
    subs = bool(c.bool("subs"))
    try:
        s = build(w, "raw", subs)
        a, b = int(c.int("cyc_a", 0, 3)), int(c.int("cyc_b", 0, 3))
        x, y = run(s, s.start_cycle(1, a, 0))[0], run(s, s.start_cycle(1, b, 0))[0]
        ka, kb = {e.record_key for e in x}, {e.record_key for e in y}
        c.check((ka == kb) if a == b else not (ka & kb), "cycles share record identities")
        c.check((x[0].payload.augmentation_epoch == y[0].payload.augmentation_epoch) == (a == b), "cycles share augmentation randomness")
    finally:
        w.close()
    c.cover("done")


@check.obligation("cursors are validated", bounds="any turn, quantum, file position in [-2,5]; every listed structural change", covers=["ok", "bad"],
                  functions=["restore_cursor"])
def ob(c):
    subs = bool(c.bool("subs"))
    w = World(c, [2, 2, 1], lambda i, j: 2 if subs else 0)
    try:
        s = build(w, "raw", subs, streams=2, quantum=2)
        cut = int(c.int("cut", 1, 3))
        _, cur = run(s, s.start_epoch(0, 0), cut)
        st = pickle.loads(pickle.dumps(s.save_cursor(cur)))
        kind = c.choose("kind", ["nums", "order", "dup", "unsched", "negative", "toomany", "schema", "empty", "pend_raw", "pend_next", "pend_count", "pend_shape", "pend_entry"])
        must_fail = True
        if kind == "nums":
            t, q, n = c.int("turn", -2, 5), c.int("quantum", -2, 5), c.int("nextpos", -2, 5)
            st["turn"], st["quantum_used"], st["next_file_position"] = t, q, n
            need = 1 + max(i["descriptor_index"] for i in st["active"])
            must_fail = snot(sand(t >= 0, t < len(st["active"]), q >= 0, q < 2, n >= need, n <= 3))
        elif kind == "order":
            st["file_order"] = [1, 0, 2]
        elif kind == "dup":
            st["active"] = [st["active"][0], st["active"][0]]
        elif kind == "unsched":
            st["active"][0]["descriptor_index"] = 2
        elif kind == "negative":
            st["active"][0]["byte_offset"] = -1
        elif kind == "toomany":
            st["next_file_position"] = 3
            st["active"].append({"descriptor_index": 2, "entry_index": 0, "byte_offset": 0, "pending": None})
        elif kind == "schema":
            st["schema"] = "x"
        elif kind == "empty":
            st["active"] = []
        else:
            pend = [a for a in st["active"] if a["pending"]]
            if not pend:
                must_fail = False
            else:
                p = pend[0]["pending"]
                v = c.int("v", -1, 4)
                if kind == "pend_raw":
                    p["raw_entry"] = b"\x00\x03"
                elif kind == "pend_next":
                    p["next_subrecord"] = v
                    must_fail = v != 1
                elif kind == "pend_count":
                    p["subrecord_count"] = v
                    must_fail = v != 2
                elif kind == "pend_shape":
                    p["shape_code"] = v
                    must_fail = v != 0
                else:
                    old = p["entry_index"]
                    p["entry_index"] = v
                    must_fail = v != old
        try:
            s.restore_cursor(st)
        except (ValueError, RuntimeError):
            c.check(must_fail, f"a valid cursor was rejected ({kind})")
            c.cover("bad")
            return
        c.check(snot(must_fail), f"an inconsistent cursor was accepted ({kind})", detail=lambda: st)
        c.cover("ok")
    finally:
        w.close()


@check.obligation("a truncated file is reported, never silently shortened", bounds="2 files of 0..2 entries, either truncated", covers=["done"], functions=["next_envelope"])
def ob(c):
    counts = [int(c.int(f"count{i}", 0, 2)) for i in range(2)]
    t = int(c.int("trunc", 0, 1))
    api = c.choose("api", ["raw", "entry"])
    w = World(c, counts, lambda i, j: 0, trunc=t)
    try:
        s = build(w, api)
        expect_error(c, lambda: run(s, s.start_epoch(0, 0)), (RuntimeError,), "truncated entry not reported")
    finally:
        w.close()
    c.cover("done")


@check.obligation("record digests identify records", bounds="any addresses of the right arity < 2**63, with or without a cycle", covers=["done"],
                  functions=["update_record_key_digest"])
def ob(c):
    subs = bool(c.bool("subs"))
    w = World(c, [1, 1], lambda i, j: 2)
    try:
        s = build(w, "raw", subs)
        n = 2 if subs else 1

        def key(tag):
            cyc = bool(c.bool("cyc" + tag))
            f = c.choose("f" + tag, [0, 1])
            ad = tuple(c.int(f"a{tag}{i}", 0, (1 << 63) - 1) for i in range(n + (1 if cyc else 0)))
            return ("sequential", s.descriptors[f].file_key, "t", ad)
        import hashlib as H
        a, b = key("x"), key("y")

        class D:
            def __init__(self):
                self.b = []

            def update(self, x):
                self.b.append(x)
        da, db = D(), D()
        s.update_record_key_digest(da, a)
        s.update_record_key_digest(db, b)
        join = lambda d: [x for part in d.b for x in (part if type(part) is SymBytes else list(part))]
        ja, jb = join(da), join(db)
        eqb = sand(len(ja) == len(jb), *[eq(p, q) for p, q in zip(ja, jb)]) if len(ja) == len(jb) else False
        same_key = sand(a[1] == b[1], len(a[3]) == len(b[3]), *[eq(p, q) for p, q in zip(a[3], b[3])]) if len(a[3]) == len(b[3]) else False
        c.check(simplies(eqb, same_key), "two records share a digest message")
        c.check(simplies(same_key, eqb), "one record has two digest messages")
        for bad in (("x", a[1], "t", a[3]), ("sequential", a[1], "u", a[3]), ("sequential", a[1][:5], "t", a[3]), ("sequential", a[1], "t", (-1,) * n),
                    ("sequential", a[1], "t", (0,) * (n + 2)), ("sequential", a[1], "t", ())):
            expect_error(c, lambda: s.update_record_key_digest(D(), bad), (ValueError,), "malformed key accepted")
    finally:
        w.close()
    c.cover("done")


@check.obligation("the manifest changes with the files and the reading rules", bounds="each listed change", covers=["done"], functions=["manifest_state", "__init__"])
def ob(c):
    C = repo("dataset.core")
    w = World(c, [1, 1], lambda i, j: 0)
    try:
        base = dict(api="raw", subs=False, shuffle=False, rate=1.0, streams=2, quantum=1)
        m = C.canonical_pipeline_state_bytes(build(w, **base).manifest_state())
        c.check(m == C.canonical_pipeline_state_bytes(build(w, **base).manifest_state()), "manifest is not reproducible")
        kind = c.choose("kind", ["subs", "shuffle", "rate", "streams", "quantum", "fmt", "order", "size", "mtime"])
        kw = dict(base)
        before = build(w, **base)
        if kind in ("subs", "shuffle"):
            kw[kind] = True
        if kind == "rate":
            kw["rate"] = 0.5
        if kind in ("streams", "quantum"):
            kw[kind] = 3
        if kind == "fmt":
            kw["fmt"] = "other"
        if kind == "order":
            kw["paths"] = w.paths[::-1]
        if kind == "size":
            with open(w.paths[0], "ab") as f:
                f.write(b"y")
            os.utime(w.paths[0], ns=(10**9, 10**9))
        if kind == "mtime":
            os.utime(w.paths[0], ns=(10**9, 10**9 + 7))
        s2 = build(w, **kw)
        c.check(C.canonical_pipeline_state_bytes(s2.manifest_state()) != m, f"manifest does not reflect a change of {kind}")
        if kind in ("size", "mtime", "order", "fmt"):
            c.check(before.descriptors[0].file_key != s2.descriptors[0].file_key, f"file identity does not reflect a change of {kind}")
        expect_error(c, lambda: build(w, **dict(base, paths=[w.paths[0], os.path.join(w.dir, ".", "f0.bin")])), (ValueError,), "the same file twice accepted")
        os.symlink(w.paths[0], os.path.join(w.dir, "alias.bin"))
        expect_error(c, lambda: build(w, **dict(base, paths=[w.paths[0], os.path.join(w.dir, "alias.bin")])), (ValueError,), "an alias of a file accepted")
        os.link(w.paths[0], os.path.join(w.dir, "hard.bin"))
        expect_error(c, lambda: build(w, **dict(base, paths=[w.paths[0], os.path.join(w.dir, "hard.bin")])), (ValueError,), "a hard link of a file accepted")
    finally:
        w.close()
    c.cover("done")


if __name__ == "__main__":
    check.main()
