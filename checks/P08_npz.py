import os, sys, pickle
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dataclasses import replace
from symx.harness import *

check = Check("P08", "row-table sources", assumptions=[
    "decoders are stubs recording the rows they are asked for (real decoding: P15); admission of a row is a free choice per row identity (P01)",
    "<= 3 files; rows per file <= 3 for whole streams, < 2**40 for single steps and address arithmetic; <= 3 ranks",
])


class Dec:
    def __init__(self):
        self.epochs = []

    def signature_state(self):
        return {"dec": 1}

    def set_epoch(self, e):
        self.epochs.append(e)

    def decode_batch(self, refs):
        return {"row": [(r.path, r.address, r.board_size) for r in refs], "key": [r.sample_key for r in refs], "d": [r.record_digest for r in refs]}


SHA = [bytes([i + 1]) * 32 for i in range(4)]


def dense(counts, shuffle=False, rate=1.0, seed=7, dec=None, shapes=None, order=None):
    N = repo("dataset.npz_source")
    cats = [dict(path=f"f{i}", file_ordinal=i, file_sha256=SHA[i], logical_row_count=k, board_size=(shapes or [(15, 15)] * 9)[i]) for i, k in enumerate(counts)]
    if order:
        cats = [cats[i] for i in order]
    return N.DenseNpzSource(cats, dec or Dec(), seed=seed, shuffle=shuffle, sample_rate=rate)


def indexed(files, shuffle=False, rate=1.0, seed=7, dec=None):
    """files: list of (physical_rows, indices|None, shapes: tuple uniform | list per logical row)"""
    N = repo("dataset.npz_source")
    cats = []
    for i, (ph, idx, sh) in enumerate(files):
        d = dict(path=f"f{i}", file_ordinal=i, file_sha256=SHA[i], physical_row_count=ph, row_indices=idx)
        if isinstance(sh, tuple):
            d["uniform_board_size"] = sh
        else:
            d["board_sizes"] = np.array(sh, dtype=np.int64).reshape(-1, 2)
        cats.append(d)
    return N.IndexedNpzSource(cats, dec or Dec(), seed=seed, shuffle=shuffle, sample_rate=rate)


def ident(e):
    return (e.source_id, e.record_key, e.shape_code, e.payload)


def run(s, cur, limits, tail=2):
    """Pull everything with the given chunk limits."""
    out, i, idle = [], 0, 0
    while True:
        lim = limits[i] if i < len(limits) else tail
        es, cur = s.next_envelopes(cur, lim)
        out += [ident(e) for e in es]
        i += 1
        if not es and cur.file_position == len(cur.file_order):
            return out, cur
        if not es:
            idle += 1
        if i > 60 or idle > 30:
            raise RuntimeError("source does not terminate")


def admission(c, N, rate):
    table = {}

    def admit(r, seed, epoch, key):
        k = (epoch, key[1], key[3])
        if k not in table:
            table[k] = True if r == 1.0 else bool(c.bool("adm_%d_%d_" % (epoch, key[1][0]) + "_".join(str(x) for x in key[3])))
        return table[k]
    return admit


def mkstream(kind, rate, W, shuffle, K=2, nf=2, tiers=("quick", "thorough")):
    @check.obligation(f"every row once over all ranks: {kind}, rate {rate}, {W} ranks, shuffle={shuffle}, {nf} files", tiers=tiers, covers=["done"], budget=300,
                      bounds=f"{nf} files of 0..{K} rows, two free chunk limits 1..4, any cut", functions=["next_envelopes", "next_envelope", "next_packed_records", "start_cycle",
                                                                                                             "save_cursor", "restore_cursor", "envelopes_from_record_ids"])
    def ob(c):
        N = repo("dataset.npz_source")
        counts = [int(c.int(f"n{i}", 0, K)) for i in range(nf)]
        if kind == "indexed" and sum(counts) == 0:
            return
        shp = [(15, 15), (9, 9), (15, 15)]

        def make():
            if kind == "dense":
                return dense(counts, shuffle, rate, shapes=shp)
            # physical rows 1,3,5,.. ; second file mixes shapes, first one uniform
            return indexed([(2 * k + 1, np.arange(1, 2 * k, 2, dtype=np.int64), shp[i] if i == 0 else [shp[(j + i) % 2] for j in range(k)]) for i, k in enumerate(counts)],
                           shuffle, rate)
        with patched(N, "sample_is_admitted", admission(c, N, rate)):
            lim = [c.zint(f"lim{i}", 1, 4) for i in range(2)]
            want = []
            for i in range(nf):
                for j in range(counts[i]):
                    row = j if kind == "dense" else 2 * j + 1
                    sh = shp[i] if kind == "dense" or i == 0 else shp[(j + i) % 2]
                    key = ("root", SHA[i], "npz-row", (1, row))
                    if N.sample_is_admitted(rate, 7, 4, key):
                        want.append((i, key, sh, sum(counts[:i]) + j))
            got, per = [], []
            for r in range(W):
                s = make()
                s.configure_distributed(W, r, rank_sharded=W > 1)
                o, end = run(s, s.start_cycle(4, 1, r), lim if r == 0 else [1])
                inv = {v: k for k, v in s.shape_codes.items()}
                per.append(o)
                got += [(a, b, inv[x], p) for a, b, x, p in o]
                c.check(s.next_envelopes(end, 1)[0] == () and s.next_envelope(end)[0] is None, "the end is not final")
            c.check(sorted(got) == sorted(want), "rows lost, repeated or changed over the ranks", detail=lambda: (counts, got, want))
            for o in per:
                for i in range(nf):
                    mine = [p for a, _, _, p in o if a == i]
                    c.check(mine == sorted(mine), "rows of one file are out of order")
            if rate == 1.0:
                ls = [len(o) for o in per]
                c.check(max(ls) - min(ls) <= 1, "ranks are not balanced")
            # any cut resumes
            s = make()
            s.configure_distributed(W, 0, rank_sharded=W > 1)
            full = per[0]
            first, cur = s.next_envelopes(s.start_cycle(4, 1, 0), lim[0])
            st = pickle.loads(pickle.dumps(s.save_cursor(cur)))
            t = make()
            t.configure_distributed(W, 0, rank_sharded=W > 1)
            rest, _ = run(t, t.restore_cursor(st), [lim[1]])
            c.check([ident(e) for e in first] + rest == full, "resume changes the stream")
            c.check(t.save_cursor(t.restore_cursor(st)) == st, "a restored cursor saves differently")
            if W == 1:
                # the compact path names the same records in the same order (cycle 0)
                a, b = make(), make()
                cur, ids, guard = a.start_epoch(4, 0), [], 0
                while cur.file_position < len(cur.file_order):
                    blk, cur = a.next_packed_records(cur, lim[min(guard, 1)])
                    ids += [int(x) for x in elems(blk.record_ids)]
                    guard += 1
                    if guard > 30:
                        raise RuntimeError("packed path does not terminate")
                o, _ = run(b, b.start_epoch(4, 0), [1])
                c.check([ident(e) for e in a.envelopes_from_record_ids(ids)] == o, "packed records differ from the plain stream")
        c.cover("done")


mkstream("dense", 1.0, 1, True)
mkstream("dense", 0.5, 1, False)
mkstream("dense", 1.0, 2, False, K=3)
mkstream("dense", 0.5, 2, True, tiers=("thorough",))
mkstream("dense", 1.0, 3, False, K=3, nf=3, tiers=("thorough",))
mkstream("indexed", 1.0, 1, False)
mkstream("indexed", 0.5, 1, True)
mkstream("indexed", 1.0, 2, True, K=3)
mkstream("indexed", 0.5, 2, False, tiers=("thorough",))


@check.obligation("one step from any position (dense)", bounds="3 files of < 2**40 rows each, any file/row position, 1..3 ranks", covers=["row", "end"],
                  functions=["next_envelopes"], budget=200)
def ob(c):
    N = repo("dataset.npz_source")
    counts = [c.zint(f"n{i}", 0, 1 << 40) for i in range(3)]
    W = int(c.int("W", 1, 3))
    r = int(c.int("r", 0, W - 1))
    s = dense(counts)
    s.configure_distributed(W, r, rank_sharded=W > 1)
    cur = s.start_epoch(0, r)
    fp = int(c.int("fp", 0, 2))
    rp = c.zint("rp", 0, 1 << 40)
    c.assume(rp <= counts[fp])
    es, nxt = s.next_envelopes(replace(cur, file_position=fp, row_position=rp), 1)
    begins = [0, counts[0], counts[0] + counts[1]]
    total = counts[0] + counts[1] + counts[2]
    start = begins[fp] + rp
    # the next global row >= start congruent to r
    tgt = c.zint("tgt", 0, 1 << 43)
    c.assume(sand(tgt >= start, tgt < start + W))
    if W > 1:
        c.assume(tgt % W == r)
    nb = N
    if not es:
        c.check(tgt >= total, "a row of this rank was skipped")
        c.check(sand(eq(nxt.file_position, 3), eq(nxt.row_position, 0)), "end cursor is not canonical")
        c.cover("end")
        return
    e = es[0]
    c.check(eq(e.payload, tgt), "the next row is not this rank's next row", detail=lambda: (e.payload, tgt))
    f = e.source_id
    c.check(sand(eq(e.record_key[3][0], tgt - begins[f]), e.record_key[3][0] < counts[f], e.record_key[1] == SHA[f]), "row identity differs from its position")
    if nxt.file_position < 3:
        c.check(sand(begins[nxt.file_position] + nxt.row_position >= tgt + 1, begins[nxt.file_position] + nxt.row_position <= tgt + W), "cursor moves past rows of this rank")
    c.cover("row")


@check.obligation("record numbers and rows correspond one to one (dense)", bounds="3 files of < 2**40 rows each (possibly empty), any record number < 2**63", covers=["in", "out"],
                  functions=["_resolve", "_packed_decode_batch", "_decode_refs", "envelopes_from_record_ids"], budget=200)
def ob(c):
    N, P = repo("dataset.npz_source"), repo("dataset.packed")
    counts = [c.zint(f"n{i}", 0, 1 << 40) for i in range(3)]
    rid = c.zint("rid", 0, (1 << 63) - 1)
    s = dense(counts)
    total = counts[0] + counts[1] + counts[2]
    begins = [0, counts[0], counts[0] + counts[1]]
    try:
        e, = s.envelopes_from_record_ids([rid])
    except ValueError:
        c.check(rid >= total, "a valid record number was refused")
        c.cover("out")
        return
    c.check(rid < total, "record number past the end accepted")
    f = e.source_id
    row = e.record_key[3][0]
    c.check(sand(row >= 0, row < counts[f], eq(begins[f] + row, rid), e.record_key[1] == SHA[f]), "record number maps to another row")
    got = s.materialize_batch([e])
    c.check(got["row"][0][0] == f"f{f}" and eq(got["row"][0][1][0], row), "materialised row differs from the record")
    c.cover("in")


@check.obligation("compact batches decode the rows they name", bounds="3 files of 0..3 rows, batches of 1..3 any record numbers 0..10", covers=["in", "out"],
                  functions=["_packed_decode_batch", "materialize_batch_with_keys", "materialize_batches_with_keys", "sample_keys_for_batch"], budget=200)
def ob(c):
    N, P = repo("dataset.npz_source"), repo("dataset.packed")
    import hashlib as H
    counts = [int(c.int(f"n{i}", 0, 2)) for i in range(3)]
    n = int(c.int("rows", 1, 2))
    rids = [c.int(f"r{i}", 0, 7) for i in range(n)]

    class D2(Dec):
        def decode_packed_batch(self, p):
            self.p = p
            return {"row": [(p.paths[int(f)], int(r)) for f, r in zip(elems(p.file_indices), elems(p.rows))]}
    s = dense(counts, dec=D2())
    total = sum(counts)
    flat = [(i, j) for i in range(3) for j in range(counts[i])]
    ident_ = H.sha256(repo("dataset.core").canonical_pipeline_state_bytes(s.manifest_state())).hexdigest()
    mk = lambda xs: P.PackedEnvelopeBatch(arr(c, xs, np.uint64), s.envelopes_from_record_ids, ident_)
    b = mk(rids)
    try:
        data, ks = s.materialize_batch_with_keys(b)
    except RuntimeError:
        c.check(sor(*[r >= total for r in rids]), "valid record numbers were refused")
        c.cover("out")
        return
    c.check(sand(*[r < total for r in rids]), "record number past the end accepted")
    rv = [int(r) for r in rids]
    want = [(f"f{flat[r][0]}", flat[r][1]) for r in rv]
    wk = [("root", SHA[flat[r][0]], "npz-row", (flat[r][1],)) for r in rv]
    c.check(data["row"] == want and list(ks) == wk and [ks[i] for i in range(n)] == wk and ks[-1] == wk[-1], "compact batch decodes other rows")
    c.check(list(s.sample_keys_for_batch(b)) == wk, "sample keys differ from the rows")
    got = s.materialize_batch(b)
    c.check([(p, a[0]) for p, a, _ in got["row"]] == want and got["key"] == wk, "generic path decodes other rows")
    two = s.materialize_batches_with_keys([b, mk(rids[:1])])
    c.check(two[0][0]["row"] == want and two[1][0]["row"] == want[:1] and list(two[0][1]) == wk and list(two[1][1]) == wk[:1], "batched delivery mixes rows of two batches")
    other = dense(counts, seed=8, rate=0.5, dec=D2())
    expect_error(c, lambda: other.materialize_batch(b), (RuntimeError,), "batch of another dataset accepted")
    expect_error(c, lambda: other.materialize_batch_with_keys(b), (RuntimeError,), "batch of another dataset accepted")
    c.cover("in")


@check.obligation("filtered files expose exactly the admitted physical rows", bounds="2 files of <= 4 physical rows, any index list of <= 3 values in [-1,5], any of 2 shapes per row", covers=["ok", "bad"],
                  functions=["__init__", "_physical_row", "_shape_code", "materialize_batch"], budget=300)
def ob(c):
    ph = int(c.int("ph", 1, 4))
    k = int(c.int("k", 1, 3))
    idx = [c.int(f"i{j}", -1, 5) for j in range(k)]
    sh = [c.choose(f"s{j}", [(9, 9), (15, 15)]) for j in range(k)]
    good = sand(*[x >= 0 for x in idx], *[x < ph for x in idx], *[a < b for a, b in zip(idx, idx[1:])])
    try:
        s = indexed([(ph, arr(c, idx, np.int64), sh), (2, None, (15, 15))])
    except ValueError:
        c.check(snot(good), "a valid row table was refused")
        c.cover("bad")
        return
    c.check(good, "an inconsistent row table was accepted")
    iv = [int(x) for x in idx]
    out, _ = run(s, s.start_epoch(0, 0), [])
    inv = {v: q for q, v in s.shape_codes.items()}
    want = [(0, SHA[0], iv[j], sh[j]) for j in range(k)] + [(1, SHA[1], j, (15, 15)) for j in range(2)]
    c.check([(a, b[1], b[3][0], inv[x]) for a, b, x, _ in out] == want, "exposed rows differ from the table", detail=lambda: (out, want))
    es = s.envelopes_from_record_ids(range(k + 2))
    c.check([ident(e) for e in es] == out, "record numbers expose other rows")
    got = s.materialize_batch(es[::-1])
    c.check(got["row"] == [(f"f{f}", (r,), b) for f, _, r, b in want[::-1]] and got["key"] == [e.record_key for e in es[::-1]], "materialised rows differ from the table")
    c.cover("ok")


@check.obligation("cursors are validated", bounds="files of < 2**40 rows, any positions in [-2, 2**41]", covers=["ok", "bad"], functions=["restore_cursor"])
def ob(c):
    kind = c.choose("kind", ["dense", "indexed"])
    if kind == "dense":
        counts = [c.zint(f"n{i}", 0, 1 << 40) for i in range(2)]
        s = dense(counts)
    else:
        counts = [2, 3]
        s = indexed([(2, None, (9, 9)), (3, None, (9, 9))])
    W = int(c.int("W", 1, 2))
    sharded = bool(c.bool("sharded"))
    s.configure_distributed(W, W - 1, rank_sharded=sharded)
    st = s.save_cursor(s.start_cycle(3, 1, W - 1))
    fp, rp, rk = c.zint("fp", -2, 4), c.zint("rp", -2, 1 << 41), c.zint("rank", -1, 2)
    st["file_position"], st["row_position"], st["rank"] = fp, rp, rk
    ok = sand(eq(rk, W - 1 if sharded else 0), fp >= 0, fp <= 2)
    ok = sand(ok, rp >= 0, sor(sand(eq(fp, 0), rp <= counts[0]), sand(eq(fp, 1), rp <= counts[1]), sand(eq(fp, 2), eq(rp, 0))))
    how = c.choose("how", ["nums", "order", "schema", "epoch"])
    if how == "order":
        st["file_order"] = [1, 0]
        ok = False
    if how == "schema":
        st["schema"] = "x"
        ok = False
    if how == "epoch":
        st["epoch"] = -1
        ok = False
    try:
        cur = s.restore_cursor(st)
    except ValueError:
        c.check(snot(ok), "a valid cursor was refused")
        c.cover("bad")
        return
    c.check(ok, f"an inconsistent cursor was accepted ({how})", detail=lambda: st)
    c.check(sand(eq(cur.file_position, fp), eq(cur.row_position, rp), cur.epoch == 3, cur.cycle == 1), "restored cursor differs")
    c.cover("ok")


@check.obligation("rows are checked against their identity before decoding", bounds="2 files; each field tampered; cycles 0..2", covers=["done"], functions=["_decode_refs", "materialize_batch"])
def ob(c):
    S = repo("dataset.source")
    kind = c.choose("kind", ["dense", "indexed"])
    s = dense([2, 3], shapes=[(9, 9), (15, 15)]) if kind == "dense" else indexed([(4, np.array([1, 3]), (9, 9)), (3, None, (15, 15))])
    cyc = int(c.int("cycle", 0, 2))
    es, _ = s.next_envelopes(s.start_cycle(0, cyc, 0), 9)
    j = int(c.int("j", 0, 4))
    e = es[j]
    plain = S.RecordEnvelope(e.source_id, e.record_key, e.shape_code, e.payload)
    a, b = s.materialize_batch([e]), s.materialize_batch([plain])
    c.check(a == b and a["key"] == [e.record_key], "decoded identity differs")
    k = e.record_key
    t = c.choose("tamper", ["source", "shape", "row", "file", "payload", "range", "kindname"])
    bad = {"source": lambda: replace(plain, source_id=1 - e.source_id), "shape": lambda: replace(plain, shape_code=1 - e.shape_code),
           "row": lambda: replace(plain, record_key=k[:3] + (k[3][:-1] + (k[3][-1] + 1,),)), "file": lambda: replace(plain, record_key=(k[0], SHA[3]) + k[2:]),
           "payload": lambda: replace(plain, payload=(e.payload + 1) % 5), "range": lambda: replace(plain, payload=77), "kindname": lambda: replace(plain, record_key=(k[0], k[1], "row", k[3]))}[t]()
    expect_error(c, lambda: s.materialize_batch([bad]), (RuntimeError, ValueError), f"inconsistent row accepted: {t}")
    expect_error(c, lambda: s.materialize_batch([e, bad]), (RuntimeError, ValueError), f"inconsistent row accepted: {t}")
    c.cover("done")


class Tape:
    def __init__(self):
        self.b = []

    def update(self, x):
        self.b += x if type(x) is SymBytes else list(x)


def tape_eq(a, b):
    return sand(*[eq(x, y) for x, y in zip(a.b, b.b)]) if len(a.b) == len(b.b) else False


@check.obligation("row digests identify rows", bounds="any two rows < 2**63, cycles < 2**63, any of 2 files", covers=["done"], functions=["update_record_key_digest"])
def ob(c):
    N = repo("dataset.npz_source")
    s = dense([1, 1])

    def key(t):
        ad = (c.int("r" + t, 0, (1 << 63) - 1),)
        if bool(c.bool("c" + t)):
            ad = (c.int("cy" + t, 0, (1 << 63) - 1),) + ad
        return ("root", SHA[c.choose("f" + t, [0, 1])], "npz-row", ad)
    a, b = key("a"), key("b")
    ta, tb = Tape(), Tape()
    s.update_record_key_digest(ta, a)
    s.update_record_key_digest(tb, b)
    samek = sand(a[1] == b[1], *[eq(x, y) for x, y in zip(a[3], b[3])]) if len(a[3]) == len(b[3]) else False
    c.check(eq(tape_eq(ta, tb), samek) if is_sym(tape_eq(ta, tb)) or is_sym(samek) else tape_eq(ta, tb) == samek, "row digest does not identify the row")
    for bad in (("x",) + a[1:], a[:2] + ("row",) + a[3:], (a[0], a[1][:5]) + a[2:], a[:3] + ((-1,),), a[:3] + ((0, 0, 0),), a[:3] + ((),), a[:3] + ((True,),), a[:3]):
        expect_error(c, lambda: s.update_record_key_digest(Tape(), bad), (ValueError,), "malformed key accepted")
    c.cover("done")


@check.obligation("batch digests identify the rows, cycles and padding of a batch", bounds="two batches of 2 rows each (< 2**62), cycles < 2**62, any padding", covers=["done"], functions=["update_batch_record_digest"])
def ob(c):
    N = repo("dataset.npz_source")
    S = repo("dataset.source")
    s = dense([1, 1])
    d = s.descriptors[0]

    def batch(t):
        rows = [c.int(f"r{t}{i}", 0, 1 << 62) for i in range(2)]
        cyc = [0, 0]
        if bool(c.bool("cyc" + t)):
            cyc = [c.int(f"c{t}{i}", 1, 1 << 62) for i in range(2)]
        real = [bool(c.bool(f"re{t}{i}")) for i in range(2)]
        tp = Tape()
        if bool(c.bool("plain" + t)):
            es = [S.RecordEnvelope(0, ("root", SHA[0], "npz-row", (r,) if not is_sym(k) and k == 0 else (k, r)), 0, r) for r, k in zip(rows, cyc)]
        else:
            es = [N._DenseEnvelope(d, r, k) for r, k in zip(rows, cyc)]
        s.update_batch_record_digest(tp, es, real)
        return rows, cyc, real, tp
    a, b = batch("a"), batch("b")
    same_ = sand(*[eq(x, y) for x, y in zip(a[0], b[0])], *[eq(x, y) for x, y in zip(a[1], b[1])], a[2] == b[2])
    te = tape_eq(a[3], b[3])
    c.check(simplies(te, same_), "two different batches share a digest")
    c.check(simplies(same_, te), "one batch has two digests")
    c.cover("done")


@check.obligation("the manifest changes with files, filters and sampling", bounds="each listed change", covers=["done"], functions=["manifest_state", "__init__"])
def ob(c):
    C = repo("dataset.core")
    enc = lambda s: C.canonical_pipeline_state_bytes(s.manifest_state())
    if bool(c.bool("dense")):
        ms = [dense([2, 3]), dense([3, 3]), dense([2, 3], shuffle=True), dense([2, 3], rate=0.5), dense([2, 3], shapes=[(9, 9), (15, 15)]), dense([2, 3], order=[1, 0])]
        c.check(enc(dense([2, 3])) == enc(ms[0]), "manifest is not reproducible")
        expect_error(c, lambda: dense([2, -1]), (ValueError,), "negative row count accepted")
        expect_error(c, lambda: dense([]), (ValueError,), "empty dataset accepted")
        expect_error(c, lambda: dense([1], rate=1.5), (ValueError,), "rate above 1 accepted")
        expect_error(c, lambda: dense([1 << 63, 1 << 63]), (ValueError,), "record numbers beyond 64 bits accepted")
    else:
        f = lambda ix, sh=(9, 9): indexed([(5, ix, sh), (2, None, (15, 15))])
        ms = [f(None), f(np.array([0, 2])), f(np.array([0, 3])), f(np.array([0, 2]), (15, 15)), f(np.array([0, 2]), [(9, 9), (15, 15)]), f(np.array([0, 2]), [(15, 15), (9, 9)])]
        c.check(enc(f(np.arange(5))) == enc(ms[0]), "an identity row table must equal no row table")
        expect_error(c, lambda: indexed([(5, np.array([], dtype=np.int64), (9, 9))]), (ValueError,), "a dataset without admitted rows accepted")
    es = [enc(s) for s in ms]
    c.check(len(set(es)) == len(es), "manifest does not pin the dataset")
    expect_error(c, lambda: ms[0].next_envelopes(ms[0].start_epoch(0, 0), 0), (ValueError,), "empty chunk accepted")
    expect_error(c, lambda: ms[0].start_cycle(-1, 0, 0), (ValueError,), "negative epoch accepted")
    expect_error(c, lambda: ms[0].start_epoch(0, 1), (ValueError,), "foreign rank accepted")
    expect_error(c, lambda: ms[0].configure_distributed(2, 2, rank_sharded=True), (ValueError,), "rank outside the world accepted")
    c.cover("done")


if __name__ == "__main__":
    check.main()
