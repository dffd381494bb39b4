import os, sys, pickle
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dataclasses import replace
from math import gcd
from symx.harness import *

check = Check("P09", "dataset mixing", assumptions=[
    "children are stub record sources (record-at-a-time or chunked with short chunks); real children are decided by P07/P08",
    "<= 3 children, weights <= 4, <= 6 records per child",
])


class Cur:
    def __init__(self, epoch, cycle, rank, pos):
        self.epoch, self.cycle, self.rank, self.pos = epoch, cycle, rank, pos


def child(name, n, chunk, shapes=((1, 1), (2, 2)), caps=(True, True, True), cycles=True, dist=True, codes=None, short=None):
    S = repo("dataset.source")

    class Src:
        capabilities = S.SourceCapabilities("random" if caps[2] else "sequential", caps[2], caps[0], caps[1], True)

        def __init__(self):
            self.shape_codes = codes or {s: i for i, s in enumerate(shapes)}
            self.closed = []
            self.conf = []
            self.name = name
            self.polls = 0

        def manifest_state(self):
            return {"child": name, "n": n}

        def start_epoch(self, epoch, rank):
            return Cur(epoch, 0, rank, 0)

        def save_cursor(self, cur):
            return {"e": cur.epoch, "c": cur.cycle, "r": cur.rank, "p": cur.pos}

        def restore_cursor(self, st):
            return Cur(st["e"], st["c"], st["r"], st["p"])

        def close_cursor(self, cur):
            self.closed.append(cur)

        def env(self, cur):
            i = cur.pos
            return S.RecordEnvelope(0, (name, cur.epoch, cur.cycle, i), sorted(self.shape_codes.values())[i % len(self.shape_codes)], ("pl", name, i), i + 1)

        def save_payload(self, p):
            return list(p)

        def restore_payload(self, st):
            return tuple(st)

        def next_envelope(self, cur):
            self.polls += 1
            if cur.pos >= n:
                return None, cur
            e = self.env(cur)
            return e, Cur(cur.epoch, cur.cycle, cur.rank, cur.pos + 1)

        def materialize_batch(self, envs):
            return {"row": [(e.payload[1], e.payload[2]) for e in envs], "k": [e.record_key for e in envs]}
    if cycles:
        Src.start_cycle = lambda self, e, cy, r: Cur(e, cy, r, 0)
    if dist:
        Src.configure_distributed = lambda self, w, r, *, rank_sharded: self.conf.append((w, r, rank_sharded))
    if chunk:
        def next_envelopes(self, cur, limit):
            out = []
            take = limit if short is None else min(limit, short)
            cur = Cur(cur.epoch, cur.cycle, cur.rank, cur.pos)
            while len(out) < take and cur.pos < n:
                out.append(self.env(cur))
                cur = Cur(cur.epoch, cur.cycle, cur.rank, cur.pos + 1)
            return tuple(out), cur
        Src.next_envelopes = next_envelopes
    return Src()


def comp(children, weights, sync, ids=None):
    return repo("dataset.composite_source").CompositeRecordSource(children, ids or [c.name for c in children], weights, sync_length=sync)


def ident(e):
    return (e.source_id, e.record_key, e.shape_code, e.payload.child_index, e.payload.envelope, e.resident_bytes)


def run1(s, cur, stop=None):
    out = []
    while stop is None or len(out) < stop:
        e, cur = s.next_envelope(cur)
        if e is None:
            break
        out.append(e)
        if len(out) > 200:
            raise RuntimeError("composite does not terminate")
    return out, cur


def runm(s, cur, limits, tail=3):
    out, i = [], 0
    while True:
        lim = limits[i] if i < len(limits) else tail
        es, cur = s.next_envelopes(cur, lim)
        if len(es) > lim:
            raise RuntimeError("chunk longer than its limit")
        if not es:
            return out, cur
        out += es
        i += 1


def mkw(n, hi, tiers=("quick", "thorough")):
    @check.obligation(f"the mixing cycle has exactly the weighted counts and is even: {n} children, weights 1..{hi}", tiers=tiers,
                      bounds=f"{n} children, weights 1..{hi}", covers=["done"], functions=["_weighted_cycle"], budget=300)
    def ob(c):
        w = [int(c.int(f"w{i}", 1, hi)) for i in range(n)]
        s = comp([child(f"c{i}", 1, False) for i in range(n)], w, True)
        sch = list(s.schedule)
        t = sum(w)
        c.check(len(sch) == t, "cycle length is not the sum of the weights")
        cnt = [0] * n
        for k, x in enumerate(sch, 1):
            cnt[x] += 1
            for i in range(n):
                # proportional at every prefix: never a whole record away when there are two children, below two otherwise
                bound = t if n == 2 else 2 * t
                c.check(abs(cnt[i] * t - k * w[i]) < bound, "a child runs ahead of or behind its share", detail=lambda: (w, sch))
        c.check(cnt == w, "counts differ from the weights")
        if len(set(w)) == 1:
            c.check(sch == [i for _ in range(w[0]) for i in range(n)], "equal weights must alternate in child order")
        c.cover("done")


mkw(2, 6)
mkw(3, 4)
mkw(2, 14, ("thorough",))
mkw(4, 4, ("thorough",))


def mkmix(n, W, K, sync, chunk, tiers=("quick", "thorough")):
    @check.obligation(f"mixed stream: {n} children, weights<={W}, <={K} records, sync={sync}, children {chunk}", tiers=tiers,
                      bounds=f"{n} children of 0..{K} records, weights 1..{W}, any two chunk limits (< 2**31 when synchronised, <= 4 otherwise), then 3; cut after any record <= 5 or after the first chunk", covers=["done", "cut"], budget=400,
                      functions=["_fill_cycle", "_fill_cycles", "next_envelope", "next_envelopes", "save_cursor", "restore_cursor", "_wrap"])
    def ob(c):
        w = [int(c.int(f"w{i}", 1, W)) for i in range(n)]
        sizes = [c.zint(f"n{i}", 0, K) for i in range(n)]
        ck = {"single": [0] * n, "chunked": [1] * n, "mixed": [i % 2 for i in range(n)], "short": [2] * n}[chunk]
        new = lambda: comp([child(f"c{i}", sizes[i], ck[i], short=1 if ck[i] == 2 else None) for i in range(n)], w, sync)
        s = new()
        full, end = run1(s, s.start_epoch(3, 0))
        c.check(end.terminal and s.next_envelope(end)[0] is None, "the end is not final")
        # reference
        sch, pos, ref = s.schedule, [0] * n, []
        if sync:
            while all(pos[i] + w[i] <= sizes[i] for i in range(n)):
                for i in sch:
                    ref.append((i, pos[i]))
                    pos[i] += 1
        else:
            while any(p < k for p, k in zip(pos, sizes)):
                for i in sch:
                    if pos[i] < sizes[i]:
                        ref.append((i, pos[i]))
                        pos[i] += 1
        got = [(e.source_id, e.payload.envelope.payload[2]) for e in full]
        c.check(got == ref, "mixed stream differs from the configured ratio", detail=lambda: (w, sizes, got, ref))
        for e, (i, p) in zip(full, ref):
            inner = e.payload.envelope
            c.check(e.record_key == ("composite", f"c{i}", (f"c{i}", 3, 0, p)) and inner.payload == ("pl", f"c{i}", p) and e.payload.child_index == i,
                    "a mixed record lost its identity")
            c.check(e.resident_bytes >= inner.resident_bytes, "resident bytes shrink")
        # chunked delivery gives the same stream, whatever the chunk limits
        lim = [c.zint(f"lim{i}", 1, 1 << 31) if sync else c.zint(f"lim{i}", 1, 4 if tiers[0] == "quick" else 6) for i in range(2)]
        m = new()
        many, mend = runm(m, m.start_epoch(3, 0), lim)
        c.check([ident(e) for e in many] == [ident(e) for e in full], "chunked delivery differs from single delivery", detail=lambda: (w, sizes, lim, len(many), len(full)))
        # cut anywhere
        a, b = new(), new()
        cur = a.start_epoch(3, 0)
        if chunk != "single" and bool(c.bool("cut_chunked")):
            head, cur = a.next_envelopes(cur, lim[0])
            cut = len(head)
        else:
            cut = int(c.int("cut", 0, min(5, len(full))))
            head, cur = run1(a, cur, cut)
        st = pickle.loads(pickle.dumps(a.save_cursor(cur)))
        cur2 = b.restore_cursor(st)
        c.check(b.save_cursor(cur2) == st, "a restored cursor saves differently")
        if bool(c.bool("tail_chunked")):
            rest, _ = runm(b, cur2, [lim[1]])
        else:
            rest, _ = run1(b, cur2)
        c.check([ident(e) for e in list(head) + rest] == [ident(e) for e in full], "resume changes the mixed stream", detail=lambda: (w, sizes, cut, lim))
        if 0 < cut < len(full):
            c.cover("cut")
        c.cover("done")


mkmix(2, 2, 2, True, "mixed")
mkmix(2, 2, 2, False, "mixed")
mkmix(2, 3, 3, True, "short", tiers=("thorough",))
mkmix(2, 3, 3, False, "short", tiers=("thorough",))
mkmix(2, 2, 2, True, "short")
mkmix(2, 2, 2, False, "short")
mkmix(3, 2, 2, True, "mixed", tiers=("thorough",))
mkmix(3, 2, 2, False, "mixed", tiers=("thorough",))
mkmix(1, 2, 3, True, "chunked")
mkmix(1, 2, 3, False, "single")


@check.obligation("mixed streams through the planner deliver each record once", bounds="2 children of 0..3 records, weights 1..2, batch 2, chunk request sizes chosen by the planner",
                  covers=["done"], functions=["next_envelopes", "next_batch"], budget=300)
def ob(c):
    import plan_common as PC
    w = [int(c.int(f"w{i}", 1, 2)) for i in range(2)]
    sizes = [int(c.int(f"n{i}", 0, 3)) for i in range(2)]
    if sum(sizes) == 0:
        return
    s = comp([child(f"c{i}", sizes[i], i) for i in range(2)], w, False)
    with PC.FreeSlots(c).install(free=False):
        p = PC.planner(s, B=2, world=1, rank=0, mode="validate", shuffle=False)
        p.start_epoch(0)
        out = PC.drain_batches(p)
    real = [k for ks, rs, _ in out for k, r in zip(ks, rs) if r]
    c.check(sorted(real) == sorted(("composite", f"c{i}", (f"c{i}", 0, 0, j)) for i in range(2) for j in range(sizes[i])), "evaluation of a mixture misses or repeats records",
            detail=lambda: real)
    c.cover("done")


@check.obligation("cursor and payload validation", bounds="each listed damage; numbers in [-2,3]", covers=["ok", "bad"], functions=["restore_cursor", "restore_payload", "save_payload"])
def ob(c):
    sharded = bool(c.bool("sharded"))
    mk = lambda: comp([child("c0", 3, 0), child("c1", 3, 1)], [2, 1], False)
    s = mk()
    s.configure_distributed(2, 1, rank_sharded=sharded)
    cur = s.start_cycle(1, 2, 1)
    _, cur = run1(s, cur, int(c.int("cut", 0, 3)))
    st = pickle.loads(pickle.dumps(s.save_cursor(cur)))
    kind = c.choose("kind", ["none", "rank", "epoch", "cycle", "child_epoch", "child_cycle", "child_rank", "flags", "nflags", "nchild", "schema", "missing", "index", "terminal", "term_type", "payload"])
    must = True
    v = c.int("v", -2, 3)
    if kind == "none":
        must = False
    elif kind == "rank":
        st["rank"] = v
        must = v != (1 if sharded else 0)
    elif kind == "epoch":
        st["epoch"] = v
        must = v != 1
    elif kind == "cycle":
        st["source_cycle"] = v
        must = v != 2
    elif kind.startswith("child_"):
        k = kind[6]
        old = st["child_cursors"][1][k]
        st["child_cursors"][1][k] = v
        must = v != old
        if k == "r" and not sharded:
            st["child_cursors"][1][k] = old
            must = False
    elif kind == "flags":
        st["exhausted"][0] = 1
    elif kind == "nflags":
        st["exhausted"] = st["exhausted"] + [False]
    elif kind == "nchild":
        st["child_cursors"] = st["child_cursors"][:1]
    elif kind == "schema":
        st["schema"] = "x"
    elif kind == "missing":
        del st[c.choose("field", ["epoch", "source_cycle", "rank", "child_cursors", "exhausted", "pending", "cycle_index", "terminal"])]
    elif kind == "index":
        st["cycle_index"] = v
        must = v < 0
    elif kind == "terminal":
        st["terminal"] = True
        must = len(st["pending"]) > 0
    elif kind == "term_type":
        st["terminal"] = 0
    else:
        if not st["pending"]:
            must = False
        else:
            st["pending"][0]["payload"]["child_index"] = v
            must = sor(v < 0, v > 1)
    t = mk()
    t.configure_distributed(2, 1, rank_sharded=sharded)
    if not sharded:
        # a replicated stream stores rank 0 in the composite; children keep what they were given
        for x in st.get("child_cursors", ()):
            if isinstance(x, dict):
                x["r"] = 0
    try:
        t.restore_cursor(st)
    except ValueError:
        c.check(must, f"a valid composite cursor was rejected: {kind}")
        c.cover("bad")
        return
    c.check(snot(must), f"an inconsistent composite cursor was accepted: {kind}", detail=lambda: st)
    c.cover("ok")


@check.obligation("rows go back to their batch positions", bounds="<= 3 rows from 3 children in any order; each listed tampering", covers=["good", "bad"],
                  functions=["materialize_batch", "save_payload", "restore_payload"])
def ob(c):
    CS = repo("dataset.composite_source")
    s = comp([child(f"c{i}", 4, i % 2) for i in range(3)], [1, 1, 1], False)
    full, _ = run1(s, s.start_epoch(0, 0))
    by = {(e.source_id, e.payload.envelope.payload[2]): e for e in full}
    n = int(c.int("rows", 1, 3))
    pick = [(int(c.int(f"ch{i}", 0, 2)), int(c.int(f"p{i}", 0, 1))) for i in range(n)]
    envs = [by[p] for p in pick]
    if bool(c.bool("via_checkpoint")):
        envs = [replace(e, payload=s.restore_payload(pickle.loads(pickle.dumps(s.save_payload(e.payload))))) for e in envs]
    with patched(CS, "collate_sample_dicts", lambda samples, **k: samples):
        got = s.materialize_batch(envs)
        c.check([g["row"] for g in got] == [(f"c{i}", p) for i, p in pick], "row at the wrong place", detail=lambda: (pick, got))
        c.check([g["k"] for g in got] == [e.record_key[2] for e in envs], "row of another record")
        if n > 1:
            c.cover("good")
            return
        kind = c.choose("tamper", ["source", "id", "key", "child", "payload"])
        e = envs[0]
        k = e.record_key
        o = (e.source_id + 1) % 3
        bad = {"source": lambda: replace(e, source_id=o), "id": lambda: replace(e, record_key=(k[0], f"c{o}", k[2])),
               "key": lambda: replace(e, record_key=(k[0], k[1], k[2][:3] + (9,))),
               "child": lambda: replace(e, payload=CS.CompositePayload(o, e.payload.envelope)),
               "payload": lambda: replace(e, payload=e.payload.envelope)}[kind]()
        expect_error(c, lambda: s.materialize_batch([bad]), (RuntimeError,), f"inconsistent envelope accepted: {kind}")
        c.cover("bad")
    c.cover("good")


@check.obligation("children keep their shapes, identities and capabilities", bounds="2 children with any code assignment over 3 shapes; all capability combinations", covers=["done"],
                  functions=["__init__", "_wrap", "configure_distributed", "update_record_key_digest", "manifest_state"])
def ob(c):
    SH = [(1, 1), (1, 2), (2, 2)]
    perm = c.choose("perm", [(0, 1, 2), (2, 0, 1), (0, 2, 1)])
    caps = [tuple(bool(c.bool(f"cap{i}{j}")) for j in range(3)) for i in range(2)]
    sub = c.choose("sub", [(0, 1), (0, 2), (2,)])
    ch = [child("x", 3, 0, codes={SH[i]: perm[i] for i in range(3)}, caps=caps[0]), child("yy", 3, 1, codes={SH[i]: j + 4 for j, i in enumerate(sub)}, caps=caps[1])]
    s = comp(ch, [1, 1], False)
    c.check(s.shape_codes == {SH[i]: i for i in range(3)}, "shape codes of the mixture")
    both = [a and b for a, b in zip(*caps)]
    cp = s.capabilities
    c.check((cp.exact_distributed_partition, cp.resumable, cp.known_length, cp.random_access, cp.deterministic) == (both[0], both[1], both[2], both[2], True), "capabilities overstated")
    full, _ = run1(s, s.start_epoch(0, 0))
    inv = {i: {v: k for k, v in x.shape_codes.items()} for i, x in enumerate(ch)}
    for e in full:
        c.check(SH[e.shape_code] == inv[e.source_id][e.payload.envelope.shape_code], "a record changed its board shape")

    class D:
        def __init__(self):
            self.b = []

        def update(self, x):
            self.b.append(bytes(x))
    ds = []
    for e in full:
        d = D()
        s.update_record_key_digest(d, e.record_key)
        ds.append(b"".join(d.b))
    c.check(len(set(ds)) == len(full), "two records share a digest")
    twin = comp([child("x", 3, 0, codes={SH[i]: perm[i] for i in range(3)}, caps=caps[0]), child("yy", 3, 1, codes={SH[i]: j + 4 for j, i in enumerate(sub)}, caps=caps[1])], [1, 1], False, ids=["p", "q"])
    d = D()
    twin.update_record_key_digest(d, ("composite", "p", full[0].record_key[2]))
    c.check(b"".join(d.b) != ds[0], "digest does not depend on the child identity")
    for bad in (("composit", "x", ("x", 0, 0, 0)), ("composite", "z", ("x", 0, 0, 0)), ("composite", "x"), None):
        expect_error(c, lambda: s.update_record_key_digest(D(), bad), (ValueError,), "malformed key accepted")
    s.configure_distributed(3, 2, rank_sharded=True)
    c.check(all(x.conf[-1] == (3, 2, True) for x in ch), "distribution not forwarded to a child")
    cur = s.start_cycle(0, 1, 2)
    c.check(all(k.cycle == 1 and k.rank == 2 and k.epoch == 0 for k in cur.child_cursors), "child cursors start elsewhere")
    expect_error(c, lambda: s.start_cycle(0, 1, 0), (ValueError,), "foreign rank accepted")
    expect_error(c, lambda: s.configure_distributed(3, 3, rank_sharded=True), (ValueError,), "rank outside the world accepted")
    expect_error(c, lambda: comp([child("x", 1, 0), child("y", 1, 0, dist=False)], [1, 1], False).configure_distributed(2, 0, rank_sharded=True), (TypeError,), "child that cannot shard accepted")
    if not both[1]:
        expect_error(c, lambda: s.save_cursor(cur), (RuntimeError,), "a mixture that cannot resume saved a cursor")
    expect_error(c, lambda: comp(ch, [1, 1], False, ids=["a", "a"]), (ValueError,), "duplicate ids accepted")
    for w in ([0, 1], [1, -1], [1], []):
        expect_error(c, lambda: comp(ch, w, False), (ValueError,), "bad weights accepted")
    expect_error(c, lambda: comp([child("x", 1, 0, codes={(1, 1): 0, (2, 2): 0})], [1], False), (ValueError,), "duplicate shape codes accepted")
    C = repo("dataset.core")
    man = [C.canonical_pipeline_state_bytes(comp(ch, w, y, ids=i).manifest_state()) for w in ([1, 1], [1, 2], [2, 1]) for y in (True, False) for i in (["a", "b"], ["b", "a"])]
    c.check(len(set(man)) == len(man), "manifest does not pin the mixture")
    c.cover("done")


@check.obligation("a failing child start closes the cursors already opened", bounds="3 children, any one failing, start or restore", covers=["done"], functions=["start_cycle", "restore_cursor", "close_cursor"])
def ob(c):
    ch = [child(f"c{i}", 2, 0) for i in range(3)]
    s = comp(ch, [1, 1, 1], False)
    f = int(c.int("fail", 0, 2))
    st = s.save_cursor(s.start_epoch(0, 0))

    def boom(*a):
        raise OSError("no file")
    what = c.choose("what", ["start_cycle", "restore_cursor"])
    setattr(ch[f], what, boom)
    expect_error(c, (lambda: s.start_cycle(0, 0, 0)) if what == "start_cycle" else (lambda: s.restore_cursor(st)), (OSError,), "failure hidden")
    c.check([len(x.closed) for x in ch] == [1 if i < f else 0 for i in range(3)], "opened child cursors leak")
    delattr(ch[f], what)
    cur = s.start_epoch(0, 0)
    s.close_cursor(cur)
    c.check([len(x.closed) for x in ch] == [2 if i < f else 1 for i in range(3)], "close does not reach every child")
    c.cover("done")


@check.obligation("decimal blend ratios become exact reduced integer weights", bounds="2..3 children, ratios k/d, k<=8, d in 1,8,100 (2 children) or k<=3, d in 1,4 (3 children)", covers=["done"],
                  functions=["_integer_ratio_weights"], budget=300)
def ob(c):
    from fractions import Fraction
    D = repo("dataset")
    n = int(c.int("n", 2, 3))
    den = [c.choose(f"d{i}", [1, 8, 100] if n == 2 else [1, 4]) for i in range(n)]
    num = [int(c.int(f"k{i}", 1, 8 if n == 2 else 3)) for i in range(n)]

    class X:
        blend_ratios = [a / b for a, b in zip(num, den)]
    w = D.MultiIterativeDataset._integer_ratio_weights(X())
    fr = [Fraction(a, b) for a, b in zip(num, den)]
    c.check(all(type(x) is int and x > 0 for x in w) and all(w[i] * fr[0] == w[0] * fr[i] for i in range(n)), "weights are not proportional to the ratios", detail=lambda: (num, den, w))
    g = 0
    for x in w:
        g = gcd(g, x)
    c.check(g == 1, "weights are not reduced")
    X.blend_ratios = X.blend_ratios[:1] + [c.choose("bad", [0.0, -1.0, float("inf"), float("nan"), 1e-7])]
    expect_error(c, lambda: D.MultiIterativeDataset._integer_ratio_weights(X()), (ValueError,), "bad ratio accepted")
    c.cover("done")


@check.obligation("a concatenated map dataset indexes every child record once", bounds="3 children of 0..2**40 records, any index", covers=["in", "out"],
                  functions=["__getitem__", "__len__", "map_record_ref"])
def ob(c):
    D, St = repo("dataset"), repo("dataset.stream")
    sizes = [c.zint(f"n{i}", 0, 1 << 40) for i in range(3)]

    class Ch:
        def __init__(self, j):
            self.j = j

        def __len__(self):
            return 0

        def __getitem__(self, i):
            return (self.j, i)

        def map_record_ref(self, i):
            return St.MapRecordRef(f"d{self.j}", i, ("k", b"f", "fmt", (i,)), (1, 1))
    ch = [Ch(j) for j in range(3)]
    ln = lambda x: sizes[x.j] if isinstance(x, Ch) else __import__("builtins").len(x)
    m = D.MultiDataset.__new__(D.MultiDataset)
    m.datasets = ch
    i = c.zint("i", 0, 1 << 42)
    D.len = ln
    try:
        total = m.__len__()
        c.check(total == sizes[0] + sizes[1] + sizes[2], "length of the concatenation")
        try:
            j, k = m[i]
        except IndexError:
            c.check(i >= total, "a valid index was refused")
            expect_error(c, lambda: m.map_record_ref(i), (IndexError,), "reference past the end")
            c.cover("out")
            return
        base = 0
        for q in range(j):
            base = base + sizes[q]
        c.check(sand(base + k == i, k >= 0, k < sizes[j]), "index maps to the wrong child record")
        r = m.map_record_ref(i)
        c.check(sand(eq(r.index, i), eq(r.sample_key[3][0], j), eq(r.sample_key[3][1], k), r.sample_key[2] == "fmt", r.sample_key[1] == b"f"), "record reference differs from the record delivered")
    finally:
        del D.len
    c.cover("in")


@check.obligation("mixture construction refuses incompatible children", bounds="each structural option differing; duplicated files; pipelines on a child", covers=["done"],
                  functions=["_build_partitioned_stream"])
def ob(c):
    import tempfile
    D = repo("dataset")
    PC = __import__("plan_common")

    class Planner:
        pipeline_composer = None
        closed = 0

        def close(self):
            self.closed += 1

    class Ds:
        file_list = ()

        def __init__(self, name):
            self.fixed_side_input, self.fixed_board_size = False, None
            self.extra_kwargs = {}
            self._record_source = child(name, 2, 0)
            self.planner = Planner()
            self.planner.source = self._record_source

        def _build_partitioned_stream(self):
            return self.planner
    a, b = Ds("a"), Ds("b")
    kind = c.choose("kind", ["ok", "side", "board", "pass", "channels", "pipeline", "nosource", "othersource", "files"])
    d = tempfile.mkdtemp(dir=scratch())
    if kind == "side":
        b.fixed_side_input = True
    if kind == "board":
        b.fixed_board_size = (9, 9)
    if kind == "pass":
        b.extra_kwargs = {"has_pass_move": True}
    if kind == "channels":
        b.stm_input_channel = 3
    if kind == "pipeline":
        b.planner.pipeline_composer = object()
    if kind == "nosource":
        b._record_source = None
    if kind == "othersource":
        b.planner.source = child("z", 1, 0)
    if kind == "files":
        p = os.path.join(d, "f")
        open(p, "w").close()
        a.file_list, b.file_list = [p], [os.path.join(d, ".", "f")]
    m = D.MultiIterativeDataset.__new__(D.MultiIterativeDataset)
    C = repo("dataset.core")
    m.runtime_context = C.DatasetRuntimeContext(2, 2, 1, 0, 5, "train")
    m.datasets, m.child_ids, m.blend_ratios = [a, b], ("a", "b"), [1.0, 0.5]
    m.shuffle, m.shuffle_window_size, m.shuffle_buffer_bytes, m.steps_per_epoch, m.sync_length, m.batch_pipelines = False, 4, None, None, True, ()
    if kind == "ok":
        p = m._build_partitioned_stream()
        c.check(m._record_source.weights == (2, 1) and p.source is m._record_source, "mixture built with other weights")
        c.check(a.planner.closed == 1 and b.planner.closed == 1, "child planners stay open")
    else:
        expect_error(c, m._build_partitioned_stream, (ValueError, TypeError), f"incompatible mixture accepted: {kind}")
    import shutil
    shutil.rmtree(d)
    c.cover("done")


if __name__ == "__main__":
    check.main()
