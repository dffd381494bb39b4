import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *
from itertools import combinations
from symx import llvm
from symx.values import mk as mkint

check = Check("P03", "native packed reservoir", assumptions=[
    "the C++ sources are compiled to LLVM IR (clang -O1) against a stand-in pybind11 header; the IR is executed symbolically, replays use the real pybind11 extension built from the same sources",
    "the two 64-bit mixing multiplications of the generator and the remainder by a capacity that is no power of two are unknown functions (same in code and specification); capacity <= 4, <= 6 offered ids",
])
F = ["PackedUInt64ShuffleReservoir.offer_block", "PackedUInt64ShuffleReservoir.drain", "PackedUInt64ShuffleReservoir.state",
     "PackedUInt64ShuffleReservoir.restore", "packed_shuffle.cpp: PackedUInt64Reservoir (all bound functions)"]
G, K1, K2, M64 = 0x9E3779B97F4A7C15, 0xBF58476D1CE4E5B9, 0x94D049BB133111EB, (1 << 64) - 1


def word(base, counter):
    if is_sym(base):
        v = z3.simplify(base.e + z3.BitVecVal(counter * G & M64, 64))
        v = llvm.mul_uf(K1, z3.simplify(v ^ z3.LShR(v, 30)))
        v = llvm.mul_uf(K2, z3.simplify(v ^ z3.LShR(v, 27)))
        v = z3.simplify(v ^ z3.LShR(v, 31))
        return mkint(v, 0, M64)
    v = (base + counter * G) & M64
    v = (v ^ v >> 30) * K1 & M64
    v = (v ^ v >> 27) * K2 & M64
    return v ^ v >> 31


def unmix(v, counter=0):
    """The base whose word at the counter is v (for replays: the mixing is a bijection)."""
    v ^= v >> 31 ^ v >> 62
    v = v * pow(K2, -1, 1 << 64) & M64
    v ^= v >> 27 ^ v >> 54
    v = v * pow(K1, -1, 1 << 64) & M64
    v ^= v >> 30 ^ v >> 60
    return (v - counter * G) & M64


EDGE = dict(base=[unmix(((1 << 64) - (1 << 64) % n + d) & M64) for n in (3, 5) for d in (0, -1, 1)])
assert word(EDGE["base"][1], 0) == M64 - 1


def few_rejections(c, base, n, draws, k):
    """At most k of the first draws + k words are rejected (an unbounded run of rejected draws would never end)."""
    limit = (1 << 64) - (1 << 64) % n
    if limit < 1 << 64:
        bad = [word(base, i) >= limit for i in range(draws + k + 1)]
        for g in combinations(bad, k + 1):
            c.assume(snot(sand(*g)))


def pick(c, base, counter, n):
    """Specification: the generator of the Python reservoir. Returns (slot, next counter); raises at the counter limit."""
    while True:
        if counter >= 1 << 63:
            raise OverflowError
        v = word(base, counter)
        counter += 1
        limit = (1 << 64) - (1 << 64) % n
        if limit == 1 << 64 or bool(v < limit):
            if is_sym(v):
                return int(mkint(llvm.urem_uf(n, z3.simplify(v.e if v.e.size() == 64 else z3.Extract(63, 0, v.e))), 0, n - 1)), counter
            return v % n, counter


class Model:
    def __init__(self, c, cap, base):
        self.c, self.cap, self.base = c, cap, base
        self.items, self.n, self.off, self.em, self.peak, self.closed = [], 0, 0, 0, 0, False

    def offer(self, ids):
        """All or nothing."""
        save = (list(self.items), self.n)
        out = []
        try:
            for x in ids:
                if len(self.items) == self.cap:
                    i, self.n = pick(self.c, self.base, self.n, self.cap)
                    out.append(self.items[i])
                    self.items[i] = self.items[-1]
                    self.items.pop()
                self.items.append(x)
        except OverflowError:
            self.items, self.n = save
            raise
        self.off += len(ids)
        self.em += len(out)
        self.peak = max(self.peak, len(self.items))
        return out


def reservoir(c, cap, base):
    P = repo("dataset.packed")
    llvm.extension(c, "dataset_planner_cpp", mul_uf=True)
    with patched(P, "rng_u64", lambda *a, **k: base):
        return P, P.PackedUInt64ShuffleReservoir(cap, seed=3, epoch=1, stream_key=("s",))


def ids(c, name, n):
    return arr(c, [c.int(f"{name}{i}", 0, M64) for i in range(n)], np.uint64)


def agree(c, r, m, when):
    s = r.stats
    c.check(sand(eq(len(r), len(m.items)), eq(s.offered, m.off), eq(s.emitted, m.em), eq(s.occupancy, len(m.items)), eq(s.peak_occupancy, m.peak), eq(r.closed, m.closed)),
            f"{when}: the counters differ from the records offered and emitted", lambda: (s, m.off, m.em, m.peak))
    c.check(sand(*[eq(a, b) for a, b in zip(elems(r._core.slots()), m.items)]) if len(m.items) else True, f"{when}: the native reservoir holds other records")
    c.check(eq(r._core.rng_counter, m.n), f"{when}: the generator position differs from the Python reservoir's")


def block(P, a):
    return P.PackedRecordBlock(a)


def stream(cap, n, tiers=("quick", "thorough")):
    @check.obligation(f"same records as the Python reservoir, capacity {cap}, {n} ids", bounds=f"every id, every generator base (capacity 3 and 5: without rejected draws), any split into two blocks, with or without save and restore at the split, then drain; capacity {cap}, {n} ids",
                      functions=F, covers=["end"], budget=150, tiers=tiers, perturb=dict(base=[0, 1, 2, 3, 5, 8, 13, 21, 34, 55]))
    def ob(c):
        base = c.int("base", 0, M64)
        few_rejections(c, base, cap, n - cap, 0)
        P, r = reservoir(c, cap, base)
        m = Model(c, cap, base)
        a = ids(c, "id", n)
        cut = int(c.int("cut", 0, n))
        moved = c.choose("move", [False, True])
        vals = elems(a)
        for lo, hi in ((0, cut), (cut, n)):
            part = a[lo:hi]
            got = r.offer_block(block(P, part))
            want = m.offer(vals[lo:hi])
            c.check(len(got) == len(want), "offering a block returns the wrong number of records")
            c.check(sand(*[eq(x, y) for x, y in zip(elems(got), want)]), "offering a block returns other records than the Python reservoir")
            c.check(np.dtype(got.dtype) == np.uint64, "emitted ids are not uint64")
            agree(c, r, m, "after a block")
            if lo == 0 and moved:
                st = r.state()
                _, r = reservoir(c, cap, base)
                r.restore(st)
                agree(c, r, m, "after restore")
                c.check(same(r.state().slots_le, st.slots_le), "a restored reservoir reports another state")
        perm = []

        def dp(k, *key):
            perm.append(key)
            return list(range(k))[::-1]
        held = list(m.items)
        with patched(P, "deterministic_permutation", dp):
            got = r.drain()
        m.items, m.closed, m.em = [], True, m.em + len(held)
        c.check(len(got) == len(held) and bool(sand(*[eq(x, y) for x, y in zip(elems(got), held[::-1])])), "draining does not return every held record once in the drain order")
        c.check(perm == [(3, "shuffle_reservoir_drain", (P.RESERVOIR_ALGORITHM, 1, ("s",), n, m.n))], "the drain order is not keyed by the run, epoch, stream and position", lambda: perm)
        agree(c, r, m, "after the drain")
        c.check(len(r.drain()) == 0, "draining twice returns records twice")
        if n:
            expect_error(c, lambda: r.offer_block(block(P, a[:1])), (RuntimeError,), "offering after the drain is accepted")
        c.cover("end")


for cap, n in ((1, 3), (2, 4), (3, 5), (4, 5)):
    stream(cap, n)
stream(3, 6, tiers=("thorough",))
stream(5, 7, tiers=("thorough",))


@check.obligation("rejection of biased draws", bounds="capacity 3; every base; one offer that replaces one record, with up to two rejected draws", functions=F, covers=["end", "rejected"], budget=100, perturb=EDGE)
def reject(c):
    base = c.int("base", 0, M64)
    few_rejections(c, base, 3, 1, 2)
    P, r = reservoir(c, 3, base)
    m = Model(c, 3, base)
    a = ids(c, "id", 4)
    r.offer_block(block(P, a)), m.offer(elems(a))
    if m.n > 1:
        c.cover("rejected")
    agree(c, r, m, "after the block")
    c.cover("end")


@check.obligation("generator position limit", bounds="restored positions around 2**63; block of 1..3 ids on a full reservoir of 2", functions=F, covers=["fail", "ok"])
def limit(c):
    base = c.int("base", 0, M64)
    P, r = reservoir(c, 2, base)
    m = Model(c, 2, base)
    a = ids(c, "id", 2)
    r.offer_block(block(P, a)), m.offer(elems(a))
    st = r.state()
    back = int(c.int("left", 0, 3))
    pos = (1 << 63) - back
    import dataclasses
    try:
        r.restore(dataclasses.replace(st, rng_counter=pos))
    except ValueError:
        c.check(back == 0, "a valid generator position is refused")
        agree(c, r, m, "after a refused restore")
        c.cover("ok")
        return
    c.check(back > 0, "a generator position outside its range is accepted")
    m.n = pos
    k = int(c.int("n", 1, 3))
    b = ids(c, "new", k)
    try:
        got = r.offer_block(block(P, b))
    except (RuntimeError, ValueError):
        c.check(k >= back, "a block that fits before the limit is refused")      # the last position is never left behind
        agree(c, r, m, "after a refused block")
        c.cover("fail")
        return
    want = m.offer(elems(b))
    c.check(sand(*[eq(x, y) for x, y in zip(elems(got), want)]), "wrong records near the limit")
    agree(c, r, m, "near the limit")
    c.cover("ok")


@check.obligation("restore refuses inconsistent states", bounds="every value of each counter (64-bit), 0..4 held ids, capacity 3, both closed flags", functions=F, covers=["ok", "refused"])
def restore(c):
    P, r = reservoir(c, 3, c.int("base", 0, M64))
    full = ids(c, "id", 2)
    r.offer_block(block(P, full))
    m = Model(c, 3, 0)
    m.items, m.off, m.peak = elems(full), 2, 2
    k = int(c.int("k", 0, 4))
    new = ids(c, "new", k)
    pos, off, em, peak = (c.int(x, -2, hi) for x, hi in (("pos", (1 << 63) + 2), ("off", M64), ("em", M64), ("peak", 6)))
    closed = bool(c.bool("closed"))
    layer = c.choose("layer", ["state", "core"])
    valid = sand(k <= 3, pos >= 0, pos < (1 << 63), em >= 0, eq(off, em + k), peak >= k, peak <= 3)
    if layer == "state":
        valid = sand(valid, not (closed and k))
        st = P.PackedReservoirState(P.PACKED_RESERVOIR_ALGORITHM, 3, 1, ("s",), 3, new.astype("<u8").tobytes(), pos, off, em, peak, closed)
        call = lambda: r.restore(st)
    else:
        valid = sand(valid, off >= 0)
        c.assume(sand(off - em >= -4, off - em <= 4))
        call = lambda: r._core.restore(new, pos, off, em, peak, closed)
    try:
        call()
    except (ValueError, TypeError, RuntimeError, OverflowError):
        c.check(snot(valid), "a consistent reservoir state is refused")
        agree(c, r, m, "after a refused restore")
        c.cover("refused")
        return
    c.check(valid, "an inconsistent reservoir state is accepted")
    core = r._core
    c.check(sand(eq(core.rng_counter, pos), eq(core.offered, off), eq(core.emitted, em), eq(core.peak_occupancy, peak), eq(core.closed, closed), eq(core.occupancy, k)), "a restored counter differs")
    c.check(sand(*[eq(a, b) for a, b in zip(elems(core.slots()), elems(new))]), "restored records differ")
    c.cover("ok")


@check.obligation("foreign states", bounds="each configuration field changed", functions=F, covers=["end"])
def foreign(c):
    import dataclasses
    P, r = reservoir(c, 3, 9)
    a = ids(c, "id", 2)
    r.offer_block(block(P, a))
    st = r.state()
    what = c.choose("field", [dict(algorithm="x"), dict(seed=4), dict(epoch=2), dict(stream_key=("t",)), dict(capacity=4), dict(slots_le=bytes(15)), dict(slots_le=bytes(7))])
    expect_error(c, lambda: r.restore(dataclasses.replace(st, **what)), message=f"a state with another {list(what)[0]} is accepted")
    c.cover("end")


@check.obligation("drain order of the native core", bounds="any 64-bit order of 0..3 entries for 0..3 held ids", functions=F, covers=["ok", "refused"])
def drain(c):
    P, r = reservoir(c, 3, 9)
    h = int(c.int("held", 0, 3))
    a = ids(c, "id", h)
    r.offer_block(block(P, a))
    n = int(c.int("len", 0, 3))
    order = ids(c, "o", n)
    o = elems(order)
    valid = sand(n == h, *[x < h for x in o], *[snot(eq(o[i], o[j])) for i in range(n) for j in range(i)])
    try:
        out = r._core.drain(order)
    except ValueError:
        c.check(snot(valid), "a valid drain order is refused")
        c.check(sand(eq(r._core.occupancy, h), eq(r._core.closed, False), eq(r._core.emitted, 0)), "a refused drain changes the reservoir")
        c.cover("refused")
        return
    c.check(valid, "a drain order that is no permutation is accepted")
    v = elems(a)
    for i in range(h):
        c.check(eq(elems(out)[i], v[int(o[i])]), "the drain does not follow its order")
    c.cover("ok")


@check.obligation("blocks it cannot represent", bounds="per-record cycles, another default cycle, bad capacities", functions=F, covers=["end"])
def refuse(c):
    P, r = reservoir(c, 3, 9)
    a = ids(c, "id", 2)
    what = c.choose("what", ["cycles", "cycle", "cap0", "capf", "epoch", "key", "core0"])
    if what == "cycles":
        f = lambda: r.offer_block(P.PackedRecordBlock(a, cycles=arr(c, [1, 1], np.uint64)))
    elif what == "cycle":
        f = lambda: r.offer_block(P.PackedRecordBlock(a, default_cycle=int(c.int("dc", 1, 3))))
    elif what == "core0":
        f = lambda: sys.modules["dataset_planner_cpp"].PackedUInt64Reservoir(0, 1)
    else:
        kw = dict(seed=1, epoch=-1 if what == "epoch" else 0, stream_key=["s"] if what == "key" else ("s",))
        f = lambda: P.PackedUInt64ShuffleReservoir(0 if what == "cap0" else 2.0 if what == "capf" else 2, **kw)
    expect_error(c, f, (ValueError, TypeError), message=f"accepted: {what}")
    c.cover("end")


if __name__ == "__main__":
    check.main()
