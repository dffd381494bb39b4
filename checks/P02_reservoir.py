import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *

check = Check("P02", "bounded shuffle", assumptions=[
    "the slot picked for each eviction is a free symbolic choice keyed by the generator position (its generator is decided separately)",
    "capacity <= 3, <= 5 offered items, sizes < 2**16",
])


def reservoir(c, cap, mb, slots, **kw):
    sh = repo("dataset.shuffle")

    class R(sh.StreamingShuffleReservoir):
        __slots__ = ()

        def _random_slot(self):
            k = (self._rng_counter, len(self._slots))
            self._rng_counter += 1
            if k not in slots:
                slots[k] = int(c.int(f"slot_{k[0]}_{k[1]}", 0, k[1] - 1))
            return slots[k]
    return R(cap, seed=7, epoch=kw.get("epoch", 0), stream_key=("s",), max_bytes=mb)


class Model:
    """Reference: a bag with swap-with-last eviction."""

    def __init__(self, cap, mb, slots):
        self.cap, self.mb, self.slots, self.items, self.n = cap, mb, slots, [], 0
        self.peak = 0
        self.peakb = 0

    def offer(self, item, size):
        out = []
        while self.items and (len(self.items) >= self.cap or (
                self.mb is not None and bool(sum_(s for _, s in self.items) + size > self.mb))):
            i = self.slots[(self.n, len(self.items))]
            self.n += 1
            out.append(self.items[i][0])
            self.items[i] = self.items[-1]
            self.items.pop()
        self.items.append((item, size))
        self.peak = max(self.peak, len(self.items))
        t = sum_(s for _, s in self.items)
        self.peakb = ite(t > self.peakb, t, self.peakb)
        return out


def sum_(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def mk(cap, n, api, limited):
    @check.obligation(f"exactly once, {api}, capacity {cap}, {n} items{', byte limit' if limited else ''}",
                      bounds=f"capacity {cap}, {n} items, sizes in [0,1000], every slot sequence",
                      functions=["StreamingShuffleReservoir.offer", "offer_many", "offer_zero_sized", "drain", "_evict_slot", "state", "restore"],
                      covers=["done"] + (["evicted"] if n > cap else []), budget=400)
    def ob(c):
        slots = {}
        sizes = [c.int(f"size{i}", 0, 1000) if limited else 0 for i in range(n)]
        mb = c.int("max_bytes", 1, 1200) if limited else None
        if limited:
            for s in sizes:
                c.assume(s <= mb)
        r = reservoir(c, cap, mb, slots)
        m = Model(cap, mb, slots)
        cut = int(c.int("cut", 0, n))
        got, want = [], []
        fresh = None

        def feed(lo, hi):
            if api == "offer":
                for i in range(lo, hi):
                    got.extend(r.offer(i, size_bytes=sizes[i]))
                    c.check(len(r) <= cap, "reservoir holds more items than its capacity")
                    if mb is not None:
                        c.check(r.resident_bytes <= mb, "reservoir holds more bytes than its limit")
            elif api == "many":
                got.extend(r.offer_many([(i, sizes[i]) for i in range(lo, hi)]))
            else:
                got.extend(r.offer_zero_sized(range(lo, hi)))
        feed(0, cut)
        st = r.state()
        # crash here: a new process restores the checkpoint
        fresh = reservoir(c, cap, mb, slots)
        fresh.restore(st)
        c.check(same([getattr(fresh.stats, k) for k in STATS], [getattr(r.stats, k) for k in STATS]), "restored statistics differ")
        if bool(c.bool("resume")):
            r = fresh
        feed(cut, n)
        c.check(len(r) <= cap, "reservoir holds more items than its capacity")
        if mb is not None:
            c.check(r.resident_bytes <= mb, "reservoir holds more bytes than its limit")
        for i in range(n):
            want.extend(m.offer(i, sizes[i]))
        if want:
            c.cover("evicted")
        c.check(got == want, "emitted items differ from the reference order", detail=lambda: (got, want))
        s = r.stats
        c.check(sand(s.offered == n, s.emitted == len(want), s.occupancy == len(m.items), s.resident_bytes == sum_(z for _, z in m.items)),
                "counters do not match the history")
        c.check(sand(s.peak_occupancy == m.peak, s.peak_resident_bytes == m.peakb), "peak counters do not match the history")
        st2 = r.state()
        c.check(sand(list(st2.slots) == [x for x, _ in m.items], same(list(st2.slot_sizes), [z for _, z in m.items]), st2.rng_counter == m.n),
                "checkpoint does not describe the contents")
        rest = r.drain()
        c.check(sorted(list(rest) + got) == list(range(n)), "an item was lost or repeated", detail=lambda: (rest, got))
        c.check(r.closed and len(r) == 0 and r.drain() == (), "drained reservoir is not closed and empty")
        c.check(r.stats.emitted == n, "emitted count after drain")
        for f in (lambda: r.offer(9), lambda: r.offer_many([(9, 0)]), lambda: r.offer_zero_sized([9])):
            try:
                f()
            except RuntimeError:
                continue
            c.fail("drained reservoir accepts items")
        # a drained checkpoint restores as drained
        f2 = reservoir(c, cap, mb, slots)
        f2.restore(r.state())
        c.check(f2.closed and f2.drain() == (), "drained state not restored")
        c.cover("done")


STATS = ("offered", "emitted", "occupancy", "resident_bytes", "peak_occupancy", "peak_resident_bytes")
for cap in (1, 2, 3):
    for api in ("offer", "many", "zero"):
        mk(cap, 4, api, False)
for api in ("offer", "many"):
    mk(2, 3, api, True)
    mk(3, 3, api, True)


@check.obligation("drain order survives a checkpoint", bounds="3 retained items",
                  functions=["drain", "state", "restore"], covers=["done"])
def ob(c):
    sh = repo("dataset.shuffle")
    slots = {}
    r = reservoir(c, 3, None, slots)
    for i in range(4):
        r.offer(i)
    f = reservoir(c, 3, None, slots)
    f.restore(r.state())
    a = r.drain()
    b = f.drain()
    c.check(a == b, "drain order differs after restore")
    c.cover("done")


@check.obligation("restore accepts only consistent states", bounds="<=2 slots, all counters symbolic 64-bit signed",
                  functions=["restore"], covers=["accepted", "rejected"])
def ob(c):
    sh = repo("dataset.shuffle")
    B = (-(1 << 62), (1 << 63) + 5)
    k = int(c.int("nslots", 0, 2))
    sizes = tuple(c.ints("size", k, -2, 50))
    mb = c.choose("limit", [None, 60])
    st = sh.ReservoirState(
        algorithm=sh.RESERVOIR_ALGORITHM, seed=c.int("seed", 6, 8), epoch=c.int("epoch", 0, 2), stream_key=c.choose("key", [("s",), ("t",)]),
        capacity=c.int("cap", 1, 3), max_bytes=mb, slots=tuple(range(k)), slot_sizes=sizes, resident_bytes=c.int("resident", *B),
        rng_counter=c.int("counter", *B), offered=c.int("offered", *B), emitted=c.int("emitted", *B),
        peak_occupancy=c.int("peak", *B), peak_resident_bytes=c.int("peakb", *B), closed=bool(c.bool("closed")))
    r = reservoir(c, 2, 60, {}, epoch=1)
    before = r.state()
    try:
        r.restore(st)
    except ValueError:
        c.cover("rejected")
        c.check(r.state() == before, "a rejected checkpoint changed the reservoir")
        return
    c.cover("accepted")
    tot = sum_(sizes)
    c.check(sand(st.seed == 7, st.epoch == 1, st.stream_key == ("s",), st.capacity == 2, mb == 60), "state of another reservoir accepted")
    c.check(sand(*[s >= 0 for s in sizes]), "negative size accepted")
    c.check(sand(st.resident_bytes == tot, tot <= 60), "byte accounting not enforced")
    c.check(sand(st.offered == st.emitted + k, st.offered >= 0, st.emitted >= 0), "exactly-once accounting not enforced")
    c.check(sand(st.rng_counter >= 0, st.rng_counter < (1 << 63)), "generator position out of range accepted")
    c.check(sand(st.peak_occupancy >= k, st.peak_occupancy <= 2, st.peak_resident_bytes >= tot), "peaks not enforced")
    c.check(not (st.closed and k), "closed state with items accepted")
    s = r.state()
    for f in ("slots", "slot_sizes", "resident_bytes", "rng_counter", "offered", "emitted", "peak_occupancy", "peak_resident_bytes", "closed"):
        c.check(same(getattr(s, f), getattr(st, f)), f"{f} not restored")


@check.obligation("oversized items are refused without effect", bounds="2 items, symbolic sizes and limit",
                  functions=["offer", "offer_many"], covers=["refused", "ok"])
def ob(c):
    slots = {}
    mb = c.int("mb", 1, 300)
    r = reservoir(c, 2, mb, slots)
    s0, s1 = c.int("s0", -3, 400), c.int("s1", -3, 400)
    bad0, bad1 = sor(s0 < 0, s0 > mb), sor(s1 < 0, s1 > mb)
    many = bool(c.bool("many"))
    try:
        if many:
            r.offer_many([(0, s0), (1, s1)])
        else:
            r.offer(0, size_bytes=s0)
    except ValueError:
        c.cover("refused")
        c.check(sor(bad0, bad1) if many else bad0, "valid item refused")
        c.check(len(r) == 0 and r.stats.offered == 0, "a refused offer changed the reservoir")
        return
    c.cover("ok")
    c.check(snot(sor(bad0, bad1)) if many else snot(bad0), "oversized or negative item accepted")


for _u in (1, 2, 3, 4, 6, 1000):
    @check.obligation(f"slot generator over {_u} slots", u=_u, bounds="every 64-bit base and position, <= 2 words per draw",
                      functions=["_random_slot"], covers=["done"], budget=200)
    def ob(c, u):
        sh = repo("dataset.shuffle")
        r = sh.StreamingShuffleReservoir(u, seed=7, epoch=0)
        r._slots = [0] * u
        base = c.int("base", 0, (1 << 64) - 1)
        pos = c.int("pos", 0, (1 << 63) - 1)
        r._rng_base = base
        r._rng_counter = pos
        M = (1 << 64) - 1

        def word(i):
            v = (base + i * 0x9E3779B97F4A7C15) & M
            v = ((v ^ (v >> 30)) * 0xBF58476D1CE4E5B9) & M
            v = ((v ^ (v >> 27)) * 0x94D049BB133111EB) & M
            return v ^ (v >> 31)
        lim = (1 << 64) // u * u
        try:
            s = r._random_slot()
        except ValueError:
            c.check(pos >= (1 << 63) - 3, "generator position refused inside its range")
            return
        used = r._rng_counter - pos
        c.check(sand(s >= 0, s < u), "slot out of range")
        used = int(used)
        if used > 2:
            return
        w = word(pos + used - 1)
        c.check(w < lim, "word outside the complete residue classes accepted (biased slot)")
        c.check(s == w % u, "slot is not the accepted word modulo the occupancy")
        if used == 2:
            c.check(word(pos) >= lim, "an acceptable word was skipped")
        c.cover("done")


# ----------------------------------------------------------------------- packed ready queue

for _n in (3, 4):
    @check.obligation(f"packed ready queue is a FIFO ({_n} ids)", n=_n, bounds="chunks of <=3 ids, every split into extends, pops and a checkpoint",
                      functions=["PackedUInt64ReadyBuffer.extend", "pop", "state", "restore"], covers=["done"])
    def ob(c, n):
        pk = repo("dataset.packed")
        q = pk.PackedUInt64ReadyBuffer()
        ids = [c.int(f"id{i}", 0, (1 << 64) - 1) for i in range(n)]
        i, out = 0, []
        step = 0
        while i < n:
            k = int(c.int(f"chunk{step}", 1, min(3, n - i)))
            q.extend(arr(c, ids[i:i + k], np.uint64))
            i += k
            p = int(c.int(f"pop{step}", 0, i - len(out)))
            c.check(len(q) == i - len(out), "queue length")
            out += elems(q.pop(p))
            step += 1
            if step == 2 and bool(c.bool("ckpt")):
                st = q.state()
                c.check(len(st) == len(q), "checkpoint length")
                q = pk.PackedUInt64ReadyBuffer()
                q.restore(st)
        try:
            q.pop(len(q) + 1)
        except ValueError:
            pass
        else:
            c.fail("pop past the end accepted")
        out += elems(q.pop(len(q)))
        c.check(len(q) == 0, "queue not empty")
        c.check(len(out) == n and same(out, ids), "ids lost, repeated or reordered")
        q.extend(arr(c, ids[:1], np.uint64))
        q.clear()
        c.check(len(q) == 0, "clear")
        c.cover("done")


if __name__ == "__main__":
    check.main()
