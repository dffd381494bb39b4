"""Stub record sources and a free shuffle for the batch-planner checks."""
import contextlib
import sys
import types

from symx.harness import *


class FreeSlots:
    """The shuffle's slot choices become free symbolic choices keyed by generator position."""

    def __init__(self, c):
        self.c = c
        self.table = {}

    def pick(self, epoch, stream, counter, n):
        k = (epoch, repr(stream), counter, n)
        if k not in self.table:
            j = sum(1 for q in self.table if q[0] == epoch and q[1] == k[1])
            self.table[k] = int(self.c.int(f"slot_e{epoch}_{len(self.table)}_{j}", 0, n - 1)) if n > 1 else 0
        return self.table[k]

    @contextlib.contextmanager
    def install(self, free=True):
        sh, pk = repo("dataset.shuffle"), repo("dataset.packed")
        me = self

        def rs(r):
            n = len(r._slots)
            v = me.pick(r.epoch, r.stream_key, r._rng_counter, n)
            r._rng_counter += 1
            return v
        with contextlib.ExitStack() as st:
            if free and hasattr(sh.StreamingShuffleReservoir, "_random_slot"):
                st.enter_context(patched(sh.StreamingShuffleReservoir, "_random_slot", rs))
            old = sys.modules.get("dataset_planner_cpp")
            m = types.ModuleType("dataset_planner_cpp")
            m.PackedUInt64Reservoir = lambda cap, base: NativeCore(cap, base, me if free else None)
            sys.modules["dataset_planner_cpp"] = m
            try:
                yield self
            finally:
                if old is not None:
                    sys.modules["dataset_planner_cpp"] = old
                else:
                    sys.modules.pop("dataset_planner_cpp", None)


class NativeCore:
    """Stand-in for the native reservoir core; the native code itself is decided by P03."""

    def __init__(self, cap, base, free):
        self.cap, self.base, self.free = cap, base, free
        self.s, self.rng_counter, self.offered, self.emitted, self.peak_occupancy, self.closed = [], 0, 0, 0, 0, False

    occupancy = property(lambda s: len(s.s))

    def offer(self, ids):
        if self.closed:
            raise RuntimeError("closed")
        out = []
        for v in elems(ids):
            if len(self.s) == self.cap:
                n = len(self.s)
                i = self.free.pick("p", self.base, self.rng_counter, n) if self.free else self.slot(n)
                self.rng_counter += 1
                out.append(self.s[i])
                self.s[i] = self.s[-1]
                self.s.pop()
            self.s.append(v)
            self.offered += 1
            self.peak_occupancy = max(self.peak_occupancy, len(self.s))
        self.emitted += len(out)
        return np.array(out, dtype=np.uint64)

    def slot(self, n):
        return (int(self.base) * 31 + self.rng_counter * 17) % n

    def drain(self, order):
        out = [self.s[int(i)] for i in elems(order)]
        self.emitted += len(out)
        self.s = []
        self.closed = True
        return np.array(out, dtype=np.uint64)

    def slots(self):
        return np.array(self.s, dtype=np.uint64)

    def restore(self, slots, rng, off, em, pk, closed):
        self.s = [int(x) for x in elems(slots)]
        self.rng_counter, self.offered, self.emitted, self.peak_occupancy, self.closed = rng, off, em, pk, closed


def make_source(n, shapes, kind="chunk", exact=True, resumable=True, cycles=None, zero=False, sizes=None, declare=None):
    """n records per epoch (or cycles[cycle] when rank sharded) with shape codes shapes[i]."""
    S = repo("dataset.source")

    class Src:
        capabilities = S.SourceCapabilities("sequential", False, exact, resumable, True)
        zero_resident_envelopes = zero

        def __init__(self):
            self.shape_codes = declare if declare is not None else {(k, k): k for k in sorted(set(shapes))}
            self.closed = []
            self.dist = None

        def configure_distributed(self, w, r, *, rank_sharded):
            self.dist = (w, r, rank_sharded)

        def manifest_state(self):
            return {"kind": "stub", "n": n, "shapes": list(shapes)}

        def start_epoch(self, epoch, rank):
            return {"epoch": epoch, "cycle": 0, "pos": 0, "rank": rank}

        def close_cursor(self, cur):
            self.closed.append(cur)

        def save_cursor(self, cur):
            return dict(cur)

        def restore_cursor(self, st):
            return dict(st)

        def _n(self, cur):
            return n if cycles is None else cycles[min(cur["cycle"], len(cycles) - 1)]

        def _env(self, cur, i):
            return S.RecordEnvelope(0, (cur["epoch"], cur["cycle"], i), shapes[i % len(shapes)], ("p", cur["epoch"], i),
                                    0 if sizes is None else sizes[i])

        def update_key(self):
            pass

        def materialize_batch(self, envs):
            return {"keys": [e.record_key for e in envs]}
    if not exact:
        def start_cycle(self, epoch, cycle, rank):
            return {"epoch": epoch, "cycle": cycle, "pos": 0, "rank": rank}
        Src.start_cycle = start_cycle

    def next_envelope(self, cur):
        if cur["pos"] >= self._n(cur):
            return None, dict(cur)
        return self._env(cur, cur["pos"]), dict(cur, pos=cur["pos"] + 1)

    def next_envelopes(self, cur, limit):
        # short blocks are legal; an empty block means the end
        take = min(2, limit, self._n(cur) - cur["pos"])
        return tuple(self._env(cur, cur["pos"] + i) for i in range(take)), dict(cur, pos=cur["pos"] + take)

    def next_packed_records(self, cur, limit):
        P = repo("dataset.packed")
        take = min(2, limit, self._n(cur) - cur["pos"])
        ids = np.array([cur["epoch"] * 1000 + cur["pos"] + i for i in range(take)], dtype=np.uint64)
        return P.PackedRecordBlock(ids), dict(cur, pos=cur["pos"] + take)

    def envelopes_from_record_ids(self, ids):
        return tuple(self._env({"epoch": int(i) // 1000, "cycle": 0}, int(i) % 1000) for i in elems(ids))
    if kind == "one":
        Src.next_envelope = next_envelope
    else:
        Src.next_envelopes = next_envelopes
    if kind == "packed":
        Src.next_packed_records = next_packed_records
        Src.envelopes_from_record_ids = envelopes_from_record_ids
    return Src()


def planner(src, *, B=2, world=1, rank=0, mode="train", shuffle=True, cap=2, steps=None, seed=5, maxq=64, composer=None, nbytes=None):
    P, C = repo("dataset.planner"), repo("dataset.core")
    rc = C.DatasetRuntimeContext(B, B // world, world, rank, seed, mode)
    return P.DatasetPlanner(src, rc, P.PlannerConfig(shuffle, cap, nbytes, maxq, steps), composer)


def keys(batch):
    return [e.record_key for e in batch.envelopes]


def drain_batches(p, limit=40):
    out = []
    while True:
        b = p.next_batch()
        if b is None:
            break
        out.append((keys(b), list(b.is_real), b))
        if len(out) > limit:
            raise RuntimeError("planner does not terminate")
    return out
