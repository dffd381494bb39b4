SRC = '''
import sys, os
sys.path.insert(0, os.getcwd())
from dataset.source import RecordEnvelope, SourceCapabilities
from dataset.core import DatasetRuntimeContext
from dataset.planner import DatasetPlanner, PlannerConfig
class Src:
    capabilities = SourceCapabilities("sequential", False, True, True, True)
    def __init__(self, shapes):
        self.shapes = shapes
        self.shape_codes = {(k, k): k for k in sorted(set(shapes))}
    def manifest_state(self): return {"n": len(self.shapes)}
    def start_epoch(self, e, r): return (e, 0)
    def next_envelope(self, cur):
        e, i = cur
        if i >= len(self.shapes): return None, cur
        return RecordEnvelope(0, (e, i), self.shapes[i], i, 0), (e, i + 1)
    def save_cursor(self, c): return c
    def restore_cursor(self, c): return c
    def close_cursor(self, c): pass
    def materialize_batch(self, envs): return {"k": [x.record_key for x in envs]}
'''
SEEDS = [
 dict(id="b01_reservoir_bytes", property="P02", file="dataset/shuffle.py",
  edits=[("""        self._resident_bytes -= self._slot_sizes[index]
        last_item = self._slots.pop()
        last_size = self._slot_sizes.pop()
""", """        last_item = self._slots.pop()
        last_size = self._slot_sizes.pop()
        self._resident_bytes -= last_size
""")],
  needs="records of different sizes and a byte budget, with an evicted slot that is not the last one",
  breaks="the reservoir accounts the size of the moved record instead of the evicted one, so it can exceed its byte budget",
  demo='''
import sys, os
sys.path.insert(0, os.getcwd())
from dataset.shuffle import StreamingShuffleReservoir
for seed in range(40):
    r = StreamingShuffleReservoir(4, seed=seed, epoch=0, max_bytes=100)
    held = {}
    for i in range(60):
        size = 10 + (i * 37) % 60
        out = r.offer(i, size_bytes=size)
        held[i] = size
        for o in out: held.pop(o)
        if sum(held.values()) > 100 or r.resident_bytes != sum(held.values()):
            sys.exit("budget exceeded: holds %d bytes, reports %d" % (sum(held.values()), r.resident_bytes))
'''),
 dict(id="b02_eval_flush_last", property="P04", file="dataset/planner.py",
  edits=[("""                is_last = not any(self._shape_queues.values())
                if is_last:
""", """                is_last = len(self._shape_queues) <= 1
                if is_last:
""")],
  needs="evaluation of at least three board shapes whose leftover queues are flushed at the end, or an empty queue left behind",
  breaks="the evaluation flush declares the epoch finished while one shape queue still holds records, which are dropped",
  demo=SRC + '''
p = DatasetPlanner(Src([0, 1, 2, 0, 1, 2, 2]), DatasetRuntimeContext(4, 4, 1, 0, 3, "validate"), PlannerConfig(False, 1))
seen = []
while True:
    b = p.next_batch()
    if b is None: break
    seen += [e.record_key for e, real in zip(b.envelopes, b.is_real) if real]
if sorted(seen) != [(0, i) for i in range(7)]: sys.exit("records dropped: %r" % sorted(seen))
'''),
 dict(id="b03_commit_gap", property="P05", file="dataset/planner.py",
  edits=[("""            digest = token.after_digest
            expected_batch += 1
""", """            if not token.batch.is_last:
                digest = token.after_digest
            expected_batch += 1
""")],
  needs="committing the last batch of an epoch and then starting the next epoch or saving",
  breaks="the terminal token's digest is not recorded as committed, so the epoch cannot be advanced after a fully committed epoch",
  demo=SRC + '''
p = DatasetPlanner(Src([0, 0, 0, 0]), DatasetRuntimeContext(2, 2, 1, 0, 3, "train"), PlannerConfig(False, 1, steps_per_epoch=2))
while True:
    n = p.next_transactional_batch()
    if n is None: break
    p.commit_batch(n[1])
    if n[0].is_last: break
p.begin_next_epoch()
'''),
 dict(id="b04_prefetch_capacity", property="P06", file="dataset/source_dataset.py",
  edits=[("            for _ in range(min(chunk_size, capacity)):\n", "            for _ in range(chunk_size if capacity > 1 else capacity):\n")],
  needs="a prefetch limit that is not a multiple of the chunk size",
  breaks="more batches are planned and in flight than the configured prefetch limit allows",
  demo=SRC + '''
from dataset.source_dataset import SourceBatchDataset
class TS(Src):
    thread_safe_materialization = True
s = TS([0] * 120)
p = DatasetPlanner(s, DatasetRuntimeContext(2, 2, 1, 0, 3, "train"), PlannerConfig(False, 1))
planned = [0]
orig = p.next_transactional_batch
def spy():
    r = orig()
    planned[0] += r is not None
    return r
p.next_transactional_batch = spy
LIMIT = 14
d = SourceBatchDataset(p, s, prefetch_workers=3, prefetch_batches=LIMIT)
got = 0
worst = 0
for env in d:
    got += 1
    worst = max(worst, planned[0] - got)
    p.commit_batch(env.token)
if worst > LIMIT + 1: sys.exit("in flight %d > %d" % (worst, LIMIT))
'''),
 dict(id="b05_quantum_carry", property="P07", file="dataset/sequential_source.py",
  edits=[("""            if cursor.active:
                cursor.turn %= len(cursor.active)
        cursor.quantum_used = 0

    def _advance_turn""", """            if cursor.active:
                cursor.turn %= len(cursor.active)
            cursor.quantum_used = 0

    def _advance_turn""")],
  needs="a file that ends in the middle of its quantum while another file is waiting to be opened",
  breaks="the newly opened file inherits the used quantum of the finished one and gets fewer entries in its first turn",
  demo='''
import sys, os
sys.path.insert(0, os.getcwd())
from dataset.sequential_source import InterleavedSequentialSource
d = os.environ["DEMO_SCRATCH"]
paths = []
for name, data in (("a", b"A"), ("b", b"BBBBBBBB"), ("c", b"CCCCCCCC")):
    p = os.path.join(d, name); open(p, "wb").write(data); paths.append(p)
def read_raw(f):
    v = f.read(1)
    if not v: raise EOFError("short")
    return v
s = InterleavedSequentialSource(paths, format_id="demo", schema_version=1, seed=1, shuffle=False, sample_rate=1.0,
    active_streams=2, read_quantum=3, output_shapes={(3, 3)}, open_file=lambda p: open(p, "rb"), read_entry=read_raw,
    shape_of=lambda e: (3, 3), materialize_entry=lambda *a: None, read_raw_entry=read_raw, decode_raw_entry=lambda r: r)
c = s.start_epoch(0, 0)
out = ""
while True:
    e, c = s.next_envelope(c)
    if e is None: break
    out += {s.descriptors[i].file_key: "ABC"[i] for i in range(3)}.get(e.record_key[1], "?")
if "?" in out: sys.exit("unknown file key")
if out != "ACCCBBBCCCBBBCCBB": sys.exit("order " + out)
'''),
 dict(id="b06_packed_admission", property="P08", file="dataset/npz_source.py",
  edits=[("""            while row_position < stop:
                row = row_position
                row_position += 1
                if sample_is_admitted(
                    self.sample_rate,
                    self.seed,
                    cursor.epoch,
                    self._record_key(descriptor, row, cursor.cycle),
""", """            while row_position < stop:
                row = row_position
                row_position += 1
                if sample_is_admitted(
                    self.sample_rate,
                    self.seed,
                    cursor.epoch,
                    self._record_key(
                        descriptor, descriptor.global_row_begin + row, cursor.cycle
                    ),
""")],
  needs="packed delivery of a sampled epoch with more than one file",
  breaks="packed delivery decides admission with the global row number, so packed and unpacked delivery sample different records",
  demo='''
import sys, os
sys.path.insert(0, os.getcwd())
from dataset.npz_source import DenseNpzSource
class D:
    def signature_state(self): return {}
cats = [dict(path="f%d" % i, file_ordinal=i, file_sha256=bytes([i + 1]) * 32, logical_row_count=200, board_size=(15, 15)) for i in range(3)]
s = DenseNpzSource(cats, D(), seed=4, shuffle=False, sample_rate=0.5)
a, c = [], s.start_epoch(0, 0)
while True:
    e, c = s.next_envelopes(c, 64)
    if not e: break
    a += [int(x.payload) for x in e]
b, c = [], s.start_epoch(0, 0)
while True:
    blk, c = s.next_packed_records(c, 64)
    if not len(blk): break
    b += [int(x) for x in blk.record_ids]
if a != b: sys.exit("packed delivery admits other records")
'''),
 dict(id="b07_mix_partial_chunk", property="P09", file="dataset/composite_source.py",
  edits=[("            if completed_cycles == 0:\n", "            if completed_cycles < min(cycle_count, 2):\n")],
  needs="a synchronised mixture requested in chunks of several cycles whose children end one full cycle into a chunk",
  breaks="the last complete cycle of a synchronised mixture is dropped for some chunk sizes",
  demo='''
import sys, os
sys.path.insert(0, os.getcwd())
from dataset.source import RecordEnvelope, SourceCapabilities
from dataset.composite_source import CompositeRecordSource
class Src:
    capabilities = SourceCapabilities("sequential", False, True, True, True)
    shape_codes = {(3, 3): 0}
    def __init__(self, n): self.n = n
    def manifest_state(self): return {"n": self.n}
    def start_epoch(self, e, r): return (e, 0)
    def next_envelope(self, cur):
        if cur[1] >= self.n: return None, cur
        return RecordEnvelope(0, (cur[1],), 0, cur[1], 0), (cur[0], cur[1] + 1)
    def save_cursor(self, c): return c
    def restore_cursor(self, c): return c
    def close_cursor(self, c): pass
import inspect
for n in range(1, 12):
    got = set()
    for limit in (1, 4, 9):
        s = CompositeRecordSource([Src(n), Src(2 * n)], ["a", "b"], [1, 2], sync_length=True)
        c, k = s.start_epoch(0, 0), 0
        while True:
            e, c = s.next_envelopes(c, limit)
            if not e: break
            k += len(e)
        got.add(k)
    if got != {3 * n}: sys.exit("n=%d delivered %r" % (n, got))
'''),
 dict(id="b08_sampler_rollback", property="P10", file="utils/training_utils.py",
  edits=[("""        self._yield_epoch = self.epoch
        self._yielded_offset = self.offset
        self._staged_epoch = self.epoch
        self._staged_offset = self.offset

    def state_dict""", """        self._yield_epoch = self.epoch
        self._yielded_offset = self.offset
        self._staged_epoch = self._yield_epoch
        self._staged_offset = min(self._staged_offset, self.offset)

    def state_dict""")],
  needs="a rollback after the sampler staged the first batch of a new epoch while the committed cursor is still in the previous epoch",
  breaks="after a rollback across an epoch boundary the staged cursor lags behind, so replayed batches carry wrong cursor tokens",
  demo='''
import sys, os
sys.path.insert(0, os.getcwd())
from utils.training_utils import ResumableSampler
s = ResumableSampler(list(range(6)), shuffle=True, seed=1)
it = iter(s); [next(it) for _ in range(4)]
s.commit_prepared(s.prepare_commit([s.stage_batch(4)]))
list(it); s.stage_batch(2)
s.advance_yield_epoch()
it = iter(s); next(it); s.stage_batch(1)
s.rollback_uncommitted()
it = iter(s); next(it)
t = s.stage_batch(1)
s.commit_prepared(s.prepare_commit([t]))
if (s.epoch, s.offset) != (0, 5): sys.exit("cursor %r" % ((s.epoch, s.offset),))
'''),
 dict(id="b09_short_read", property="P11", file="dataset/packed_binary.py",
  edits=[("""    while remaining:
        part = f.read(remaining)
        if not part:
            break
        parts.append(part)
        remaining -= len(part)
    if remaining:
""", """    while remaining:
        part = f.read(remaining)
        parts.append(part)
        remaining -= len(part)
        if len(parts) > 1:
            break
    if remaining:
""")],
  needs="a stream that returns the bytes of one field group in three or more pieces",
  breaks="a valid record delivered in several short reads is reported as truncated",
  demo='''
import sys, os, io
sys.path.insert(0, os.getcwd())
from dataset import packed_binary as P
h = P.EntryHead(); h.boardSize = 15; h.moveCount = 1
m = P.EntryMove(); m.isFirst = 1; m.isLast = 1; m.move = 33
raw = bytes(h) + bytes(m)
class S(io.BytesIO):
    def read(self, n=-1): return super().read(min(n, 3) if n >= 0 else n)
if P.read_raw_entry(S(raw)) != raw: sys.exit("wrong bytes")
'''),
 dict(id="b10_pass_policy", property="P12", file="dataset/packed_binary.py",
  edits=[("""            current_result = Result.opposite(current_result)
            current_position.append(bestmove)
            current_ply += 1
            if not bestmove.is_pass:
""", """            if not bestmove.is_pass:
                current_result = Result.opposite(current_result)
            current_position.append(bestmove)
            current_ply += 1
            if not bestmove.is_pass:
""")],
  needs="a recorded game containing a pass before the sampled ply",
  breaks="the value target after a pass is the opponent's result",
  demo='''
import sys, os
sys.path.insert(0, os.getcwd())
from dataset import packed_binary as P
def group(m):
    g = P.MoveData(); g.moves.append(m); g.evals.append(None); return g
e = P.EntryData(3, P.Rule.FREESTYLE, P.Result.WIN, 3, 0, [])
e.moves = [group(P.Move.PASS), group(P.Move(1, 1)), group(P.Move(2, 2))]
d = P.PackedBinaryDataset([], {"freestyle"}, {(3, 3)}, has_pass_move=True)
v = [list(map(float, d._process_entry(e, i)["value_target"])) for i in range(3)]
if v != [[1, 0, 0], [0, 1, 0], [1, 0, 0]]: sys.exit("value targets %r" % v)
'''),
 dict(id="b11_uniform_limit", property="P01", file="dataset/core.py",
  edits=[("""        value = rng_u64(root_seed, domain, key, counter)
        counter += 1
        if value < limit:
            return value % n, counter


def _uniform_below_for_processed_sample_keys(
""", """        value = rng_u64(root_seed, domain, key, counter)
        counter += 1
        if value <= limit:
            return value % n, counter


def _uniform_below_for_processed_sample_keys(
""")],
  needs="a hash word that equals the rejection limit exactly",
  breaks="the draw is slightly biased: index 0 is produced by one hash word more than the others",
  demo='''
import sys, os
sys.path.insert(0, os.getcwd())
from dataset import core
n = 3
limit = (1 << 64) - ((1 << 64) % n)
words = iter([limit, 7])
core.rng_u64 = lambda *a: next(words)
v, used = core.uniform_below(n, 1, "d", ())
if (v, used) != (1, 2): sys.exit("accepted the biased word: %r" % ((v, used),))
'''),
]
