import os, sys, types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sample_common import *
from symx.symnp import _objarr

check = Check("P15", "NPZ row decoding", assumptions=[
    "boards up to 3x3, up to 3 files of up to 3 rows with arbitrary contents, batches of up to 4 references in any order with repeats",
    "float targets are exact reals; the symmetry draw is a free function of (n, seed, domain, epoch, row key) - its uniformity is P01",
])
FORMATS = {"flat": dict(flat=True), "square": dict(flat=False), "nopt": dict(pt=False, flat=False), "nogf": dict(flat=True, gf=False), "ints": dict(flat=False, ints=True)}


def make(c, files, rows, h, w, fmt, sizes=None):
    """{path: arrays} with arbitrary contents"""
    f = FORMATS[fmt]
    out = {}
    for i in range(files):
        n = rows
        hh, ww = sizes[i] if sizes else (h, w)
        a = {"bf": sym_vec(c, f"bf{i}", (n, 2, hh, ww), np.uint8 if f.get("ints") else np.int8, 0, 1)}
        if f.get("gf", True):
            a["gf"] = sym_vec(c, f"gf{i}", (n, 1), np.float32, -1, 1)
        a["vt"] = sym_vec(c, f"vt{i}", (n, 3), np.float32, 0, 1)
        if f.get("pt", True):
            shape = (n, hh * ww + 1) if f["flat"] else (n, hh, ww)
            a["pt"] = sym_vec(c, f"pt{i}", shape, np.int8, 0, 100) if f.get("ints") else sym_vec(c, f"pt{i}", shape, np.float32, 0, 1)
        out[f"/data/f{i}.npz"] = a
    return out


class Draws:
    """Free choice per (n, seed, domain, epoch, key)."""

    def __init__(self, c, later=None):
        self.c, self.tab, self.later = c, {}, later

    def one(self, n, seed, domain, epoch, key, occurrence=0):
        k = (n, seed, domain, epoch, key, occurrence)
        if k not in self.tab:
            i = len(self.tab)
            self.tab[k] = int(self.c.int(f"draw{i}", 0, n - 1)) if not i or self.later is None else self.c.choose(f"draw{i}", [v for v in self.later if v < n])
        return self.tab[k]

    def keys(self, n, seed, domain, epoch, keys, occurrence=0):
        return [self.one(n, seed, domain, epoch, k, occurrence) for k in keys]

    def packed(self, n, seed, domain, epoch, digests, file_indices, rows, occurrence=0):
        return np.array([self.one(n, seed, domain, epoch, ("root", digests[int(f)], "npz-row", (int(r),)), occurrence)
                         for f, r in zip(elems(file_indices), elems(rows))], dtype=np.uint64)


def decoder(c, data, **kw):
    M = repo("dataset.decoder")
    core = repo("dataset.core")
    sizes = {tuple(int(v) for v in a["bf"].shape[-2:]) for a in data.values()}
    d = M.ProcessedNpzDecoder(boardsizes=sizes, runtime_context=core.DatasetRuntimeContext(4, 4, 1, 0, 77, "train"), **kw)
    d._load_uncached = lambda path: data[path]
    d.set_epoch(5)
    return d


@contextlib.contextmanager
def draws(c, later=None):
    M = repo("dataset.decoder")
    t = Draws(c, later)
    with patched(M, "_uniform_below_for_processed_sample_keys_v2", t.keys), patched(M, "_uniform_below_for_packed_processed_rows_v2", t.packed):
        yield t


def digest(path):
    return ("digest-" + path).encode()


def ref(path, row, size):
    S = repo("dataset.npz_source")
    return S._DenseDecodeRef(path=path, address=(row,), board_size=size, sample_key=("root", digest(path), "npz-row", (row,)))


def request(picks, paths, size):
    S = repo("dataset.npz_source")
    fi = np.array([paths.index(p) for p, _ in picks], dtype=np.int64)
    rw = np.array([r for _, r in picks], dtype=np.int64)
    dg = tuple(digest(p) for p in paths)
    return S._PackedDenseDecodeBatch(paths=tuple(paths), content_digests=dg, file_indices=fi, rows=rw, board_size=size,
                                     sample_keys=S._PackedDenseSampleKeys(dg, fi, rw))


def spec(c, data, t, path, row, has_pass, side, kind):
    """What the sample of one stored row must contain."""
    a = data[path]
    h, w = (int(v) for v in a["bf"].shape[-2:])
    board = [cells(a["bf"][row, ch]) for ch in range(2)]
    stm = elems(a["gf"][row]) if "gf" in a else [0]
    value = elems(a["vt"][row])
    last = None
    if "pt" not in a:
        pol = [[0] * w for _ in range(h)]
        last = 0 if has_pass else None
    elif a["pt"].ndim == 2:
        e = elems(a["pt"][row])
        pol = [e[y * w:(y + 1) * w] for y in range(h)]
        last = e[-1] if has_pass else None
    else:
        pol = cells(a["pt"][row])
    if side and bool(stm[0] > 0):
        board, value = board[::-1], [value[1], value[0], value[2]]
    if kind:
        names = names_for(kind, h, w)
        name = names[t.one(len(names), 77, "symmetry", 5, ("root", digest(path), "npz-row", (row,)))]
        board, pol = [moved_grid(name, g) for g in board], moved_grid(name, pol)
    return dict(hw=(h, w), board=board, stm=stm, value=value, pol=pol, last=last)


def same_sample(c, got, s, what, dtypes=True):
    h, w = s["hw"]
    c.check(eq(elems(got["board_size"])[0], h) and eq(elems(got["board_size"])[1], w), f"{what}: board size")
    b = got["board_input"]
    c.check(tuple(b.shape) == (2, h, w) and sand(*[grid_eq(cells(b[i]), s["board"][i]) for i in range(2)]), f"{what}: board")
    c.check(sand(*[eq(p, q) for p, q in zip(elems(got["stm_input"]), s["stm"])]), f"{what}: side input")
    c.check(len(elems(got["value_target"])) == 3 and sand(*[eq(p, q) for p, q in zip(elems(got["value_target"]), s["value"])]), f"{what}: value target")
    p = got["policy_target"]
    if s["last"] is None:
        c.check(tuple(p.shape) == (h, w) and grid_eq(cells(p), s["pol"]), f"{what}: policy")
    else:
        want = [v for r in s["pol"] for v in r] + [s["last"]]
        c.check(tuple(p.shape) == (h * w + 1,) and sand(*[eq(x, y) for x, y in zip(elems(p), want)]), f"{what}: policy with pass")
    if dtypes:
        for k, dt in (("board_size", np.int8), ("board_input", np.int8), ("stm_input", np.float32), ("value_target", np.float32), ("policy_target", np.float32)):
            c.check(np.dtype(got[k].dtype) == np.dtype(dt), f"{what}: {k} has dtype {got[k].dtype}")


def row_of(batch, i):
    return {k: v[i] for k, v in batch.items()}


def frozen(data):
    return {p: {k: v.copy() for k, v in a.items()} for p, a in data.items()}


def unchanged(c, data, keep):
    c.check(sand(*[same(data[p], keep[p]) for p in data]), "the cached file arrays were modified")


COMBOS = [((2, 2), False), ((2, 2), True), ((2, 3), True), ((2, 3), False), ((1, 1), "rotate"), ((2, 2), "flip"), ((1, 2), "flip"), ((2, 2), "flip_diag_rotate180"), ((1, 2), "rotate")]
for _full in (False, True):
  for _fmt in FORMATS:
    for _via in ("one", "batch", "packed"):
        @check.obligation(f"{_via}: a decoded row is the stored row ({_fmt}{', every draw pair' if _full else ''})",
                          bounds="1 file, 3 rows, boards 1x1..3x3 and 2x3, row lists of up to 2, both sides, every symmetry set, pass move on/off; " + ("every pair of draws" if _full else "every draw of the first row, draws 0, 1, 4 of the second"),
                          covers=["done", "side", "sym", "rect"], budget=800 if _full else 400, tiers=("thorough",) if _full else ("quick", "thorough"),
                          functions=["ProcessedNpzDecoder.decode_one", "ProcessedNpzDecoder.decode_batch", "ProcessedNpzDecoder.decode_packed_batch", "ProcessedNpzDecoder._post_process_vectorized"],
                          fmt_=_fmt, via_=_via, full_=_full)
        def ob(c, fmt_, via_, full_):
            (h, w), kind = c.choose("combo", COMBOS + ([((3, 3), True)] if via_ == "one" or full_ else []))
            has_pass = bool(c.bool("pass")) if FORMATS[fmt_]["flat"] or not FORMATS[fmt_].get("pt", True) else False
            side = bool(c.bool("side")) if full_ or not (kind and has_pass) else True
            data = make(c, 1, 3, h, w, fmt_)
            path = next(iter(data))
            keep = frozen(data)
            d = decoder(c, data, fixed_side_input=side, has_pass_move=has_pass, apply_symmetry=kind)
            rows = [int(c.int("r0", 0, 2))] if via_ == "one" else c.choose("rows", [(0, 1), (2, 0)] + ([(1, 1), (2, 1), (1, 2)] if full_ or not kind else []))
            refs = tuple(ref(path, r, (h, w)) for r in rows)
            with draws(c, None if full_ else (0, 1, 4)) as t:
                try:
                    if via_ == "one":
                        got = [d.decode_one(refs[0])]
                    elif via_ == "batch":
                        b = d.decode_batch(refs)
                        got = [row_of(b, i) for i in range(2)]
                    else:
                        b = d.decode_packed_batch(request([(path, r) for r in rows], [path], (h, w)))
                        got = [row_of(b, i) for i in range(2)]
                except ValueError:
                    c.check(bool(kind) and names_for(kind, h, w) is None, "a valid row was refused")
                    return
                c.check(not kind or names_for(kind, h, w) is not None, "a shape-changing symmetry was applied")
                for i, r in enumerate(rows):
                    same_sample(c, got[i], spec(c, data, t, path, r, has_pass, side, kind), f"row {r}")
            unchanged(c, data, keep)
            c.cover("done")
            if side:
                c.cover("side")
            if kind:
                c.cover("sym")
            if h != w:
                c.cover("rect")


PICKS = [((0, 0), (1, 1), (0, 1), (2, 0)), ((2, 1), (0, 0), (2, 0), (0, 0)), ((1, 0), (1, 1), (1, 0), (0, 1)), ((2, 1), (1, 1), (0, 1), (0, 0)), ((0, 1), (0, 0), (0, 1), (0, 1)), ((1, 1), (1, 0), (2, 0), (2, 1))]
for _full in (False, True):
  for _via in ("batch", "packed", "chunks"):
    for _kind in (False, True):
        @check.obligation(f"{_via}: batches over several files keep every row in place (symmetry={_kind}{', every reference list' if _full else ''})",
                          bounds="3 files of 2 rows, " + ("any 3 references with repeats" if _full else "six lists of 4 references, repeated and interleaved files"),
                          covers=["done", "mixed"], budget=800 if _full else 400, tiers=("thorough",) if _full else ("quick", "thorough"),
                          functions=["ProcessedNpzDecoder._decode_grouped_batch", "ProcessedNpzDecoder._decode_loaded_batch", "ProcessedNpzDecoder.decode_batches", "ProcessedNpzDecoder.decode_packed_batch"],
                          via_=_via, kind_=_kind, full_=_full)
        def ob(c, via_, kind_, full_):
            fmt = c.choose("fmt", ["flat", "nopt"]) if not kind_ else "flat"
            h, w = (1, 2) if kind_ else (2, 2)
            data = make(c, 3, 2, h, w, fmt)
            paths = list(data)
            keep = frozen(data)
            side = bool(c.bool("side")) if not kind_ else False
            d = decoder(c, data, fixed_side_input=side, apply_symmetry=kind_)
            if full_:
                picks = [(paths[int(c.int(f"f{i}", 0, 2))], int(c.int(f"r{i}", 0, 1))) for i in range(3)]
            else:
                picks = [(paths[f], r) for f, r in c.choose("picks", PICKS)]
            n = len(picks)
            refs = tuple(ref(p, r, (h, w)) for p, r in picks)
            with draws(c, None if full_ else (0, 1, 2)) as t:
                if via_ == "batch":
                    b = d.decode_batch(refs)
                    got = [row_of(b, i) for i in range(n)]
                elif via_ == "packed":
                    b = d.decode_packed_batch(request(picks, paths, (h, w)))
                    got = [row_of(b, i) for i in range(n)]
                else:
                    k = int(c.int("cut", 1, n - 1))
                    bs = d.decode_batches([refs[:k], refs[k:]])
                    c.check(len(bs) == 2 and len(bs[0]["board_input"]) == k and len(bs[1]["board_input"]) == n - k, "batches of a chunk have other sizes")
                    got = [row_of(x, i) for x in bs for i in range(len(x["board_input"]))]
                for i, (p, r) in enumerate(picks):
                    same_sample(c, got[i], spec(c, data, t, p, r, False, side, kind_), f"position {i}")
            unchanged(c, data, keep)
            c.cover("done")
            if len({p for p, _ in picks}) > 1:
                c.cover("mixed")


@check.obligation("chunks of batches with different board shapes decode like single batches", bounds="two files of different shapes, batches in any order", covers=["mixed", "same"], budget=300,
                  functions=["ProcessedNpzDecoder.decode_batches"])
def ob(c):
    sizes = [(2, 2), (1, 2)]
    data = make(c, 2, 2, 0, 0, "flat", sizes)
    paths = list(data)
    d = decoder(c, data, fixed_side_input=bool(c.bool("side")), apply_symmetry=False)
    fs = [int(c.int(f"f{i}", 0, 1)) for i in range(3)]
    rs = [[int(c.int(f"r{i}", 0, 1)), 1] for i in range(3)]
    batches = [tuple(ref(paths[f], r, sizes[f]) for r in rr) for f, rr in zip(fs, rs)]
    with draws(c) as t:
        out = d.decode_batches(batches)
        c.check(len(out) == 3, "number of batches")
        for f, rr, b in zip(fs, rs, out):
            for i, r in enumerate(rr):
                same_sample(c, row_of(b, i), spec(c, data, t, paths[f], r, False, d.fixed_side_input, False), f"file {f} row {r}")
    c.cover("mixed" if len(set(fs)) > 1 else "same")


@check.obligation("packed rows sharing a draw table mix files of any count", bounds="boards 2x2, 3 rows over 3 files, every power-of-two and other choice count", covers=["pow2", "other"], budget=300,
                  functions=["ProcessedNpzDecoder._post_process_vectorized"])
def ob(c):
    kind = c.choose("kind", ["flip", "rotate", "flip_diag_rotate180", "default"])
    n = len(KINDS[kind])
    data = make(c, 3, 2, 1, 1, "flat")
    paths = list(data)
    d = decoder(c, data, apply_symmetry=kind)
    picks = [(paths[int(c.int(f"f{i}", 0, 2))], int(c.int(f"r{i}", 0, 1))) for i in range(2)]
    with draws(c, (0, 3)) as t:
        b = d.decode_packed_batch(request(picks, paths, (1, 1)))
        used = dict(t.tab)
        for p, r in picks:
            k = (n, 77, "symmetry", 5, ("root", digest(p), "npz-row", (r,)), 0)
            c.check(k in used, "the symmetry of a row is not drawn from its own key")
        c.check(len(used) == len(set(picks)), "draws for rows that were not asked for")
    c.cover("pow2" if n & (n - 1) == 0 else "other")


@check.obligation("fixed planes fall back to single rows and pad them", bounds="boards 1x2 and 2x2 in 3x3 planes, any side and symmetry", covers=["done"], budget=300,
                  functions=["ProcessedNpzDecoder.decode_one", "ProcessedNpzDecoder.decode_batch"])
def ob(c):
    h, w = c.choose("hw", [(2, 2), (1, 2)])
    flat = bool(c.bool("pass"))
    side, kind = bool(c.bool("side")), bool(c.bool("sym"))
    data = make(c, 1, 2, h, w, "flat")
    path = next(iter(data))
    keep = frozen(data)
    d = decoder(c, data, fixed_side_input=side, has_pass_move=flat, apply_symmetry=kind, fixed_board_size=(3, 3))
    r = int(c.int("r", 0, 1))
    with draws(c) as t:
        for call in (lambda: d.decode_batch((ref(path, r, (h, w)),)), lambda: d.decode_batches([(ref(path, r, (h, w)),)]), lambda: d.decode_packed_batch(request([(path, r)], [path], (h, w)))):
            c.check(call() is None, "a batch decoder ignored the fixed plane size")
        got = d.decode_one(ref(path, r, (h, w)))
        s = spec(c, data, t, path, r, flat, side, kind)
    c.check(elems(got["board_size"]) == [h, w], "the true board size must survive padding")
    c.check(tuple(got["board_input"].shape) == (2, 3, 3) and sand(*[grid_eq(cells(got["board_input"][i]), padded(s["board"][i], 3, 3)) for i in range(2)]), "padded board")
    want = [v for row in padded(s["pol"], 3, 3) for v in row] + ([s["last"]] if flat else [])
    c.check(sand(len(want) == len(elems(got["policy_target"])), *[eq(a, b) for a, b in zip(elems(got["policy_target"]), want)]), "padded policy")
    unchanged(c, data, keep)
    c.cover("done")


@check.obligation("rows outside the file, empty batches and misfitting policies are refused", bounds="rows -3..5 of 2-row files, policy widths 3..6 for 2x2 boards", covers=["row", "policy", "empty", "ok"],
                  functions=["ProcessedNpzDecoder.decode_one", "ProcessedNpzDecoder.decode_batch"])
def ob(c):
    case = c.choose("case", ["row", "policy", "empty", "layout"])
    data = make(c, 2, 2, 2, 2, "flat")
    paths = list(data)
    if case == "row":
        d = decoder(c, data)
        r = c.int("r", -3, 5)
        try:
            d.decode_one(ref(paths[0], int(r), (2, 2)))
        except RuntimeError:
            c.check(sor(r < 0, r >= 2), "a stored row was refused")
            c.cover("row")
            return
        c.check(sand(r >= 0, r < 2), "a row outside the file was decoded")
        c.cover("ok")
    elif case == "policy":
        n = int(c.int("n", 3, 6))
        for a in data.values():
            a["pt"] = sym_vec(c, "q" + str(id(a)), (2, n), np.float32, 0, 1) if not c.symbolic else arr(c, [0] * (2 * n), np.float32, (2, n))
        for kind in (False, True):
            d = decoder(c, data, apply_symmetry=kind)
            with draws(c):
                for call in (lambda: d.decode_one(ref(paths[0], 0, (2, 2))), lambda: d.decode_batch((ref(paths[0], 0, (2, 2)), ref(paths[0], 1, (2, 2)))),
                             lambda: d.decode_packed_batch(request([(paths[0], 0)], paths, (2, 2))), lambda: d.decode_batch((ref(paths[0], 0, (2, 2)), ref(paths[1], 1, (2, 2))))):
                    try:
                        call()
                        ok = True
                    except ValueError:
                        ok = False
                    c.check(ok == (n == 5), "policy width vs. board size")
        c.cover("policy")
    elif case == "empty":
        d = decoder(c, data)
        for call in (lambda: d.decode_batch(()), lambda: d.decode_batches([]), lambda: d.decode_batches([(ref(paths[0], 0, (2, 2)),), ()]), lambda: d.decode_packed_batch(request([], paths, (2, 2)))):
            expect_error(c, call, (ValueError,), "an empty batch was decoded")
        c.cover("empty")
    else:
        data[paths[1]]["vt"] = data[paths[1]]["vt"][:, :2]
        d = decoder(c, data)
        refs = (ref(paths[0], 0, (2, 2)), ref(paths[1], 0, (2, 2)))
        expect_error(c, lambda: d.decode_batch(refs), (ValueError,), "files of different layouts were mixed in one batch")
        expect_error(c, lambda: d.decode_packed_batch(request([(paths[0], 0), (paths[1], 0)], paths, (2, 2))), (ValueError,), "files of different layouts were mixed in one batch")


# ---- loading: filters, channels, shapes -------------------------------------------------
class FakeNpz(dict):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def loader(c, arrays, **kw):
    M = repo("dataset.decoder")
    core = repo("dataset.core")
    kw.setdefault("boardsizes", {(2, 2)})
    d = M.ProcessedNpzDecoder(runtime_context=core.DatasetRuntimeContext(4, 4, 1, 0, 1, "train"), **kw)
    d._mmap_stored_arrays = lambda p: None
    np_ = M.np
    return d, patched(np_, "load", lambda *a, **k: FakeNpz(arrays))


def contents(c, n, cb=3, cg=3, cv=3):
    return {"bf": sym_vec(c, "bf", (n, cb, 2, 2), np.int8, 0, 1), "gf": sym_vec(c, "gf", (n, cg), np.float32, -1, 1),
            "vt": sym_vec(c, "vt", (n, cv), np.float32, 0, 1), "pt": sym_vec(c, "pt", (n, 5), np.float32, 0, 1)}


@check.obligation("filters keep exactly the rows they name, channels pick exactly their planes", bounds="3 rows, 3 board/global/value channels, filter_stm -1/0/1 and conditions over gf and vt", covers=["all", "some", "none"], budget=300,
                  functions=["ProcessedNpzDecoder._load_uncached", "evaluate_filter_condition"])
def ob(c):
    a = contents(c, 3)
    stm = c.choose("stm", [None, -1, 0, 1])
    cond = c.choose("cond", [None, "gf[:,1] > 0", "(vt[:,0] > vt[:,1]) | (gf[:,2] < 0)"])
    bch = c.choose("bch", [None, [2, 0]])
    gch = c.choose("gch", [None, 1])
    vch = c.choose("vch", [None, [1, 2, 0]])
    d, p = loader(c, a, filter_stm=stm, filter_condition=cond, board_input_channels=bch, stm_input_channel=gch, value_target_channels=vch)
    with p:
        out = d._load_uncached("/x.npz")
    keep = []
    for i in range(3):
        g, v = elems(a["gf"][i]), elems(a["vt"][i])
        k = stm is None or bool(g[0] == stm)
        if cond == "gf[:,1] > 0":
            k = k and bool(g[1] > 0)
        elif cond:
            k = k and bool(sor(v[0] > v[1], g[2] < 0))
        if k:
            keep.append(i)
    c.check(set(out) == {"bf", "gf", "vt", "pt"} and all(len(v) == len(keep) for v in out.values()), "number of kept rows")
    for j, i in enumerate(keep):
        c.check(same(out["bf"][j], a["bf"][i][bch] if bch else a["bf"][i]), "board channels of a kept row")
        c.check(same(out["gf"][j], a["gf"][i][[gch]] if gch is not None else a["gf"][i]), "side channel of a kept row")
        c.check(same(out["vt"][j], a["vt"][i][vch] if vch else a["vt"][i]), "value channels of a kept row")
        c.check(same(out["pt"][j], a["pt"][i]), "policy of a kept row")
    c.cover("all" if len(keep) == 3 else "none" if not keep else "some")


@check.obligation("files with missing, empty or uneven arrays are refused; other board sizes give no rows", bounds="each array present or missing, 0..2 rows each", covers=["ok", "bad", "othersize"], budget=300,
                  functions=["ProcessedNpzDecoder._load_uncached"])
def ob(c):
    n = {k: int(c.int("n" + k, 0 if k == "bf" else 1, 2)) for k in ("bf", "gf", "vt", "pt")}
    have = {k: bool(c.bool("have" + k)) for k in n}
    full = {"bf": (2, 2, 2), "gf": (1,), "vt": (3,), "pt": (5,)}
    a = {k: arr(c, [0] * (n[k] * int(np.prod(full[k]))), np.int8 if k == "bf" else np.float32, (n[k], *full[k])) for k in n if have[k]}
    other = bool(c.bool("other"))
    d, p = loader(c, a, boardsizes={(3, 3)} if other else {(2, 2), (3, 3)})
    valid = have["bf"] and have["vt"] and n["bf"] > 0 and all(n[k] == n["bf"] for k in a)
    with p:
        try:
            out = d._load_uncached("/x.npz")
        except ValueError:
            c.check(not valid, "a valid file was refused")
            c.cover("bad")
            return
    c.check(valid, "an invalid file was accepted")
    c.check(set(out) == set(a) and all(len(v) == (0 if other else n["bf"]) for v in out.values()), "rows of a file")
    c.check(all(v.shape[1:] == a[k].shape[1:] for k, v in out.items()), "row shapes")
    c.cover("othersize" if other else "ok")


# ---- stored archives: where the arrays lie -------------------------------------------------
class Info:
    def __init__(self, key, header_offset, file_size, stored):
        self.filename, self.header_offset, self.file_size = key + ".npy", header_offset, file_size
        self.compress_type = 0 if stored else 8


@check.obligation("a stored array is mapped at its own place in the archive", bounds="two members, any offsets, name/extra lengths, header lengths, shapes and sizes below 2**16", covers=["ok", "trunc", "magic", "fortran", "compressed"], budget=300,
                  functions=["ProcessedNpzDecoder._mmap_stored_arrays"])
def ob(c):
    M = repo("dataset.decoder")
    core = repo("dataset.core")
    keys = ["bf", "vt"]
    compressed = bool(c.bool("compressed"))
    lay = {}
    for i, k in enumerate(keys):
        lay[k] = dict(off=c.zint(f"off{k}", 0, 1 << 16), name=c.zint(f"name{k}", 0, 65535), extra=c.zint(f"extra{k}", 0, 65535), npy=c.zint(f"npy{k}", 10, 1 << 16),
                      rows=c.zint(f"rows{k}", 1, 1 << 16), size=c.zint(f"size{k}", 0, 1 << 30), magic=bool(c.bool(f"magic{k}")) if i == 0 else True,
                      fort=bool(c.bool(f"fort{k}")) if i == 0 else False, item=8 if k == "bf" else 4, short=bool(c.bool("short")) if i == 1 else False)
    if c.symbolic is False and not compressed:
        pass
    infos = {k: Info(k, lay[k]["off"], lay[k]["size"], not compressed or k != "vt") for k in keys}

    class Zip:
        def __init__(self, p):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def namelist(self):
            return [k + ".npy" for k in keys]

        def getinfo(self, n):
            return infos[n[:-4]]

        def open(self, info):
            return __import__("io").BytesIO(b"abc")

    class Hdr:
        """A record whose unpacked fields are the layout's (symbolic) lengths."""

    order = iter(keys)
    state = {"k": None, "pos": None}

    class F:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def seek(self, pos):
            state["pos"] = pos

        def tell(self):
            return state["pos"]

        def read(self, n):
            state["k"] = next(order)
            k = lay[state["k"]]
            c.check(eq(state["pos"], k["off"]), "the local header is read from elsewhere")
            state["pos"] = state["pos"] + n
            return b"" if k["short"] else b"\0" * n

    class St:
        def __init__(self, fmt):
            self.size = 30
            c.check(fmt == "<IHHHHHIIIHH", "local header format")

        def unpack(self, h):
            k = lay[state["k"]]
            return (0x04034B50 if k["magic"] else 1, 0, 0, 0, 0, 0, 0, 0, 0, k["name"], k["extra"])

    def magic(f):
        k = lay[state["k"]]
        c.check(eq(state["pos"], k["off"] + 30 + k["name"] + k["extra"]), "the array header is read from elsewhere")
        return (1, 0)

    def header(f):
        k = lay[state["k"]]
        state["pos"] = state["pos"] + k["npy"]
        return (k["rows"], 3), k["fort"], np.dtype(np.int64 if k["item"] == 8 else np.float32)

    got = {}

    def memmap(path, mode, dtype, offset, shape, order):
        got[state["k"]] = (path, mode, dtype, offset, shape, order)
        return "map-" + state["k"]
    fmt = M.np.lib.format
    M.open = lambda *a: F()
    d = M.ProcessedNpzDecoder(boardsizes={(2, 2)}, runtime_context=core.DatasetRuntimeContext(4, 4, 1, 0, 1, "train"))
    zf = types.SimpleNamespace(ZipFile=Zip, ZIP_STORED=0)
    try:
        with patched(M, "zipfile", zf), patched(M, "struct", types.SimpleNamespace(Struct=St)), patched(M, "np", NpStub(M.np, magic, header, memmap)):
            try:
                out = d._mmap_stored_arrays("/x.npz")
            except ValueError:
                bad = sor(*[sor(not l["magic"], l["short"], l["npy"] + l["rows"] * 3 * l["item"] > l["size"]) for l in lay.values()])
                c.check(bad, "an intact archive was refused")
                c.cover("trunc" if lay["bf"]["magic"] else "magic")
                return
    finally:
        del M.open
    if compressed:
        c.check(out is None, "a compressed array cannot be mapped")
        c.cover("compressed")
        return
    c.check(set(out) == set(keys) and all(out[k] == "map-" + k for k in keys), "arrays under their own names")
    for k in keys:
        l = lay[k]
        path, mode, dtype, offset, shape, order_ = got[k]
        start = l["off"] + 30 + l["name"] + l["extra"]
        c.check(sand(eq(offset, start + l["npy"]), eq(shape[0], l["rows"]), shape[1] == 3), "array mapped elsewhere or with another shape")
        c.check(path == "/x.npz" and mode == "r" and dtype.itemsize == l["item"] and order_ == ("F" if l["fort"] else "C"), "mapping options")
        c.check(sand(l["magic"], not l["short"], offset + l["rows"] * 3 * l["item"] <= start + l["size"]), "array data beyond its member was mapped")
        if l["fort"]:
            c.cover("fortran")
    c.cover("ok")


class NpStub:
    def __init__(self, np_, magic, header, memmap):
        self._np = np_
        self.memmap = memmap
        self.lib = types.SimpleNamespace(format=types.SimpleNamespace(read_magic=magic, read_array_header_1_0=header, read_array_header_2_0=header))

    def __getattr__(self, k):
        return getattr(self._np, k)


# ---- the generic row decoder -------------------------------------------------
@check.obligation("the row decoder prepares exactly the addressed row of the addressed file", bounds="2 files, any length and row, any history of 4 reads, symmetry on/off", covers=["ok", "range", "none", "sym"], budget=300,
                  functions=["NpzRowRecordDecoder.decode_one", "NpzRowRecordDecoder._load"])
def ob(c):
    M = repo("dataset.decoder")
    core = repo("dataset.core")
    sym = bool(c.bool("sym"))
    n = [int(c.int("n0", 0, 2)), 2]
    board = {f: [sym_vec(c, f"b{f}{r}", (2, 2, 2), np.int8, 0, 1) for r in range(n[f])] for f in range(2)}
    keep = {f: [b.copy() for b in board[f]] for f in range(2)}
    drop = int(c.int("drop", -1, 1))
    loads = []

    def load(path):
        f = int(path[-5])
        loads.append(f)
        return f, n[f]

    def prepare(data, i):
        if i == drop and data == 1:
            return None
        return {"board_size": np.array([2, 2], dtype=np.int8), "board_input": board[data][i], "stm_input": arr(c, [1], np.float32),
                "value_target": arr(c, [0, 0, 1], np.float32), "policy_target": arr(c, [10 * data + i, 0, 0, 0], np.float32, (2, 2))}

    d = M.NpzRowRecordDecoder("fmt", core.DatasetRuntimeContext(4, 4, 1, 0, 9, "train"), load, prepare, apply_symmetry=sym)
    d.set_epoch(3)
    t = {}

    def below(k, seed, domain, key):
        c.check((seed, domain, k) == (9, "symmetry", 8), "the symmetry draw of a row uses another key")
        if key not in t:
            t[key] = int(c.int(f"draw{len(t)}", 0, 7))
        return t[key], 0
    with patched(M, "uniform_below", below):
        for s in range(2 if sym else 4):
            f, r = int(c.int(f"f{s}", 0, 1)), int(c.int(f"r{s}", -1, 2)) if s < 2 else s - 2
            key = ("root", bytes([f]), "npz-row", (r,))
            try:
                out = d.decode_one(types.SimpleNamespace(path=f"/d/{f}.npz", address=(r,), sample_key=key))
            except RuntimeError:
                c.check(not 0 <= r < n[f] or (f == 1 and r == drop), "a stored row was refused")
                c.cover("range" if not 0 <= r < n[f] else "none")
                continue
            c.check(0 <= r < n[f] and not (f == 1 and r == drop), "a row outside the file was decoded")
            name = list(MAPS)[t[(3, key, 0)]] if sym else "IDENTITY"
            pol = [[10 * f + r, 0], [0, 0]]
            c.check(sand(*[grid_eq(cells(out["board_input"][i]), moved_grid(name, cells(keep[f][r][i]))) for i in range(2)]), "board of another row")
            c.check(grid_eq(cells(out["policy_target"]), moved_grid(name, pol)), "policy of another row")
            c.cover("sym" if sym else "ok")
    c.check(sand(*[same(board[f][r], keep[f][r]) for f in range(2) for r in range(n[f])]), "stored rows were modified")


if __name__ == "__main__":
    check.main()
