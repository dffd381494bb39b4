import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sample_common import *
from symx.symnp import _objarr

check = Check("P14", "sample post-processing", assumptions=[
    "boards up to 3x3 in planes up to 4x4 with arbitrary contents; 12 sparse feature channels; win/loss/draw plus 0..1 further value channels",
    "float targets are exact reals; the fallback digest is a free function of its exact input bytes",
])
SPARSE = [4, 5, 6, 7, 0, 1, 2, 3, 9, 8, 11, 10]
CORE = ["board_size", "board_input", "stm_input", "value_target", "policy_target"]


def sample(c, h, w, H=None, W=None, flat=False, sparse=False, position=None, vals=3, tag="", pol="real"):
    D = repo("utils.data_utils")
    H, W = H or h, W or w
    d = {
        "board_size": np.array([h, w], dtype=np.int8),
        "board_input": sym_vec(c, tag + "b", (2, H, W), np.int8, 0, 1),
        "stm_input": sym_vec(c, tag + "s", (1,), np.float32, -1, 1),
        "value_target": sym_vec(c, tag + "v", (vals,), np.float32, 0, 1),
        "policy_target": sym_vec(c, tag + "p", (H * W + 1,) if flat else (H, W), np.float32, 0, 1),
        "rule_index": np.int64(1),
        "ply": np.int64(7),
    }
    if sparse:
        # one distinct marker per channel plus a free plane
        d["sparse_feature_input"] = sym_vec(c, tag + "f", (12, H, W), np.int32, 0, 99) if sparse == "sym" else np.arange(12 * H * W, dtype=np.int32).reshape(12, H, W)
    if position is not None:
        d["position"] = position
    return d


def rows(a):
    """(planes..., H, W) -> list of grids"""
    r = a.reshape(-1, *a.shape[-2:])
    return [cells(r[i]) for i in range(r.shape[0])]


def expected(c, d, fixed_side, size, sym):
    """The specified result as plain grids."""
    h, w = (int(v) for v in elems(d["board_size"]))
    board = rows(d["board_input"])
    value = elems(d["value_target"])
    sparse = rows(d["sparse_feature_input"]) if "sparse_feature_input" in d else None
    H, W = d["board_input"].shape[-2:]
    pol, last = (cells(d["policy_target"]), None) if d["policy_target"].ndim == 2 else (
        cells(d["policy_target"][:-1].reshape(H, W)), elems(d["policy_target"])[-1])
    if fixed_side and bool(elems(d["stm_input"])[0] > 0):
        board = board[::-1]
        value = [value[1], value[0]] + value[2:]
        sparse = [sparse[i] for i in SPARSE] if sparse else None
    if sym is not None:
        m = lambda g: board_move(sym, g, h, w)
        board, pol = [m(g) for g in board], m(pol)
        sparse = [m(g) for g in sparse] if sparse else None
    if size is not None:
        p = lambda g: padded(g, *size)
        board, pol = [p(g) for g in board], p(pol)
        sparse = [p(g) for g in sparse] if sparse else None
    return board, value, pol, last, sparse


def compare(c, out, want, what):
    board, value, pol, last, sparse = want
    got = rows(out["board_input"])
    c.check(len(got) == len(board) and sand(*[grid_eq(a, b) for a, b in zip(got, board)]), f"{what}: board planes")
    c.check(len(elems(out["value_target"])) == len(value) and sand(*[eq(a, b) for a, b in zip(elems(out["value_target"]), value)]), f"{what}: value target")
    p = out["policy_target"]
    if last is None:
        c.check(p.ndim == 2 and grid_eq(cells(p), pol), f"{what}: policy target")
    else:
        e = elems(p)
        flat = [v for r in pol for v in r]
        c.check(p.ndim == 1 and len(e) == len(flat) + 1 and sand(eq(e[-1], last), *[eq(a, b) for a, b in zip(e, flat)]), f"{what}: policy target with pass")
    if sparse is not None:
        g = rows(out["sparse_feature_input"])
        c.check(len(g) == len(sparse) and sand(*[grid_eq(a, b) for a, b in zip(g, sparse)]), f"{what}: sparse planes")


def snap(d):
    return {k: (v.copy() if hasattr(v, "copy") else v) for k, v in d.items()}


for _flat, _sparse, _pad in ((False, False, None), (True, False, None), (False, True, None), (True, True, "pad"), (False, True, "pad")):
    @check.obligation(f"side and symmetry reach every field alike: flat policy={_flat}, sparse={_sparse}, pre-padded={bool(_pad)}",
                      bounds="boards 1..3 x 1..3, every symmetry set and choice, both sides, fixed side on/off, arbitrary contents", covers=["done", "flip", "rect", "sym"], budget=300,
                      functions=["SamplePostProcessor.process_sample"], flat_=_flat, sparse_=_sparse, pad_=_pad)
    def ob(c, flat_, sparse_, pad_):
        D = repo("utils.data_utils")
        h, w = c.choose("hw", [(3, 3), (2, 2), (2, 3), (3, 1), (1, 1)])
        H, W = (h + 1, w + int(c.int("pw", 0, 1))) if pad_ else (h, w)
        kind = c.choose("kind", [False, True, "default", "rotate", "flip", "flip_diag_rotate180"])
        fs = bool(c.bool("fs"))
        d = sample(c, h, w, H, W, flat_, sparse_)
        keep = snap(d)
        opts = names_for(kind, h, w) if kind else None
        idx = int(c.int("idx", 0, len(opts) - 1)) if opts else 0
        try:
            out = D.post_process_data(d, fixed_side_input=fs, symmetry_type=kind, symmetry_index=idx if kind else None)
        except ValueError:
            c.check(bool(kind) and opts is None, "a valid sample was refused")
            return
        c.check(not kind or opts is not None, "a shape-changing symmetry was applied")
        compare(c, out, expected(c, keep, fs, None, opts[idx] if kind else None), "post-processed")
        c.check(same(d, keep) and set(d) == set(keep), "the stored sample was modified in place")
        for k in ("rule_index", "ply", "board_size", "stm_input"):
            c.check(same(out[k], keep[k]), f"{k} must not change")
        c.cover("done")
        if fs:
            c.cover("flip")
        if kind:
            c.cover("sym")
        if h != w:
            c.cover("rect")


@check.obligation("fixed planes pad right and bottom with zeros", bounds="boards 1..3 x 1..3 in fixed sizes up to 4x4, flat or square policy, sparse planes, any symmetry", covers=["done"], budget=300,
                  functions=["SamplePostProcessor.process_sample"])
def ob(c):
    D = repo("utils.data_utils")
    h, w = c.choose("hw", [(3, 3), (2, 3), (1, 2)])
    H, W = c.choose("HW", [(3, 3), (4, 4), (3, 4)])
    flat, sparse, fs = bool(c.bool("flat")), bool(c.bool("sparse")), bool(c.bool("fs"))
    kind = c.choose("kind", [False, True])
    opts = names_for(True, h, w)
    idx = int(c.int("idx", 0, len(opts) - 1)) if kind else 0
    d = sample(c, h, w, None, None, flat, sparse)
    out = D.post_process_data(d, fixed_side_input=fs, fixed_board_size=(H, W), symmetry_type=kind, symmetry_index=idx if kind else None)
    compare(c, out, expected(c, d, fs, (H, W), opts[idx] if kind else None), "padded")
    c.check(same(out["board_size"], d["board_size"]), "the true board size must survive padding")
    c.cover("done")


@check.obligation("planes too small or too large for the fixed size are refused", bounds="boards 1..3 in fixed sizes 1..3", covers=["bad", "ok"], functions=["SamplePostProcessor.process_sample"])
def ob(c):
    D = repo("utils.data_utils")
    h, w, H, W = (int(c.int(k, 1, 3)) for k in ("h", "w", "H", "W"))
    d = sample(c, h, w)
    try:
        out = D.post_process_data(d, fixed_board_size=(H, W))
    except (ValueError, RuntimeError):
        c.check(h > H or w > W, "a fitting board was refused")
        c.cover("bad")
        return
    c.check(h <= H and w <= W and out["board_input"].shape == (2, H, W), "a board larger than the plane was accepted")
    c.cover("ok")


@check.obligation("the recorded move list follows the board", bounds="boards 2x2, 3x3 and 2x3, <= 3 moves with passes, every symmetry, fixed planes, extras kept or dropped", covers=["done", "dropped", "pass"],
                  functions=["SamplePostProcessor.process_sample", "Move.__str__"])
def ob(c):
    D = repo("utils.data_utils")
    h, w = c.choose("hw", [(3, 3), (2, 3)])
    n = int(c.int("n", 0, 3))
    pos, pts = [], []
    for i in range(n):
        if bool(c.bool(f"p{i}")):
            pos.append(D.Move.PASS)
            pts.append(None)
            c.cover("pass")
        else:
            x, y = c.int(f"x{i}", 0, w - 1), c.int(f"y{i}", 0, h - 1)
            pos.append(D.Move(x, y))
            pts.append((x, y))
    kind = c.choose("kind", [False, True])
    opts = names_for(True, h, w)
    idx = int(c.int("idx", 0, len(opts) - 1)) if kind else 0
    drop = bool(c.bool("drop"))
    size = c.choose("size", [None, (4, 4)])
    d = sample(c, h, w, position=list(pos))
    repo("dataset.core")
    with move_strings(c) as moves_of:
        out = D.post_process_data(d, fixed_board_size=size, symmetry_type=kind, symmetry_index=idx if kind else None, drop_extra=drop)
        if drop:
            c.check(sorted(out) == sorted(CORE), "drop_extra keeps exactly the core fields", detail=lambda: sorted(out))
            c.cover("dropped")
            return
        want = [None if p is None else (MAPS[opts[idx]](p[0], p[1], w, h) if kind else p) for p in pts]
        got = moves_of(out["position_string"])
        ok = len(got) == len(want)
        c.check(ok and sand(*[(a is None) == (b is None) and (a is None or sand(eq(a[0], b[0]), eq(a[1], b[1]))) for a, b in zip(got, want)]), "move list differs from the transformed game")
        lm = elems(out["last_move"])
        e = (-1, -1) if not want or want[-1] is None else want[-1]
        c.check(sand(eq(lm[0], e[0]), eq(lm[1], e[1])), "last move")
        c.check("position" not in out, "raw position must not reach the batch")
    c.check(len(d["position"]) == n and all(a is b for a, b in zip(d["position"], pos)), "the recorded game was modified")
    c.cover("done")


@check.obligation("a batch is post-processed row by row", bounds="1..3 rows, boards 2x2/2x3 (also padded), flat or square policy, every symmetry index, both sides", covers=["done", "noop"], budget=300,
                  functions=["SamplePostProcessor.process_batch"])
def ob(c):
    D = repo("utils.data_utils")
    n = int(c.int("n", 1, 2))
    h, w = c.choose("hw", [(2, 2), (2, 3)])
    H, W = c.choose("HW", [(h, w), (3, 4)])
    flat, fs = bool(c.bool("flat")), bool(c.bool("fs"))
    kind = c.choose("kind", [False, True])
    opts = names_for(True, h, w)
    ds = [sample(c, h, w, H, W, flat, False, tag=f"r{i}") for i in range(n)]
    idx = [int(c.int(f"idx{i}", 0, len(opts) - 1)) for i in range(n)] if kind else None
    batch = {k: np.stack([d[k] for d in ds]) for k in CORE + ["ply"]}
    batch["sparse_feature_dim"] = np.stack([np.array([3, 4], dtype=np.int64)] * n)
    keep = snap(batch)
    out = D.post_process_batch(batch, fixed_side_input=fs, symmetry_type=kind, symmetry_indices=idx)
    for i, d in enumerate(ds):
        row = {k: out[k][i] for k in CORE}
        compare(c, row, expected(c, d, fs, None, opts[idx[i]] if kind else None), f"row {i}")
        c.check(same(row["stm_input"], d["stm_input"]), "stm_input")
    c.check(same(out["ply"], keep["ply"]) and same(out["sparse_feature_dim"], keep["sparse_feature_dim"]), "extra fields")
    c.check(same({k: batch[k] for k in keep}, keep), "the input batch was modified in place")
    if kind:
        expect_error(c, lambda: D.post_process_batch(batch, symmetry_type=kind, symmetry_indices=idx + [0]), (ValueError,), "a wrong number of symmetry choices was accepted")
    if not kind and not fs:
        c.cover("noop")
    c.cover("done")


@check.obligation("without an index the symmetry depends on the sample's content alone", bounds="2x2 boards, any contents of two samples, every draw", covers=["done", "same", "diff"], functions=["SamplePostProcessor.process_sample"])
def ob(c):
    D, C = repo("utils.data_utils"), repo("dataset.core")
    draws = []

    def ub(n, seed, domain, key, counter=0):
        for k, v in draws:
            if bool(same(k, (n, seed, domain, key))):
                return v, 1
        v = int(c.int(f"draw{len(draws)}", 0, n - 1))
        draws.append(((n, seed, domain, key), v))
        return v, 1
    a = sample(c, 2, 2, tag="a")
    b = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in a.items()}
    change = c.choose("change", [None, "board_input", "policy_target", "value_target", "stm_input", "ply"])
    if change in ("board_input", "policy_target", "value_target", "stm_input"):
        e = elems(b[change])
        e[-1] = c.int("new", 0, 1) if change == "board_input" else c.real("new", 0, 1)
        c.assume(e[-1] != elems(a[change])[-1])
        b[change] = arr(c, e, a[change].dtype, a[change].shape)
    elif change == "ply":
        b["ply"] = np.int64(8)
    with patched(C, "uniform_below", ub), hash_mode("inj"):
        x = D.post_process_data(a, symmetry_type=True)
        n1 = len(draws)
        y = D.post_process_data(b, symmetry_type=True)
    c.check(n1 == 1 and draws[0][0][0] == 8, "the choice must range over the available symmetries")
    compare(c, x, expected(c, a, False, None, KINDS["default"][draws[0][1]]), "first")
    if change in (None, "ply"):
        c.check(len(draws) == 1, "equal samples draw different symmetries")
        compare(c, y, expected(c, b, False, None, KINDS["default"][draws[0][1]]), "second")
        c.cover("same")
    else:
        if change == "board_input":          # (real-valued fields may round to the same bytes)
            c.check(len(draws) == 2, "samples with different stones share one draw")
        compare(c, y, expected(c, b, False, None, KINDS["default"][draws[-1][1]]), "second")
        c.cover("diff")
    c.cover("done")


@check.obligation("malformed samples are refused", bounds="each field missing, misplaced, mis-shaped or undeclared", covers=["done", "ok"], functions=["validate_field_dict", "process_sample"])
def ob(c):
    D = repo("utils.data_utils")
    d = sample(c, 2, 3)
    bad = c.choose("bad", ["none", "unknown", "float_board", "int_value", "small", "policy", "policy1", "size3", "flat_board", "scalar_value"] + ["no_" + k for k in CORE])
    if bad == "unknown":
        d["mystery"] = np.zeros(2)
    elif bad == "float_board":
        d["board_input"] = np.zeros((2, 2, 3), dtype=np.float32)
    elif bad == "int_value":
        d["value_target"] = np.zeros(3, dtype=np.int64)
    elif bad == "small":
        d["board_input"] = np.zeros((2, 2, 2), dtype=np.int8)
    elif bad == "policy":
        d["policy_target"] = np.zeros((3, 2), dtype=np.float32)
    elif bad == "policy1":
        d["policy_target"] = np.zeros((6,), dtype=np.float32)
    elif bad == "size3":
        d["board_size"] = np.array([2, 3, 1], dtype=np.int8)
    elif bad == "flat_board":
        d["board_input"] = np.zeros((6,), dtype=np.int8)
    elif bad == "scalar_value":
        d["value_target"] = np.float32(0.5)
    elif bad.startswith("no_"):
        del d[bad[3:]]
    try:
        D.post_process_data(d, symmetry_type=True, symmetry_index=0)
    except (ValueError, TypeError, KeyError):
        c.check(bad != "none", "a well-formed sample was refused")
        c.cover("done")
        return
    c.check(bad == "none", "a malformed sample was accepted", detail=lambda: bad)
    c.cover("ok")


if __name__ == "__main__":
    check.main()
