import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *
from symx import llvm

check = Check("P23", "line encoding", assumptions=[
    "the C++ sources are compiled to LLVM IR (clang -O1) against a stand-in pybind11 header; the IR is executed symbolically, replays use the real pybind11 extension built from the same sources",
    "line lengths 1..17 as stated per obligation; boards of the stated shapes with symbolic stones, others empty",
])
F = ["LineEncodingPipeline.process", "LineEncodingPipeline.process_batch", "get_encoding_usage_flags", "transform_lines_to_line_encoding", "line_encoding.cpp: every bound function, LineEncodingEncoder"]
DIRS = ((0, 1), (1, 0), (-1, 1), (1, 1))        # row, column, rising diagonal, falling diagonal: (dy, dx) of a step to the right of the window


def base_code(L, left, right):
    """The code of an empty window whose walls are left/right steps away (half the length: no wall)."""
    h = L // 2
    a, b = h - left, h - right              # cells beyond the left/right wall
    digits = [0] * (L + 1)                  # digits[i] is the coefficient of 3**i; 3**L is the wall marker
    if a == 0 and b == 0:
        return 0
    if b == 0:
        digits[L] = 2
        for i in range(1, a):
            digits[L - i] = 1
    else:
        digits[L] = 1
        for i in range(b):
            if i < a:
                digits[i] = 2
            elif i < b - 1:
                digits[i] = 1
        for i in range(a):
            if i < b - 1:
                digits[L - 1 - i] = 2
            elif i < a - 1:
                digits[L - 1 - i] = 1
    return sum(d * 3 ** i for i, d in enumerate(digits))


def window(L, inside, at):
    """Left and right wall distance and the digit terms; inside(k), at(k) for offsets -half..half."""
    h = L // 2
    left = next((k for k in range(h) if not inside(-k - 1)), h)
    right = next((k for k in range(h) if not inside(k + 1)), h)
    return left, right, [(at(k), 3 ** (L - 1 - (k + h))) for k in range(-left, right + 1)]


def code(L, inside, at, raw):
    left, right, terms = window(L, inside, at)
    h = L // 2
    if raw:
        tot = 0
        for k in range(-left, right + 1):
            v = at(k)                              # 0 empty, 1 self, 2 opponent
            two = ite(eq(v, 0), 3, v) if is_sym(v) else (v or 3)
            tot = tot + two * 4 ** (k + h)
        return tot
    tot = base_code(L, left, right)
    for v, w in terms:
        tot = tot + v * w
    return tot


def total(L):
    h = L // 2
    if L == 1:
        return 9                            # a single cell has three codes; the table also keeps room for walls it can never see
    return max(base_code(L, a, b) + sum(2 * 3 ** (L - 1 - (k + h)) for k in range(-a, b + 1)) for a in range(h + 1) for b in range(h + 1)) + 1


def module(c):
    llvm.extension(c, "line_encoding_cpp")
    return repo("dataset.pipeline.line_encoding")


def planes(c, cells, H, W):
    """cells: (y, x) -> 0, 1, 2 or a symbolic value among them."""
    v = [cells.get((y, x), 0) for y in range(H) for x in range(W)]
    p = [ite(eq(w, k), 1, 0) if is_sym(w) else int(w == k) for k in (1, 2) for w in v]
    return arr(c, p, np.int8).reshape(2, H, W)


def expect_board(c, got, cells, H, W, L, raw, message):
    g = elems(got)
    conds = []
    for d, (dy, dx) in enumerate(DIRS):
        for y in range(H):
            for x in range(W):
                ins = lambda k: 0 <= y + k * dy < H and 0 <= x + k * dx < W
                want = code(L, ins, lambda k: cells.get((y + k * dy, x + k * dx), 0), raw)
                conds.append(eq(g[(d * H + y) * W + x], want))
    c.check(sand(*conds), message, lambda: (cells, H, W, L))


def boards(name, shapes, lengths, nsym, raw, tiers=("quick", "thorough"), budget=300):
    @check.obligation(f"codes of a board: {name}", bounds=f"boards {shapes}, line lengths {lengths}, {nsym} symbolic cells (empty, own, opponent) on a row, column and both diagonals; {'raw' if raw else 'compact'} codes; the pipeline alone, in a batch of two, and the codes of each row as a line",
                      functions=F, covers=["end"], budget=budget, tiers=tiers)
    def ob(c):
        m = module(c)
        H, W = c.choose("shape", shapes)
        L = c.choose("length", lengths)
        where = c.choose("where", ["row", "column", "diagonal", "antidiagonal", "spread"])
        n = min(nsym, {"row": W, "column": H}.get(where, min(H, W)))
        step = lambda k, m_: (k * 7 + 3) % m_
        pos = {"row": lambda k: (H // 2, k), "column": lambda k: (k, W // 2), "diagonal": lambda k: (k, k), "antidiagonal": lambda k: (k, min(H, W) - 1 - k), "spread": lambda k: (step(k, H), step(k + 1, W))}[where]
        cells = {pos(k): c.int(f"v{k}", 0, 2) for k in range(n)}
        cells.setdefault((0, W - 1), 1), cells.setdefault((H - 1, 0), 2)
        b = planes(c, cells, H, W)
        p = m.LineEncodingPipeline(L, raw)
        data = {"board_input": b, "other": 3}
        out = p.process(data)
        c.check(out["other"] == 3 and set(data) == {"board_input", "other"}, "processing changes other fields")
        c.check(np.dtype(out["line_encoding"].dtype) == np.int32 and tuple(out["line_encoding"].shape) == (4, H, W), "wrong shape or type of the codes")
        c.check(out["line_encoding_total_num"] == (4 ** L if raw else total(L)), "wrong number of codes")
        expect_board(c, out["line_encoding"], cells, H, W, L, raw, "the code of a cell is not that of its window")
        two = arr(c, [1] + [0] * (2 * H * W - 1) + elems(b), np.int8).reshape(2, 2, H, W)
        got = p.process_batch({"board_input": two, "keep": 1})
        n_ = 4 * H * W
        c.check(got["keep"] == 1 and tuple(got["line_encoding"].shape) == (2, 4, H, W) and list(got["line_encoding_total_num"]) == [out["line_encoding_total_num"]] * 2, "wrong batch fields")
        g = elems(got["line_encoding"])
        c.check(sand(*[eq(x, y) for x, y in zip(g[n_:], elems(out["line_encoding"]))]), "a board encoded in a batch has other codes")
        expect_board(c, arr(c, g[:n_], np.int32), {(0, 0): 1}, H, W, L, raw, "the first board of a batch has other codes")
        if not raw:
            rows = arr(c, [cells.get((y, x), 0) for y in range(H) for x in range(W)], np.int8).reshape(H, W)
            if c.symbolic:
                f = sys.modules["line_encoding_cpp"].transform_lines_to_line_encoding
                lo = arr(c, [0] * (H * W), np.int32).reshape(H, W)
                f(rows, lo, L)
            else:
                lo = m.transform_lines_to_line_encoding(rows, L)
            c.check(sand(*[eq(x, y) for x, y in zip(elems(lo), elems(out["line_encoding"])[:H * W])]), "encoding the rows as lines differs from the row codes of the board")
        c.cover("end")


boards("short lines", [(1, 4), (3, 2)], [1, 3], 4, False)
boards("length 5", [(5, 4)], [5], 4, False)
boards("length 9", [(4, 6)], [9], 4, False)
boards("length 11", [(6, 7)], [11], 4, False)
boards("length 17", [(1, 9), (9, 2)], [17], 4, False)
boards("raw", [(3, 4), (6, 2)], [1, 5, 15], 4, True)
boards("length 11, more stones", [(8, 8), (7, 12)], [11], 6, False, tiers=("thorough",), budget=900)
boards("lengths 7, 13 and 15", [(5, 8), (12, 6)], [7, 13, 15], 6, False, tiers=("thorough",), budget=900)


@check.obligation("largest boards", bounds="32 - length // 2 cells wide or high, length 11; one symbolic stone in a corner", functions=F, covers=["end"], budget=300)
def largest(c):
    m = module(c)
    L, raw = 11, c.choose("raw", [False, True])
    H, W = c.choose("shape", [(27, 1), (2, 27)])
    at = c.choose("corner", [(0, 0), (H - 1, W - 1), (0, W - 1)])
    cells = {at: c.int("v", 0, 2)}
    out = m.LineEncodingPipeline(L, raw).process({"board_input": planes(c, cells, H, W)})
    expect_board(c, out["line_encoding"], cells, H, W, L, raw, "the code of a cell is not that of its window")
    c.cover("end")


@check.obligation("different windows have different codes below the total", bounds="every pair of wall distances and every content, lengths 1..7", functions=F, covers=["end"], budget=300)
def injective(c):
    unique(c, [1, 3, 5, 7])


@check.obligation("different windows have different codes below the total, long lines", bounds="every pair of wall distances and every content, length 9", functions=F, covers=["end"], budget=800, tiers=("thorough",))
def injective2(c):
    unique(c, [9])


def unique(c, lengths):
    """The code formula proved equal to the extension's above: two windows with equal codes have equal walls and contents."""
    m = module(c)
    L = c.choose("length", lengths)
    h = L // 2
    w = [(a, b) for a in range(h + 1) for b in range(h + 1)]
    i = c.choose("walls", list(range(len(w))))
    (a, b) = w[i]
    N = total(L)
    c.check(m.get_total_num_encoding(L) == N, "the total number of codes is wrong")
    v1 = {k: c.int(f"p{k + h}", 0, 2) for k in range(-a, b + 1)}
    c1 = base_code(L, a, b)
    for k, v in v1.items():
        c1 = c1 + v * 3 ** (L - 1 - (k + h))
    c.check(sand(c1 >= 0, c1 < N), "a code is outside its range")
    v2 = {k: c.int(f"q{k + h}", 0, 2) for k in range(-h, h + 1)}
    for j in range(i + 1):
        a2, b2 = w[j]
        c2 = base_code(L, a2, b2)
        for k in range(-a2, b2 + 1):
            c2 = c2 + v2[k] * 3 ** (L - 1 - (k + h))
        same_window = sand(*[eq(v1[k], v2[k]) for k in range(-a, b + 1)]) if i == j else False
        c.check(simplies(eq(c1, c2), same_window), "two different windows have the same code", lambda: (L, (a, b), (a2, b2)))
    c.cover("end")


@check.obligation("usage flags mark exactly the codes that occur", bounds="lengths 1, 3, 5 and 7; every code index", functions=F, covers=["end"], budget=300)
def usage(c):
    m = module(c)
    L = c.choose("length", [1, 3, 5, 7])
    h = L // 2
    flags = m.get_encoding_usage_flags(L)
    N = total(L)
    c.check(len(flags) == N and flags.dtype == np.int8, "the usage flags do not cover every code")
    used = set()
    for a in range(h + 1):
        for b in range(h + 1):
            reach = {base_code(L, a, b)}
            for k in range(-a, b + 1):
                reach = {r + d * 3 ** (L - 1 - (k + h)) for r in reach for d in (0, 1, 2)}
            used |= reach
    c.check(set(np.nonzero(flags)[0].tolist()) == used and set(flags.tolist()) <= {0, 1}, "the usage flags differ from the codes that occur")
    c.cover("end")


@check.obligation("refuses what it cannot encode", bounds="even, zero, negative and too long lines; boards too large for the length; wrong channels, shapes, types, order; every int8 line value", functions=F, covers=["end", "fits"])
def refuse(c):
    m = module(c)
    x = sys.modules["line_encoding_cpp"]
    B, O = (lambda h, w, ch=2: np.zeros((ch, h, w), np.int8)), (lambda h, w, dt=np.int32, ch=4: np.full((ch, h, w), 7, dt))
    one, many, lines = x.transform_board_to_line_encoding, x.transform_boards_to_line_encoding, x.transform_lines_to_line_encoding
    ro = O(3, 4)
    ro.flags.writeable = False
    cases = {"even": (one, B(3, 4), O(3, 4), 4), "zero": (one, B(3, 4), O(3, 4), 0), "negative": (one, B(3, 4), O(3, 4), -3), "long": (one, B(3, 4), O(3, 4), 19), "raw long": (one, B(3, 4), O(3, 4), 17, True),
             "tall": (one, B(28, 1), O(28, 1), 11), "wide": (one, B(1, 28), O(1, 28), 11), "wide raw": (one, B(1, 28), O(1, 28), 11, True), "channels": (one, B(3, 4, 3), O(3, 4), 3), "directions": (one, B(3, 4), O(3, 4, ch=3), 3),
             "type": (one, B(3, 4), O(3, 4, np.int64), 3), "order": (one, B(3, 4), np.asfortranarray(O(3, 4)), 3), "readonly": (one, B(3, 4), ro, 3), "shape": (one, B(3, 4), O(4, 3), 3),
             "many tall": (many, B(28, 1)[None], O(28, 1)[None], 11), "many wide": (many, B(1, 28)[None], O(1, 28)[None], 11), "many rows": (many, B(3, 4)[None], np.concatenate([O(3, 4)[None]] * 2), 3), "many channels": (many, B(3, 4, 3)[None], O(3, 4)[None], 3),
             "many even": (many, B(3, 4)[None], O(3, 4)[None], 2), "many type": (many, B(3, 4)[None], O(3, 4, np.uint32)[None], 3),
             "lines long": (lines, np.zeros((1, 28), np.int8), np.zeros((1, 28), np.int32), 11), "lines shape": (lines, np.zeros((2, 4), np.int8), np.zeros((1, 4), np.int32), 3), "lines even": (lines, np.zeros((1, 4), np.int8), np.zeros((1, 4), np.int32), 6)}
    what = c.choose("what", list(cases) + ["pipeline", "values", "total", "flags"])
    if what == "pipeline":
        L, raw = c.int("L", -3, 21), bool(c.bool("raw"))
        L = int(L)
        try:
            p = m.LineEncodingPipeline(L, raw)
        except ValueError:
            c.check(snot(L >= 1 and L % 2 == 1 and L <= (15 if raw else 17)), "a valid line length is refused")
            return
        c.check(L >= 1 and L % 2 == 1 and L <= (15 if raw else 17), "an invalid line length is accepted")
        c.check(p.signature_state() == {"line_length": L, "raw_code": raw}, "the signature does not identify the configuration")
        c.check(p.line_encoding_total_num == (4 ** L if raw else total(L)), "the number of codes is wrong")
        c.cover("fits")
    elif what == "values":
        v = int(c.choose("v", [-128, -1, 0, 1, 2, 3, 127]))
        f = lambda: m.transform_lines_to_line_encoding(np.array([[0, v, 1]], np.int8), 3)
        if not 0 <= v <= 2:
            expect_error(c, f, (ValueError,), "a line value outside 0..2 is accepted")
        c.cover("end")
    elif what == "total":
        expect_error(c, lambda: m.get_total_num_encoding(c.choose("L", [0, 2, 19, -1])), (ValueError,), "a bad line length has a number of codes")
    elif what == "flags":
        expect_error(c, lambda: x.get_encoding_usage_flag(np.zeros(total(3) + c.choose("d", [-1, 1]), np.int8), 3), (ValueError,), "usage flags of the wrong length are filled")
    else:
        f, *a = cases[what]
        keep = a[1].copy()
        expect_error(c, lambda: f(*a), (ValueError, TypeError, RuntimeError), f"accepted: {what}")
        c.check(bool((keep == a[1]).all()), "a refused output is written")
        c.cover("end")


if __name__ == "__main__":
    check.main()
