import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *
from symx import llvm

check = Check("P22", "forbidden points", assumptions=[
    "the C++ sources are compiled to LLVM IR (clang -O1) against a stand-in pybind11 header; the IR is executed symbolically, replays use the real pybind11 extension built from the same sources",
    "stones vary on the lines named in each bound; every other cell is empty or white as stated",
])
F = ["ForbiddenPointPipeline.process", "ForbiddenPointPipeline.process_batch", "transform_board_to_forbidden_point", "Board::isForbidden", "Board::isFive",
     "Board::isOverline", "Board::isFour", "Board::isOpenFour", "Board::isOpenThree", "Board::isDoubleFour", "Board::isDoubleThree"]
DIRS = ((0, 1), (1, 0), (1, 1), (1, -1))


class Renju:
    """The rule, stated on its own: a black move that does not make exactly five in a row is forbidden if it makes six or more in a row, two fours, or two threes."""

    def __init__(self, cell, H, W):
        self.cell, self.H, self.W = cell, H, W
        self.extra = set()
        self.memo = {}

    def at(self, p):
        y, x = p
        if not (0 <= y < self.H and 0 <= x < self.W):
            return "#"
        return "b" if p in self.extra else self.cell(y, x)

    def run(self, p, d):
        """The cells of the row of black stones through p if p were black."""
        out = [p]
        for s in (1, -1):
            q = (p[0] + s * d[0], p[1] + s * d[1])
            while self.at(q) == "b":
                out.append(q)
                q = (q[0] + s * d[0], q[1] + s * d[1])
        return out

    def row(self, p, d):
        return len(self.run(p, d))

    def wins(self, p):
        return any(self.row(p, d) == 5 for d in DIRS)

    def over(self, p):
        return any(self.row(p, d) > 5 for d in DIRS)

    def with_stone(self, p, f):
        self.extra.add(p)
        try:
            return f()
        finally:
            self.extra.discard(p)

    def line(self, p, d):
        for k in range(-4, 5):
            q = (p[0] + k * d[0], p[1] + k * d[1])
            if k and self.at(q) == ".":
                yield q

    def fives(self, p, d):
        """Empty cells which complete exactly five in this direction together with p (p already placed)."""
        out = []
        for q in self.line(p, d):
            r = self.run(q, d)
            if len(r) == 5 and p in r:
                out.append((q, r))
        return out

    def straight(self, p, d):
        """p already placed: a row of exactly four with both ends completing five."""
        r = self.run(p, d)
        return len(r) == 4 and len(self.fives(p, d)) == 2

    def fours(self, p, d):
        n = self.with_stone(p, lambda: 1 if self.straight(p, d) else len(self.fives(p, d)))
        return n

    def three(self, p, d):
        def go():
            for q in self.line(p, d):
                if p not in self.run(q, d) or self.wins(q) or not self.with_stone(q, lambda: self.straight(q, d)):
                    continue
                if not self.forbidden(q):
                    return True
            return False
        return self.with_stone(p, go)

    def forbidden(self, p):
        key = (p, frozenset(self.extra))
        if key not in self.memo:
            self.memo[key] = self.at(p) == "." and not self.wins(p) and (
                self.over(p) or sum(self.fours(p, d) for d in DIRS) >= 2 or sum(self.three(p, d) for d in DIRS) >= 2)
        return self.memo[key]


def module(c):
    llvm.extension(c, "forbidden_point_cpp")
    return repo("dataset.pipeline.forbidden_point")


def compare(c, grid, message, swap=None):
    """grid[y][x]: '.', 'w', 'b' or a symbolic truth value (black or empty)."""
    m = module(c)
    H, W = len(grid), len(grid[0])
    planes = [[1 if v == "b" else 0 if v in (".", "w") else ite(v, 1, 0) for r in grid for v in r], [1 if type(v) is str and v == "w" else 0 for r in grid for v in r]]
    stm = -1.0 if not swap else 1.0
    if swap:
        planes = planes[::-1]
    b = arr(c, planes[0] + planes[1], np.int8).reshape(2, H, W)
    data = {"board_input": b, "stm_input": np.array([stm], np.float32)}
    got = m.ForbiddenPointPipeline(False).process(data)["forbidden_point"]
    concrete = {(y, x): v if type(v) is str else ("b" if bool(v) else ".") for y, r in enumerate(grid) for x, v in enumerate(r)}
    R = Renju(lambda y, x: concrete[y, x], H, W)
    g = elems(got)
    for y in range(H):
        for x in range(W):
            want = R.forbidden((y, x))
            if want:
                c.cover("forbidden")
            c.check(eq(g[y * W + x], int(want)), message + (": a forbidden point is not flagged" if want else ": a legal point is flagged as forbidden"),
                    lambda: (["".join(concrete[j, i] for i in range(W)) for j in range(H)], (y, x)))


def put(n, d, vals):
    """A board with a line of cells in one direction; the rest is white."""
    if d == "h":
        return [list(vals)]
    if d == "v":
        return [[v] for v in vals]
    g = [["w"] * n for _ in range(n)]
    for i, v in enumerate(vals):
        g[i][i if d == "d" else n - 1 - i] = v
    return g


def strip(n, d, whites=(), tiers=("quick", "thorough"), part=None, parts=1):
    @check.obligation(f"one line, {dict(h='horizontal', v='vertical', d='diagonal', a='antidiagonal')[d]}, {n} cells, {whites and 'with white stones' or 'no white stone'}{f', part {part}' if parts > 1 else ''}",
                      bounds=f"every placement of black stones on a line of {n} cells{' with white stones at every choice of at most ' + str(whites) + ' cells' if whites else ''}; every cell judged",
                      functions=F, covers=["forbidden"] if n > 6 else [], budget=300, tiers=tiers, max_paths=20000)
    def ob(c):
        at = []
        if whites:
            at = [i for i in (int(c.int(f"white{k}", 0, n)) for k in range(whites)) if i < n]
            if whites == 2 and len(at) == 2:
                c.assume(at[0] < at[1])
        v = ["w" if i in at else c.bool(f"s{i}") for i in range(n)]
        if parts > 1:
            c.assume(eq(v[n // 2], bool(part & 1)))
            if parts > 2:
                c.assume(eq(v[n // 2 + 1], bool(part & 2)))
        compare(c, put(n, d, v), "line")


for k in range(4):
    strip(10, "h", part=k, parts=4)
strip(7, "v")
strip(7, "d")
strip(7, "a")
strip(7, "v", whites=1)
strip(8, "h", whites=1, tiers=("thorough",))
for k in range(4):
    strip(11, "v", part=k, parts=4, tiers=("thorough",))
strip(9, "v", whites=2, tiers=("thorough",))
strip(11, "d", tiers=("thorough",))
strip(11, "a", tiers=("thorough",))

SHAPES = {"none": "....*....", "three": "...b*b...", "broken three": "...b*.b..", "blocked three": "..wb*b...", "narrow three": "..w.*bb.w", "three short of six": ".b.b*b.b.",
          "four": ".bbb*.w..", "straight four": "..b.*bb..", "broken four": "bb.b*....", "twin four": "b.b.*b.b.", "five": "..bb*bb..", "six": ".bbb*bb..", "far": "bb..*..bb"}


def cross(name, d1, d2, few, wide, tiers=("quick", "thorough"), names=None):
    names = names or list(SHAPES)

    @check.obligation(f"two lines, {name}", bounds=f"a line in one of {len(names)} shapes crossing another with every placement of at most {few} black stones within {wide} of the crossing; directions {d1} and {d2}; the other cells white",
                      functions=F, covers=["forbidden"], budget=300, tiers=tiers, max_paths=20000)
    def ob(c):
        n = 9
        g = [["w"] * n for _ in range(n)]
        shape = SHAPES[c.choose("shape", names)]
        for k in range(-4, 5):
            g[4 + k * d1[0]][4 + k * d1[1]] = "." if shape[k + 4] == "*" else shape[k + 4]
        b = []
        for k in range(-wide, wide + 1):
            if k:
                b.append(c.bool(f"s{k}"))
                g[4 + k * d2[0]][4 + k * d2[1]] = b[-1]
        if wide < 4:
            for k in (-wide - 1, wide + 1):
                g[4 + k * d2[0]][4 + k * d2[1]] = "."
        tot = 0
        for x in b:
            tot = tot + ite(x, 1, 0)
        c.assume(tot <= few)
        compare(c, g, "two lines")


for i, part in enumerate((list(SHAPES)[:5], list(SHAPES)[5:9], list(SHAPES)[9:])):
    cross(f"row and column ({i})", DIRS[0], DIRS[1], 3, 3, names=part)
cross("both diagonals", DIRS[2], DIRS[3], 2, 3, names=["three", "broken three", "four", "five", "six"])
cross("column and diagonal", DIRS[1], DIRS[2], 2, 3, names=["three", "four", "twin four", "narrow three"])
cross("row and column, wide", DIRS[0], DIRS[1], 4, 4, tiers=("thorough",))
cross("row and antidiagonal, wide", DIRS[0], DIRS[3], 4, 4, tiers=("thorough",))


def chain(name, few, diag, tiers=("quick", "thorough"), preset=()):
    @check.obligation(f"a three whose straight four would be forbidden: {name}",
                      bounds=f"two crossing threes, one of which can be extended at a single point; every placement of at most {few} black stones on the column through that point{', black at ' + str(preset) if preset else ''}; diagonal through it: {diag}",
                      functions=F, covers=["forbidden", "legal centre"], budget=300, tiers=tiers, max_paths=20000)
    def ob(c):
        n = 11
        g = [["w"] * n for _ in range(n)]
        py, px, ex = 5, 2, 5
        for x, v in zip(range(1, 8), "..bb...") :        # w . P b b E . w : only E extends to a straight four
            g[py][x] = v
        g[py][1] = "."
        g[py][0], g[py][8 - 0] = "w", "w"
        for y, v in zip(range(2, 9), "..b.b.."):
            g[y][px] = v
        g[py][px] = "."
        b = []
        for k in range(-4, 5):
            if k:
                v = "b" if k in preset else c.bool(f"s{k}")
                if k not in preset:
                    b.append(v)
                g[py + k][ex] = v
        if diag:
            for k in range(-4, 5):
                if k:
                    g[py + k][ex + k] = "b" if k in diag else "."
        tot = 0
        for x in b:
            tot = tot + ite(x, 1, 0)
        c.assume(tot <= few)
        turn = c.choose("turn", ["as is", "mirrored"] if diag else ["as is", "turned"])
        if turn == "mirrored":
            g = [r[::-1] for r in g]
        elif turn == "turned":
            g = [list(r)[::-1] for r in zip(*g)][::-1]
        compare(c, g, "chained threes")
        c.cover("legal centre")


chain("column", 2, ())
chain("six or five on the column", 2, (), preset=(-2, -1, 1, 2))
chain("column, more stones", 3, (), tiers=("thorough",))
chain("column and diagonal", 2, (1, 2))
chain("column and diagonal, deep", 4, (-1, 1), tiers=("thorough",))


@check.obligation("side to move, orientation and batches", bounds="boards of 2..3 x 7..8 cells with 3 symbolic cells of either colour; either side to move; fixed sides or not; batch of two", functions=F, covers=["end", "swapped"], budget=300)
def glue(c):
    m = module(c)
    (H, W), flip = c.choose("shape", [((2, 7), False), ((8, 2), False), ((2, 7), True)])
    fixed, stm = c.choose("side", [(False, -1.0), (False, 1.0), (True, 1.0)])
    L = max(H, W)
    cells = {}
    base = "bb.bbb."[:L] if not flip else ".b.bbbb"[:L]
    for i in range(L):
        cells[(0, i) if W == L else (i, 0)] = base[i] if i < len(base) else "."
    who = [c.int(f"who{i}", 0, 2) for i in range(2)]
    for i, w in enumerate(who):
        cells[(1, 3 + i) if W == L else (3 + i, 1)] = w
    cells[(0, 3) if W == L else (3, 0)] = c.int("who2", 0, 2)

    def val(v, k):
        if type(v) is str:
            return int(v == "bw"[k])
        return ite(eq(v, k + 1), 1, 0)
    full = [[cells.get((y, x), ".") for x in range(W)] for y in range(H)]
    swap = not fixed and stm > 0
    planes = [[val(v, k) for r in full for v in r] for k in (0, 1)]
    b = arr(c, planes[1] + planes[0] if swap else planes[0] + planes[1], np.int8).reshape(2, H, W)
    before = elems(b)
    p = m.ForbiddenPointPipeline(fixed)
    data = {"board_input": b, "stm_input": np.array([stm], np.float32), "extra": 5}
    out = p.process(data)
    c.check(set(out) == set(data) | {"forbidden_point"} and out["extra"] == 5 and "forbidden_point" not in data and out["board_input"] is b, "processing changes other fields")
    c.check(sand(*[eq(x, y) for x, y in zip(elems(b), before)]), "processing changes the board")
    got = out["forbidden_point"]
    c.check(np.dtype(got.dtype) == np.int8 and tuple(got.shape) == (H, W), "wrong shape or type")
    concrete = {(y, x): v if type(v) is str else ".bw"[int(v)] for y, r in enumerate(full) for x, v in enumerate(r)}
    R = Renju(lambda y, x: concrete[y, x], H, W)
    want = [int(R.forbidden((y, x))) for y in range(H) for x in range(W)]
    c.check(sand(*[eq(g, w) for g, w in zip(elems(got), want)]), "the flags are not those of black's moves on this board", lambda: (concrete, elems(got), want))
    if swap:
        c.cover("swapped")
    zero = np.zeros((1, 2, H, W), np.int8)
    bb = np.concatenate([b.reshape(1, 2, H, W) if isinstance(b, np.ndarray) else b.reshape(1, 2, H, W), arr(c, [0] * (2 * H * W), np.int8).reshape(1, 2, H, W)]) if not c.symbolic else arr(c, elems(b) + [0] * (2 * H * W), np.int8).reshape(2, 2, H, W)
    res = p.process_batch({"board_input": bb, "stm_input": np.array([[stm], [-1.0]], np.float32), "keep": "k"})
    c.check(res["keep"] == "k" and tuple(res["forbidden_point"].shape) == (2, H, W), "batch processing loses fields or rows")
    c.check(sand(*[eq(g, w) for g, w in zip(elems(res["forbidden_point"]), want + [0] * (H * W))]), "batch processing differs from processing one sample")
    c.cover("end")


@check.obligation("board corners at the largest size", bounds="22 x 22 board (the largest); stones along both edges of one corner at a time, three symbolic", functions=F, covers=["forbidden"], budget=300)
def corner(c):
    n = 22
    g = [["w"] * n for _ in range(n)]
    fy, fx = c.choose("corner", [(False, False), (True, True), (False, True), (True, False)])
    base = [list("..b.b.."), list("b......"), list(".......")]
    s = [c.bool(f"s{i}") for i in range(3)]
    for k in range(6):
        g[0][k] = "." if k in (0, 5) else "b" if k in (1, 2) else s[k - 3]
        g[k][0] = "." if k in (0, 5) else "b" if k in (1, 2, 3) else s[2]
        g[k][k] = "." if k in (0, 4, 5) else "b"
    if fy:
        g = g[::-1]
    if fx:
        g = [r[::-1] for r in g]
    compare(c, g, "corner")


@check.obligation("refuses what it cannot fill", bounds="boards above 22 cells wide or high; wrong channel counts; outputs of another type, shape, order or read-only", functions=F, covers=["end", "fits"])
def refuse(c):
    module(c)
    f = sys.modules["forbidden_point_cpp"].transform_board_to_forbidden_point
    B = lambda h, w, ch=2: np.zeros((ch, h, w), np.int8)
    O = lambda h, w, dt=np.int8: np.full((h, w), 7, dt)
    what = c.choose("what", ["size h", "size w", "channels1", "channels3", "dtype", "order", "readonly", "h", "w", "rank", "fits"])
    ro = O(3, 4)
    ro.flags.writeable = False
    a = {"size h": (B(23, 3), O(23, 3)), "size w": (B(3, 23), O(3, 23)), "channels1": (B(3, 4, 1), O(3, 4)), "channels3": (B(3, 4, 3), O(3, 4)), "dtype": (B(3, 4), O(3, 4, np.int32)),
         "order": (B(3, 4), np.asfortranarray(O(3, 4))), "readonly": (B(3, 4), ro), "h": (B(3, 4), O(2, 4)), "w": (B(3, 4), O(3, 5)), "rank": (B(3, 4), np.zeros(12, np.int8)), "fits": (B(22, 22), O(22, 22))}[what]
    if what == "fits":
        f(*a)
        c.check(not a[1].any(), "an empty board of the largest size has forbidden points")
        c.cover("fits")
        return
    out = a[1].copy()
    expect_error(c, lambda: f(*a), (ValueError, TypeError, RuntimeError, IndexError), f"accepted: {what}")
    c.check(bool((out == a[1]).all()), "a refused output is written")
    c.cover("end")


if __name__ == "__main__":
    check.main()
