import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sample_common import *
from symx.symnp import _objarr

check = Check("P13", "board symmetries", assumptions=[
    "moves: any board size up to 2**20 and any coordinates; arrays: concrete shapes up to 5x5 with arbitrary contents",
])
NAMES = list(MAPS)


@contextlib.contextmanager
def text_free(c):
    """Error texts need not spell symbolic coordinates."""
    D = repo("utils.data_utils")
    if c.symbolic:
        D.chr = lambda v: "?" if is_sym(v) else __import__("builtins").chr(v)
        D.str = lambda v="": "?" if is_sym(v) else __import__("builtins").str(v)
    try:
        yield D
    finally:
        if c.symbolic:
            del D.chr, D.str


def sym_of(D, name):
    return getattr(D.Symmetry, name)


for _name in NAMES:
    @check.obligation(f"{_name} maps moves as documented on every board", bounds="any height and width < 2**20, any two moves", covers=["ok", "outside", "shape", "pass"],
                      functions=["Symmetry.apply_to_move", "Symmetry.available_symmetries"], name_=_name)
    def ob(c, name_):
        D = repo("utils.data_utils")
        w = c.zint("w", 1, 1 << 20)
        h = w if bool(c.bool("square")) else c.zint("h", 1, 1 << 20)
        s = sym_of(D, name_)
        if bool(c.bool("pass")):
            c.check(s.apply_to_move(D.Move.PASS, (h, w)) is D.Move.PASS or s.apply_to_move(D.Move.PASS, (h, w)).is_pass, "a pass is not kept")
            c.cover("pass")
            return
        x, y = c.zint("x", -2, 1 << 20), c.zint("y", -2, 1 << 20)
        c.assume(sor(x >= 0, y >= 0))
        ok_shape = sor(eq(h, w), name_ not in SWAP)
        inside = sand(x >= 0, y >= 0, x < w, y < h)
        try:
            with text_free(c):
                m = s.apply_to_move(D.Move(x, y), (h, w))
        except ValueError:
            c.check(snot(sand(ok_shape, inside)), "a valid move was refused")
            c.cover("shape") if bool(snot(ok_shape)) or name_ not in SWAP else None
            if bool(snot(inside)):
                c.cover("outside")
            return
        c.check(ok_shape, "a symmetry that changes the board shape was applied")
        c.check(inside, "a move outside the board was transformed")
        ex, ey = MAPS[name_](x, y, w, h)
        c.check(sand(eq(m.x, ex), eq(m.y, ey)), "move goes elsewhere than documented")
        c.check(sand(m.x >= 0, m.y >= 0, m.x < w, m.y < h), "image is outside the board")
        if name_ not in SWAP:
            c.cover("shape")
        c.cover("ok")


@check.obligation("every symmetry is undone by a symmetry and distinct symmetries differ", bounds="any square board < 2**20, any move, all pairs of symmetries", covers=["done"], functions=["apply_to_move"])
def ob(c):
    D = repo("utils.data_utils")
    n = c.zint("n", 2, 1 << 20)
    x, y = c.zint("x", 0, 1 << 20), c.zint("y", 0, 1 << 20)
    c.assume(sand(x < n, y < n))
    a = D.Symmetry(int(c.int("a", 0, 7)))
    b = D.Symmetry(int(c.int("b", 0, 7)))
    ab = b.apply_to_move(a.apply_to_move(D.Move(x, y), (n, n)), (n, n))
    # closed: composing two symmetries is again one of the eight
    opts = [sand(eq(ab.x, m(x, y, n, n)[0]), eq(ab.y, m(x, y, n, n)[1])) for m in MAPS.values()]
    c.check(sor(*opts), "composition is not a symmetry")
    if a is not b:
        # on a board of at least 2 cells the images of some cell differ: (0, 0) or (0, n-1) or (n-2, n-1)
        pts = [(0, 0), (n - 1, 0), (0, n - 1), (1, 0), (0, 1)]
        diff = []
        for px, py in pts:
            p, q = a.apply_to_move(D.Move(px, py), (n, n)), b.apply_to_move(D.Move(px, py), (n, n))
            diff.append(sor(p.x != q.x, p.y != q.y))
        c.check(sor(*diff), "two symmetries act alike")
    inv = [s for s in D.Symmetry if bool(eq(s.apply_to_move(a.apply_to_move(D.Move(x, y), (n, n)), (n, n)).x, x)) and bool(eq(s.apply_to_move(a.apply_to_move(D.Move(x, y), (n, n)), (n, n)).y, y))]
    c.check(len(inv) >= 1, "a symmetry cannot be undone")
    c.cover("done")


for _name in NAMES:
    @check.obligation(f"{_name} moves arrays exactly as it moves moves", bounds="boards 1..5 x 1..5, 0..2 leading axes, any contents, any axis convention", covers=["done"],
                      functions=["apply_to_array", "apply_to_move"], name_=_name)
    def ob(c, name_):
        D = repo("utils.data_utils")
        s = sym_of(D, name_)
        h, w = int(c.int("h", 1, 5)), int(c.int("w", 1, 5))
        lead = c.choose("lead", [(), (2,), (2, 2)])
        a = sym_vec(c, "a", lead + (h, w), np.int8)
        keep = a.copy()
        out = s.apply_to_array(a)
        c.check(same(a, keep), "the input array was changed in place")
        flat_in, flat_out = a.reshape(-1, h, w), out.reshape(-1, *out.shape[-2:])
        for i in range(flat_in.shape[0]):
            c.check(grid_eq(cells(flat_out[i]), moved_grid(name_, cells(flat_in[i]))), "array content moved elsewhere")
        if h == w or name_ not in SWAP:
            for y in range(h):
                for x in range(w):
                    m = s.apply_to_move(D.Move(x, y), (h, w))
                    c.check(eq(elems(flat_out[0][int(m.y)][int(m.x)])[0], elems(flat_in[0][y][x])[0]), "stones and moves are transformed differently")
        # other axis conventions: (y, x) first
        if lead == (2,):
            b = s.apply_to_array(np.transpose(a, (1, 2, 0)), y_dim=0, x_dim=1)
            c.check(same(np.transpose(b, (2, 0, 1)), out), "axis arguments are ignored")
        out[(0,) * out.ndim] = 77
        c.check(same(a, keep), "the result shares memory with the input")
        c.cover("done")


@check.obligation("available symmetries are exactly those that keep the shape", bounds="any height and width < 2**20, every kind", covers=["square", "rect", "refused"], functions=["available_symmetries"])
def ob(c):
    D = repo("utils.data_utils")
    w = c.zint("w", 1, 1 << 20)
    sq = bool(c.bool("square"))
    h = w if sq else c.zint("h", 1, 1 << 20)
    c.assume(sq or h != w)
    kind = c.choose("kind", list(KINDS) + ["other"])
    want = None if kind == "other" else (KINDS[kind] if sq else ([k for k in KINDS[kind] if k not in SWAP] if kind == "default" else None))
    try:
        got = D.Symmetry.available_symmetries((h, w), kind)
    except ValueError:
        c.check(want is None, "a supported symmetry set was refused")
        c.cover("refused")
        return
    c.check(want is not None, "a symmetry set that changes the board shape was allowed")
    c.check([g.name for g in got] == want, "the symmetry set differs from its definition")
    if want is not None and kind == "default":
        c.check([g.name for g in D.Symmetry.available_symmetries((h, w))] == want, "default set")
    c.cover("square" if sq else "rect")


@check.obligation("board symmetries leave padding untouched", bounds="boards 1..3 x 1..3 inside planes up to 4x5, any contents", covers=["done"], functions=["apply_to_board"], budget=200)
def ob(c):
    D = repo("utils.data_utils")
    if not hasattr(D.Symmetry, "apply_to_board"):
        c.cover("done")
        return
    name = c.choose("name", NAMES)
    h, w = int(c.int("h", 1, 3)), int(c.int("w", 1, 3))
    c.assume(h == w or name not in SWAP)
    H, W = h + int(c.int("ph", 0, 1)), w + int(c.int("pw", 0, 2))
    a = sym_vec(c, "a", (2, H, W), np.int8)
    keep = a.copy()
    out = sym_of(D, name).apply_to_board(a, np.array([h, w], dtype=np.int8))
    c.check(same(a, keep), "input changed in place")
    for k in range(2):
        c.check(grid_eq(cells(out, k), board_move(name, cells(a, k), h, w)), "padded board transformed wrongly")
    c.cover("done")


@check.obligation("moves pack, compare and print without loss", bounds="any coordinates 0..31 (text: 0..25 columns), passes", covers=["done", "pass"], functions=["Move.value", "Move.pos", "Move.__str__", "Move.is_pass"])
def ob(c):
    D = repo("utils.data_utils")
    c.check(D.Move.PASS.is_pass and str(D.Move.PASS) == "pass" and D.Move.PASS.value == -1, "pass")
    x, y, u, v = (c.int(k, 0, 31) for k in ("x", "y", "u", "v"))
    m, k = D.Move(x, y), D.Move(u, v)
    c.check(snot(m.is_pass), "a move on the board counts as pass")
    c.check(simplies(eq(m.value, k.value), sand(eq(x, u), eq(y, v))), "two moves have one packed value")
    c.check(sand(eq(m.value >> 5, x), eq(m.value & 31, y)), "packed value differs from the record format")
    c.check(sand(eq(elems(m.pos)[0], x), eq(elems(m.pos)[1], y)), "pos")
    a, b = int(c.int("tx", 0, 25)), int(c.int("ty", 0, 31))
    t = str(D.Move(a, b))
    c.check(t[0] == "abcdefghijklmnopqrstuvwxyz"[a] and int(t[1:]) == b + 1, "text form")
    c.cover("done")
    c.cover("pass")


@check.obligation("results and rules keep their meaning", bounds="all results and rules", covers=["done"], functions=["Result.opposite", "Rule.index", "Rule.__str__"])
def ob(c):
    D = repo("utils.data_utils")
    R = D.Result
    r = c.choose("r", ["WIN", "LOSS", "DRAW"])
    c.check(getattr(R, r).opposite() is getattr(R, {"WIN": "LOSS", "LOSS": "WIN", "DRAW": "DRAW"}[r]), "opposite result")
    c.check({k.name: (k.value, k.index, str(k)) for k in D.Rule} == {"FREESTYLE": (0, 0, "freestyle"), "STANDARD": (1, 1, "standard"), "RENJU": (4, 2, "renju")}, "rule table")
    c.check((R.LOSS.value, R.DRAW.value, R.WIN.value) == (0, 1, 2), "result codes")
    c.cover("done")


if __name__ == "__main__":
    check.main()
