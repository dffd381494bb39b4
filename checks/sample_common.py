"""Independent description of board symmetries and sample fields, shared by P12-P14."""
import re
from symx.harness import *

# name -> image of (x, y) on a board of width w and height h
MAPS = {
    "IDENTITY": lambda x, y, w, h: (x, y),
    "ROTATE_90": lambda x, y, w, h: (y, w - 1 - x),
    "ROTATE_180": lambda x, y, w, h: (w - 1 - x, h - 1 - y),
    "ROTATE_270": lambda x, y, w, h: (h - 1 - y, x),
    "FLIP_X": lambda x, y, w, h: (x, h - 1 - y),
    "FLIP_Y": lambda x, y, w, h: (w - 1 - x, y),
    "FLIP_XY": lambda x, y, w, h: (y, x),
    "FLIP_YX": lambda x, y, w, h: (h - 1 - y, w - 1 - x),
}
SWAP = {"ROTATE_90", "ROTATE_270", "FLIP_XY", "FLIP_YX"}
KINDS = {
    "default": list(MAPS),
    "rotate": ["IDENTITY", "ROTATE_90", "ROTATE_180", "ROTATE_270"],
    "flip": ["IDENTITY", "FLIP_X", "FLIP_Y", "FLIP_XY", "FLIP_YX"],
    "flip_diag_rotate180": ["IDENTITY", "ROTATE_180", "FLIP_XY", "FLIP_YX"],
}


def names_for(kind, h, w):
    """The symmetries that keep the board shape, or None when the kind does not allow the shape."""
    n = KINDS["default" if kind is True else kind]
    if h == w:
        return n
    return [k for k in n if k not in SWAP] if kind in (True, "default") else None


def moved_grid(name, grid):
    """grid[y][x] -> image grid"""
    h, w = len(grid), len(grid[0])
    hh, ww = (w, h) if name in SWAP else (h, w)
    out = [[None] * ww for _ in range(hh)]
    for y in range(h):
        for x in range(w):
            nx, ny = MAPS[name](x, y, w, h)
            out[ny][nx] = grid[y][x]
    return out


def padded(grid, H, W):
    h, w = len(grid), len(grid[0])
    return [[grid[y][x] if y < h and x < w else 0 for x in range(W)] for y in range(H)]


def board_move(name, grid, h, w):
    """Symmetry of the h x w board in the top-left of a padded grid."""
    top = moved_grid(name, [r[:w] for r in grid[:h]])
    return [[top[y][x] if y < h and x < w else grid[y][x] for x in range(len(grid[0]))] for y in range(len(grid))]


def cells(a, *lead):
    """numpy/symbolic (H, W) plane of array `a` as list of rows"""
    for i in lead:
        a = a[i]
    h, w = a.shape[-2:]
    e = elems(a)
    return [[e[y * w + x] for x in range(w)] for y in range(h)]


def grid_eq(g, s):
    if len(g) != len(s) or len(g[0]) != len(s[0]):
        return False
    return sand(*[eq(p, q) for r, t in zip(g, s) for p, q in zip(r, t)])


def hot(points, h, w):
    """0/1 grid of stones at (x, y) points (symbolic), OR of all"""
    out = []
    for y in range(h):
        row = []
        for x in range(w):
            b = sor(False, *[sand(eq(px, x), eq(py, y)) for px, py in points])
            row.append(ite(b, 1, 0) if is_sym(b) else int(b))
        out.append(row)
    return out


@contextlib.contextmanager
def move_strings(c):
    """Readable move strings with symbolic coordinates: yields moves_of(position_string)."""
    D = repo("utils.data_utils")
    tab = []

    def sstr(m=""):
        if isinstance(m, D.Move) and (is_sym(m.x) or is_sym(m.y)):
            tab.append(m)
            return chr(0xE000 + len(tab) - 1)
        return str(m)

    def moves_of(s):
        out = []
        for t in re.findall(r"pass|[a-z]\d+|[\ue000-\uf8ff]", s):
            if t == "pass":
                out.append(None)
            elif ord(t[0]) >= 0xE000:
                m = tab[ord(t) - 0xE000]
                out.append((m.x, m.y))
            else:
                out.append((ord(t[0]) - 97, int(t[1:]) - 1))
        return out
    if c.symbolic:
        D.str = sstr
    try:
        yield moves_of
    finally:
        if c.symbolic:
            del D.str
