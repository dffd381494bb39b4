import os, sys, ast
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.harness import *

check = Check("P20", "filter expressions", assumptions=[
    "arrays of 2 rows with arbitrary real or int32 contents; expressions of the documented grammar up to three operators deep; every Python expression node in a forbidden place",
    "reals are exact (no NaN or infinity in the data)",
])
N = 2


def data(c, dt):
    lim = (None, None) if dt == "real" else (-1000, 1000)
    np_dt = np.float64 if dt == "real" else np.int32
    return {"gf": sym_vec(c, "gf", (N, 3), np_dt, *lim), "vt": sym_vec(c, "vt", (N, 2), np_dt, *lim), "k": sym_vec(c, "k", (N,), np_dt, *lim)}


class Gen:
    """Draws an expression of the grammar: source text plus, per row, its meaning."""

    def __init__(self, c, arrays):
        self.c, self.arrays, self.n = c, arrays, 0

    def pick(self, opts):
        self.n += 1
        return self.c.choose(f"n{self.n}", opts)

    def at(self, name, row, col):
        a = self.arrays[name]
        e = elems(a)
        return e[row] if a.ndim == 1 else e[row * a.shape[1] + col]

    def num(self, depth):
        kind = self.pick(["leaf", "const"] if depth == 0 else ["leaf", "+", "-", "*", "neg", "abs", "pow", "npabs"])
        if kind == "leaf":
            txt, name, col = self.pick([("gf[:, 0]", "gf", 0), ("gf[:, -1]", "gf", 2), ("k", "k", 0), ("vt[..., 1]", "vt", 1)])
            return txt, [self.at(name, r, col) for r in range(N)]
        if kind == "const":
            v = self.pick([0, -2, 3])
            return f"({v})", [v] * N
        if kind in "+-*":
            (s, a), (t, b) = self.num(depth - 1), self.num(0)
            f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[kind]
            return f"({s} {kind} {t})", [f(x, y) for x, y in zip(a, b)]
        s, a = self.num(depth - 1)
        if kind == "neg":
            return f"(-{s})", [-x for x in a]
        if kind == "pow":
            return f"({s} ** 2)", [x * x for x in a]
        f = {"abs": "abs", "npabs": "np.abs"}[kind]
        return f"{f}({s})", [ite(x >= 0, x, -x) if is_sym(x) else abs(x) for x in a]

    CMP = {"==": lambda x, y: eq(x, y), "!=": lambda x, y: snot(eq(x, y)), "<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}

    def cmp(self, depth):
        op = self.pick(list(self.CMP))
        (s, a), (t, b) = self.num(depth), self.leaf()
        return f"({s} {op} {t})", [self.CMP[op](x, y) for x, y in zip(a, b)]

    def leaf(self):
        txt, name, col = self.pick([("k", "k", 0), ("vt[:, 0]", "vt", 0)])
        return txt, [self.at(name, r, col) for r in range(N)]


def run(c, src, arrays):
    F = repo("dataset.filter")
    return F.evaluate_filter_condition(src, arrays)


def agree(c, src, arrays, want):
    got = run(c, src, arrays)
    c.check(tuple(got.shape) == (N,) and np.dtype(got.dtype) == np.bool_, "a filter is one boolean per row")
    c.check(sand(*[eq(g, bool(w) if not is_sym(w) else w) for g, w in zip(elems(got), want)]), "the filter selects other rows than the expression says")


for _dt in ("real", "int"):
    @check.obligation(f"comparisons of arithmetic select the rows they name ({_dt})", bounds="2 rows, one or two arithmetic operators, every comparison", covers=["done"], budget=300, functions=["SafeFilterEvaluator.evaluate"], dt_=_dt)
    def ob(c, dt_):
        a = data(c, dt_)
        g = Gen(c, a)
        agree(c, *(lambda s, w: (s, a, w))(*g.cmp(1)))
        c.cover("done")


@check.obligation("logical connectives, chains and nesting keep their meaning", bounds="2 rows, all connectives over comparisons, chained comparisons", covers=["bin", "not", "fn", "chain"], budget=300, functions=["SafeFilterEvaluator.evaluate"])
def ob(c):
    a = data(c, "real")
    k = [elems(a["k"])[r] for r in range(N)]
    g0 = [elems(a["gf"])[r * 3] for r in range(N)]
    v = [elems(a["vt"])[r * 2 + 1] for r in range(N)]
    G = Gen(c, a)
    op1, op2 = G.pick(list(G.CMP)), G.pick(list(G.CMP))
    f1, f2 = G.CMP[op1], G.CMP[op2]
    A, B = [f1(x, y) for x, y in zip(k, g0)], [f2(x, y) for x, y in zip(g0, v)]
    sa, sb = f"(k {op1} gf[:, 0])", f"(gf[:, 0] {op2} vt[:, 1])"
    kind = c.choose("kind", ["&", "|", "^", "~", "and", "or", "not", "npand", "chain", "mixed"])
    xor = lambda x, y: sor(sand(x, snot(y)), sand(snot(x), y))
    src, want = {
        "&": (f"{sa} & {sb}", [sand(x, y) for x, y in zip(A, B)]),
        "|": (f"{sa} | {sb}", [sor(x, y) for x, y in zip(A, B)]),
        "^": (f"{sa} ^ {sb}", [xor(x, y) for x, y in zip(A, B)]),
        "~": (f"~{sa} & ~{sb}", [snot(sor(x, y)) for x, y in zip(A, B)]),
        "and": (f"logical_and({sa}, {sb})", [sand(x, y) for x, y in zip(A, B)]),
        "or": (f"np.logical_or({sa}, {sb})", [sor(x, y) for x, y in zip(A, B)]),
        "not": (f"np.logical_not({sa}) | {sb}", [sor(snot(x), y) for x, y in zip(A, B)]),
        "npand": (f"np.logical_and({sa}, logical_not({sb}))", [sand(x, snot(y)) for x, y in zip(A, B)]),
        "chain": (f"k {op1} gf[:, 0] {op2} vt[:, 1]", [sand(x, y) for x, y in zip(A, B)]),
        "mixed": (f"({sa} | {sb}) & ~({sa} & {sb})", [xor(x, y) for x, y in zip(A, B)]),
    }[kind]
    agree(c, src, a, want)
    c.cover("chain" if kind == "chain" else "not" if kind in "~" else "fn" if kind in ("and", "or", "not", "npand") else "bin")


INDEX = [("gf[:, 1]", 1), ("gf[..., 2]", 2), ("gf[:, [1]][:, 0]", 1), ("gf[:, [2, 0]][:, 1]", 0), ("gf[:, 1:][:, 1]", 2), ("gf[:, ::2][:, 1]", 2), ("gf[:, -2]", 1), ("gf[0:2, 0]", 0), ("gf[:, ::-1][:, 0]", 2)]


@check.obligation("indexing selects the named column", bounds="nine index forms, arbitrary contents", covers=["done"], functions=["SafeFilterEvaluator._eval"])
def ob(c):
    a = data(c, "real")
    src, col = c.choose("form", INDEX)
    agree(c, f"{src} > k", a, [elems(a["gf"])[r * 3 + col] > elems(a["k"])[r] for r in range(N)])
    c.cover("done")


# every place an expression may stand, and every Python construct that may stand there
PLACES = ["{}", "{} > 0", "k > {}", "(k > 0) & ({})", "abs({}) > 0", "np.logical_not({})", "({} + k) > 0", "k[{}] > 0", "({})[:, 0] > 0", "gf[:, {}] > 0", "gf[{}:, 0] > 0", "(k, {}) > k", "-({}) > k", "~({})", "({}) ** 2 > k", "k ** ({}) > 0",
          "gf[[{}], 0] > k", "0 < k < {}"]
BAD = ["__import__('os')", "np.linalg", "np.load", "np.ndarray", "np.abs.__call__", "gf.shape", "gf.T", "gf.dtype", "gf.tofile", "k.__class__", "(lambda: k)", "(k if k else k)", "[x for x in k]", "{1: 2}", "{1}", "(x for x in k)", "'abc'", "b'a'", "f'{k}'",
       "(y := k)", "k and k", "k or k", "not k", "k in k", "k is k", "k @ k", "k << 1", "k >> 1", "open", "eval('1')", "exec", "getattr(k, 'T')", "__builtins__", "unknown", "np.isnan(k, where=k)", "abs(k, out=k)", "abs(*k)", "abs(**k)", "1e999", "9223372036854775808",
       "-9223372036854775809", "1j", "np.fromfile('/etc/passwd')", "abs(abs)", "(abs)(np)", "k()", "gf[:, 0]()", "np()", "k[None]", "k[:, None]", "k[True]", "k[1.0]", "k['a']", "k[k]", "k[abs]", "gf[..., ..., 0]", "gf[[0.5], 0]", "gf[[[0]], 0]", "(yield)", "(await k)", "k ** 9",
       "k ** -1", "k ** True", "k ** 0.5", "k ** k", "2 ** k", "(9 ** 8) ** 8", "(9223372036854775807 + 1)", "isfinite", "__class__", "np.__dict__", "np.__loader__", "abs.__self__", "np.errstate"]
GOODPLACE = {"1e999": [], "(9 ** 8) ** 8": []}


@check.obligation("nothing outside the grammar is evaluated, wherever it stands", bounds=f"{len(BAD)} forbidden constructs in {len(PLACES)} places", covers=["done"], budget=300, functions=["SafeFilterEvaluator._eval", "SafeFilterEvaluator._literal", "SafeFilterEvaluator._index_literal"])
def ob(c):
    F = repo("dataset.filter")
    place, bad = PLACES[int(c.int("place", 0, len(PLACES) - 1))], BAD[int(c.int("bad", 0, len(BAD) - 1))]
    arrays = {"gf": np.array([[1.0, 2, 3], [4, 5, 6]]), "k": np.array([1.0, -1.0])}
    try:
        run(c, place.format(bad), arrays)
    except (ValueError, TypeError):
        c.check(True, "refused")
        c.cover("done")
        return
    c.fail(f"{place.format(bad)} was evaluated")


class Tree:
    """An expression tree with free constants (what ast.parse would return for their text)."""

    @staticmethod
    def const(v):
        n = ast.Constant(value=0)
        n.value = v
        return n


@contextlib.contextmanager
def parsed(F, tree):
    class Ast:
        def __getattr__(self, k):
            return getattr(ast, k)

        def parse(self, *a, **k):
            return tree
    with patched(F, "ast", Ast()):
        yield


@check.obligation("integer literals and exponents beyond the limits are refused", bounds="any integer literal, any exponent", covers=["lit", "big", "pow", "powbig"], functions=["SafeFilterEvaluator._literal", "SafeFilterEvaluator._eval"])
def ob(c):
    F = repo("dataset.filter")
    arrays = {"k": np.array([1.0, 2.0])}
    name = ast.Name(id="k", ctx=ast.Load())
    kind = c.choose("kind", ["lit", "pow"])
    v = c.zint("v", -(1 << 80), 1 << 80)
    if kind == "lit":
        other = bool(c.bool("index"))
        if other:
            node = ast.Compare(left=ast.Subscript(value=name, slice=Tree.const(v), ctx=ast.Load()), ops=[ast.Gt()], comparators=[name])
        else:
            node = Tree.const(v)
        with parsed(F, ast.Expression(body=node)):
            e = F.SafeFilterEvaluator("x", arrays)
            try:
                e._eval(node) if not other else e._index_literal(node.left.slice)
            except ValueError:
                c.check(sor(v < -(1 << 63), v >= (1 << 63)), "a 64-bit literal was refused")
                c.cover("big")
                return
        c.check(sand(v >= -(1 << 63), v < (1 << 63)), "a literal beyond 64 bits was accepted")
        c.cover("lit")
        return
    node = ast.Compare(left=ast.BinOp(left=name, op=ast.Pow(), right=Tree.const(v)), ops=[ast.Gt()], comparators=[Tree.const(0)])
    if bool(sand(v >= 0, v <= 8)):
        v = int(v)
    node.left.right = Tree.const(v)
    with parsed(F, ast.Expression(body=node)):
        try:
            F.SafeFilterEvaluator("x", arrays).evaluate()
        except ValueError:
            c.check(sor(v < 0, v > 8), "a small exponent was refused")
            c.cover("powbig")
            return
    c.check(sand(v >= 0, v <= 8), "an exponent above 8 was evaluated")
    c.cover("pow")


@check.obligation("integer arithmetic on literals cannot grow without bound", bounds="chains of up to 6 operators over any of five literals", covers=["ok", "refused"], budget=200, functions=["SafeFilterEvaluator._eval"])
def ob(c):
    F = repo("dataset.filter")
    limit = 1 << 600
    big = []

    def watch(fn):
        def f(*a):
            r = fn(*a)
            if isinstance(r, int) and not -limit < r < limit:
                big.append(r)
                raise ValueError("number too large")
            return r
        return f
    txt = str(c.choose("v", [9, -2, 9223372036854775807, 1 << 40, 0]))
    for i in range(int(c.int("n", 1, 6))):
        txt = f"({txt} {c.choose(f'op{i}', ['** 8', '* 9223372036854775807', '+ 1'])})"
    table = {k: watch(f) for k, f in F._BINARY.items()}
    with patched(F, "_BINARY", table):
        try:
            run(c, f"{txt} > k", {"k": np.array([1.0, 2.0])})
            c.cover("ok")
        except ValueError:
            c.cover("refused")
    c.check(not big, "an integer of more than 600 bits was computed")


def nested(n):
    return "~" * n + "(k > 0)"


@check.obligation("size limits hold exactly", bounds="texts of 1..4100 bytes, 1..130 nodes, depths 1..20, 1..70 list items", covers=["bytes", "nodes", "depth", "items", "utf8"], budget=200, functions=["SafeFilterEvaluator.__init__", "SafeFilterEvaluator._check_depth"])
def ob(c):
    F = repo("dataset.filter")
    arrays = {"k": np.array([1.0, -2.0]), "gf": np.zeros((2, 3))}
    kind = c.choose("kind", ["bytes", "nodes", "depth", "items", "utf8"])
    if kind == "bytes":
        n = int(c.int("n", 4090, 4102))
        src = "k > 0".ljust(n)
        ok = n <= 4096
    elif kind == "utf8":
        n = int(c.int("n", 2040, 2050))
        src = "k > 0 #" + "\u00e9" * n
        ok = 7 + 2 * n <= 4096
    elif kind == "nodes":
        # k>0: Compare, Name, Load, Gt, Constant; Expression
        n = int(c.int("n", 1, 70))
        src = "k > 0" + " > 0" * n
        ok = None
        t = ast.parse(src, mode="eval")
        ok = len(list(ast.walk(t))) <= 128
    elif kind == "depth":
        n = int(c.int("n", 1, 20))
        src = nested(n)

        def depth(x):
            return 1 + max([depth(y) for y in ast.iter_child_nodes(x)], default=0)
        ok = depth(ast.parse(src, mode="eval")) <= 16
    else:
        n = int(c.int("n", 60, 68))
        src = f"gf[:, [{', '.join(['0'] * n)}]][:, 0] >= k"
        ok = n <= 64
    try:
        run(c, src, arrays)
        got = True
    except ValueError:
        got = False
    c.check(got == ok, f"limit on {kind}")
    c.cover(kind)


@check.obligation("intermediate arrays beyond the limits are never computed", bounds="outer products of n rows and m columns around the limits, lists of repeated columns, calls and unary operators", covers=["ok", "refused"], budget=200, functions=["SafeFilterEvaluator._check_result_allocation", "SafeFilterEvaluator._check_broadcast"])
def ob(c):
    F = repo("dataset.filter")
    n, m = c.choose("nm", [(2, 2048), (2, 2049), (64, 64), (64, 65), (63, 65), (600, 8), (600, 9), (512, 8), (512, 9), (1 << 20, 8), ((1 << 20) + 1, 8)])
    form = c.choose("form", ["({} * {})[:, 0] >= 0", "logical_or({}, {})[:, 0]", "({} < {})[:, 0]", "(0 <= {} < {})[:, 0]"] if n < 10000 else ["({} * {})[:, 0] >= 0"])
    arrays = {"x": np.broadcast_to(np.float64(0), (n, 1)), "y": np.broadcast_to(np.float64(1), (1, m))}
    ok = n * m <= max(4096, 8 * n) and n * m * 8 <= 64 << 20
    made = []

    def watch(fn):
        def f(*a):
            shapes = [getattr(v, "shape", ()) for v in a]
            made.append(int(np.prod(np.broadcast_shapes(*shapes))))
            return fn(*a)
        return f
    fs = {k: watch(f) for k, f in F._FUNCTIONS.items()}
    with patched(F, "_BINARY", {k: watch(f) for k, f in F._BINARY.items()}), patched(F, "_COMPARE", {k: watch(f) for k, f in F._COMPARE.items()}), patched(F, "_FUNCTIONS", fs):
        try:
            run(c, form.format("x", "y"), arrays)
            got = True
        except ValueError:
            got = False
    c.check(got == ok, "allocation limit")
    c.check(all(s <= max(4096, 8 * n) for s in made), "an oversized intermediate was computed")
    c.cover("ok" if ok else "refused")


@check.obligation("indexing with lists respects the allocation limit", bounds="1..64 repeated columns of wide inputs", covers=["ok", "refused"], functions=["SafeFilterEvaluator._eval"])
def ob(c):
    n, w = c.choose("nw", [(4, 100), (600, 2), (64, 80)])
    items = int(c.int("items", 1, 64))
    x = np.broadcast_to(np.float64(1), (n, w, 3))
    src = f"x[:, [{', '.join(['0'] * items)}]][:, 0, 0] > 0"
    limit = max(4096, 8 * n)
    exact = n * items * 3
    est = items * w * 3
    try:
        run(c, src, {"x": x})
        c.check(exact <= limit, "an oversized selection was computed")
        c.cover("ok")
    except ValueError:
        c.check(exact > limit or est > limit, "a small selection was refused")
        c.cover("refused")


@check.obligation("only boolean vectors of the right length are filters, only plain named arrays are inputs", bounds="eight result shapes, eight input kinds", covers=["result", "input", "ok"], functions=["SafeFilterEvaluator.evaluate", "SafeFilterEvaluator._check_array"])
def ob(c):
    base = {"k": np.array([1.0, -2.0]), "gf": np.zeros((2, 3))}
    kind = c.choose("kind", ["result", "input"])
    if kind == "result":
        src, ok = c.choose("src", [("k > 0", True), ("k", False), ("k + 1", False), ("gf > 0", False), ("gf[0] > 0", False), ("gf[:, :1] > 0", False), ("k[:1] > 0", False), ("1 > 0", False), ("True", False), ("abs", False), ("np", False), ("isnan(k)", True), ("k[0] > 0", False), ("None", False), ("(1, 2)", False), ("", False), ("k >", False), ("k > 0; k", False)])
    else:
        extra, ok = c.choose("extra", [({"z": np.array([True, False])}, True), ({"z": np.array([1, 2], dtype=np.uint8)}, True), ({"__z": np.array([1.0, 2.0])}, False), ({"z": np.array(["a", "b"])}, False), ({"z": np.array([object(), None])}, False), ({"z": np.array([1j, 2])}, False), ({"z": np.array(["2020-01-01", "2020-01-02"], dtype="M8[D]")}, False), (None, False)])
        src = "k > 0"
        base = {} if extra is None else dict(base, **extra)
    try:
        run(c, src, base)
        got = True
    except (ValueError, TypeError):
        got = False
    c.check(got == ok, f"{kind} kind")
    c.cover(kind)
    if got:
        c.cover("ok")


if __name__ == "__main__":
    check.main()
