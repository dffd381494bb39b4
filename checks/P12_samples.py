import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sample_common import *
from symx.symnp import _objarr

check = Check("P12", "training samples of recorded games", assumptions=[
    "board size 3 (any coordinates), <= 3 opening stones, <= 3 moves, <= 3 variations per move; float arithmetic is exact real arithmetic",
    "the winrate curve is a free linear stand-in (its own shape: P24); exp is an uninterpreted function",
    "the symmetry drawn for a record is a free choice (its distribution: P01)",
])
B = 3


class WR:
    """Injective stand-in for the winrate curve."""
    eval_mate_threshold = 29000

    def eval_to_winrate(self, ev):
        return real(ev + 30000) / 60000

    def eval_to_wld(self, ev):
        return np_array([self.eval_to_winrate(ev), self.eval_to_winrate(-ev) / 2, real(ev) / 7 + 1])


def real(x):
    return SymReal(real_expr(x)) if is_sym(x) else float(x)


def np_array(v):
    return as_sym(SymArray(_objarr(v), np.dtype(np.float64))) if any(is_sym(x) for x in v) else np.array(v)


def mkmove(c, D, name, may_pass=False):
    if may_pass and bool(c.bool(name + "p")):
        return D.Move.PASS
    return D.Move(c.int(name + "x", 0, B - 1), c.int(name + "y", 0, B - 1))


def pt(m):
    return (m.x, m.y)


def mkgroup(c, P, D, i, nv, ev="sym", may_pass=True):
    g = P.MoveData()
    for j in range(nv):
        g.moves.append(mkmove(c, D, f"m{i}_{j}", may_pass))
        g.evals.append(c.int(f"e{i}_{j}", -30000, 30000) if ev == "sym" else ev)
    return g


def reader(P, **kw):
    d = P.PackedBinaryDataset(file_list=[], rules={"freestyle", "standard", "renju"}, boardsizes={(B, B)}, **kw)
    d.winrate_model = WR()
    return d


def val(x):
    e = elems(x)
    return e[0]


def check_position(c, D, entry_moves, data, h=B):
    """board, side, ply of the position after `entry_moves` (black first); returns white-to-move"""
    n = len(entry_moves)
    black = [pt(m) for i, m in enumerate(entry_moves) if i % 2 == 0 and not bool(m.is_pass)]
    white = [pt(m) for i, m in enumerate(entry_moves) if i % 2 == 1 and not bool(m.is_pass)]
    return hot(black, h, h), hot(white, h, h), n % 2 == 1


def mkpos(ip, k, tiers=("quick", "thorough")):
    @check.obligation(f"position after {ip} opening stones and {k} moves", tiers=tiers, bounds="every stone, pass, result and rule; side fixed or relative", covers=["rel", "fixed"],
                      functions=["PackedBinaryDataset._process_entry", "_process_subrecord", "SamplePostProcessor.process_sample", "Result.opposite"], budget=300)
    def ob(c):
        P, D = repo("dataset.packed_binary"), repo("utils.data_utils")
        rule = c.choose("rule", [D.Rule.FREESTYLE, D.Rule.RENJU])
        result = c.choose("result", [D.Result.LOSS, D.Result.DRAW, D.Result.WIN])
        fixed = bool(c.bool("fixed"))
        has_pass = bool(c.bool("hp"))
        init = [mkmove(c, D, f"i{i}") for i in range(ip)]
        e = P.EntryData(B, rule, result, ip + k + 1, 0, list(init))
        e.moves = [mkgroup(c, P, D, i, 1, None, may_pass=True) for i in range(k + 1)]
        with move_strings(c) as moves_of:
            d = reader(P, fixed_side_input=fixed, has_pass_move=has_pass)._process_subrecord(e, k)
            played = [g.moves[0] for g in e.moves[:k]]
            seq = init + played
            bl, wh, wtm = check_position(c, D, seq, d)
            first, second = (wh, bl) if wtm and not fixed else (bl, wh)
            c.check(sand(grid_eq(cells(d["board_input"], 0), first), grid_eq(cells(d["board_input"], 1), second)), "stones are not on the side the game put them")
            c.check(eq(val(d["stm_input"]), 1.0 if wtm else -1.0), "side to move differs from the game")
            c.check(eq(d["ply"], ip + k), "ply differs from the number of moves played")
            c.check(same([int(v) for v in elems(d["board_size"])], [B, B]), "board size")
            c.check(d["rule_index"] == {"FREESTYLE": 0, "RENJU": 2}[rule.name], "rule index")
            # the recorded result is the first mover's, so it flips with every move
            r = result.value if k % 2 == 0 else 2 - result.value
            win, loss, draw = float(r == 2), float(r == 0), float(r == 1)
            if fixed and wtm:
                win, loss = loss, win
            c.check(same([float(v) for v in elems(d["value_target"])], [win, loss, draw]), "value target differs from the recorded result")
            best = e.moves[k].moves[0]
            pol = d["policy_target"]
            el = elems(pol)
            c.check(tuple(pol.shape) == ((B * B + 1,) if has_pass else (B, B)), "policy target shape")
            exp = hot([] if best.is_pass else [pt(best)], B, B)
            c.check(sand(*[eq(el[y * B + x], exp[y][x]) for y in range(B) for x in range(B)]), "policy target is not the best move")
            if has_pass:
                c.check(eq(el[-1], 1.0 if best.is_pass else 0.0), "policy target of a pass")
            c.check(bool(np.isnan(elems(d["raw_eval"])[0])), "an unknown evaluation has a value")
            mv = moves_of(d["position_string"])
            c.check(len(mv) == len(seq), "length of the move string")
            for m, s in zip(mv, seq):
                c.check(m is None if s.is_pass else m is not None and sand(eq(m[0], s.x), eq(m[1], s.y)), "move string differs from the game")
            lm = elems(d["last_move"])
            exp = (-1, -1) if not seq else pt(seq[-1])
            c.check(sand(eq(lm[0], exp[0]), eq(lm[1], exp[1])), "last move differs from the game")
            c.check(same([m.x for m in e.init_position], [m.x for m in init]) and len(e.moves) == k + 1, "reading a sample changes the game")
            c.check(reader(P)._process_subrecord(e, k + 1) is None, "a sample past the end of the game")
        c.cover("fixed" if fixed else "rel")


for ip in range(4):
    for k in range(3):
        if ip + k <= 3:
            mkpos(ip, k)
mkpos(3, 2, ("thorough",))
mkpos(2, 3, ("thorough",))


@check.obligation("games of other rules or board sizes yield nothing", bounds="3 rules, board sizes 2..4, every admitted subset", covers=["none", "some"], functions=["_process_entry", "_prepare_data_from_entry"])
def ob(c):
    P, S, D = repo("dataset.packed_binary"), repo("dataset.simple_binary"), repo("utils.data_utils")
    names = {"FREESTYLE": "freestyle", "STANDARD": "standard", "RENJU": "renju"}
    rules = {v for v in names.values() if bool(c.bool(v))}
    rule = c.choose("rule", list(D.Rule))
    n = int(c.int("n", 2, 4))
    sizes = {(s, s) for s in (2, 3, 4) if bool(c.bool(f"s{s}"))}
    ok = names[rule.name] in rules and (n, n) in sizes
    e = P.EntryData(n, rule, D.Result.WIN, 1, 0, [])
    g = P.MoveData()
    g.moves, g.evals = [D.Move(0, 1)], [None]
    e.moves = [g]
    a = P.PackedBinaryDataset(file_list=[], rules=rules, boardsizes=sizes)._process_subrecord(e, 0)
    b = S.SimpleBinaryDataset(file_list=[], rules=rules, boardsizes=sizes)._prepare_data_from_entry(D.Result.WIN, 0, n, rule, D.Move(0, 1), [])
    for x in (a, b):
        c.check((x is not None) == ok, "a game was admitted or skipped against the configured rules and sizes")
        if ok:
            c.check(tuple(x["board_input"].shape) == (2, n, n), "board shape")
    c.cover("some" if ok else "none")


@check.obligation("value targets mix result and evaluation by game stage", bounds="<= 3 moves, every lambda in [0,1], every evaluation", covers=["hard", "soft"], functions=["_setup_value_target", "_process_entry"], budget=200)
def ob(c):
    P, D = repo("dataset.packed_binary"), repo("utils.data_utils")
    n = int(c.int("n", 1, 3))
    k = int(c.int("k", 0, n - 1))
    dyn = bool(c.bool("dyn"))
    lam = c.real("lam", 0, 1)
    result = c.choose("result", list(D.Result))
    none = bool(c.bool("none"))
    e = P.EntryData(B, D.Rule.FREESTYLE, result, n, 0, [])
    e.moves = [mkgroup(c, P, D, i, 1, None if none else "sym", may_pass=False) for i in range(n)]
    r = reader(P, value_td_lambda=lam, dynamic_value_lambda=dyn, drop_extra=True)
    d = r._process_subrecord(e, k)
    c.check(set(d) == {"board_size", "board_input", "stm_input", "value_target", "policy_target"}, "extra fields kept")
    v = elems(d["value_target"])
    q = result.value if k % 2 == 0 else 2 - result.value
    hard = [q == 2, q == 0, q == 1]
    ev = e.moves[k].evals[0]
    if none:
        c.check(sand(*[eq(x, float(h)) for x, h in zip(v, hard)]), "value target without evaluation is not the result")
        c.cover("hard")
        return
    stage = 0 if n == 1 else k / (n - 1)
    t = lam * (1 - stage) if dyn else lam
    soft = elems(WR().eval_to_wld(ev))
    for x, h, s in zip(v, hard, soft):
        c.check(close(c, x, float(h) * (1 - t) + s * t), "value target is not the configured mix of result and evaluation")
    c.cover("soft")


def close(c, a, b):
    if c.symbolic:
        return eq(real(a), real(b))
    return abs(float(a) - float(b)) <= 1e-4 * max(1, abs(float(b)))


def mkpolicy(nv, tiers=("quick", "thorough")):
    @check.obligation(f"policy targets of {nv} variations", tiers=tiers, bounds="every move, pass and evaluation; two temperatures, mate flag, pass channel", covers=["single"] + (["multi"] if nv > 1 else []),
                      functions=["_setup_policy_target"], budget=300)
    def ob(c):
        P, D = repo("dataset.packed_binary"), repo("utils.data_utils")
        T = c.choose("T", [0.0, 0.05, 1.0])
        mate = bool(c.bool("mate"))
        hp = bool(c.bool("hp"))
        g = P.MoveData()
        for j in range(nv):
            # variations of one position are distinct moves
            g.moves.append(D.Move.PASS if bool(c.bool(f"p{j}")) else D.Move(c.int(f"x{j}", 0, B - 1), c.int(f"y{j}", 0, B - 1)))
            g.evals.append(None if bool(c.bool(f"n{j}")) else c.int(f"e{j}", -30000, 30000))
        mv = g.moves
        c.assume(sum(m.is_pass for m in mv) <= 1)
        for i in range(nv):
            for j in range(i):
                if not mv[i].is_pass and not mv[j].is_pass:
                    c.assume(snot(sand(eq(mv[i].x, mv[j].x), eq(mv[i].y, mv[j].y))))
        r = reader(P, multipv_temperature=T, use_mate_multipv=mate, has_pass_move=hp)
        pol = r._setup_policy_target((B, B), g)
        c.check(tuple(pol.shape) == ((B * B + 1,) if hp else (B, B)), "policy target shape")
        el = elems(pol)
        single = nv == 1 or T == 0.0 or any(x is None for x in g.evals) or (not mate and bool(g.evals[0] >= 29000))
        if single:
            w = [1.0] + [0.0] * (nv - 1)
            forms = [w]
            c.cover("single")
        else:
            W = WR()
            wr = [W.eval_to_winrate(x) for x in g.evals]
            forms = [softmax(c, wr, T)]
            c.cover("multi")
        goals = []
        for w in forms:
            cs = []
            for y in range(B):
                for x in range(B):
                    exp = 0.0
                    for m, p in zip(mv, w):
                        if not m.is_pass:
                            exp = ite(sand(eq(m.x, x), eq(m.y, y)), p, exp)
                    cs.append(close(c, el[y * B + x], exp))
            if hp:
                cs.append(close(c, el[-1], next((p for m, p in zip(mv, w) if m.is_pass), 0.0)))
            goals.append(sand(*cs))
        c.check(sor(*goals), "policy target is not the (softened) choice among the recorded moves")


def softmax(c, wr, T):
    if not c.symbolic:
        e = np.exp((np.array(wr) - max(wr)) / T)
        return [float(x) for x in e / e.sum()]
    from symx.symnp import real_uf
    m = wr[0]
    for w in wr[1:]:
        m = ite(w > m, w, m)
    ex = [real_uf("exp", real((w - m) / T)) for w in wr]
    for x in ex:
        c.assume(x > 0)
    s = ex[0]
    for x in ex[1:]:
        s = s + x
    return [x / s for x in ex]


mkpolicy(1)
mkpolicy(2)
mkpolicy(3, ("thorough",))


@check.obligation("samples of single positions", bounds="<= 4 stones, every stone, move and result, side fixed or relative", covers=["rel", "fixed"], functions=["SimpleBinaryDataset._prepare_data_from_entry"], budget=200)
def ob(c):
    S, D = repo("dataset.simple_binary"), repo("utils.data_utils")
    ply = int(c.int("ply", 0, 4))
    fixed = bool(c.bool("fixed"))
    result = c.choose("result", list(D.Result))
    pos = [mkmove(c, D, f"i{i}") for i in range(ply)]
    mv = mkmove(c, D, "m")
    with move_strings(c) as moves_of:
        d = S.SimpleBinaryDataset(file_list=[], rules={"standard"}, boardsizes={(B, B)}, fixed_side_input=fixed)._prepare_data_from_entry(result, ply, B, D.Rule.STANDARD, mv, list(pos))
        bl, wh, wtm = check_position(c, D, pos, d)
        first, second = (wh, bl) if wtm and not fixed else (bl, wh)
        c.check(sand(grid_eq(cells(d["board_input"], 0), first), grid_eq(cells(d["board_input"], 1), second)), "stones are not on the side the game put them")
        c.check(eq(val(d["stm_input"]), 1.0 if wtm else -1.0), "side to move differs from the game")
        c.check(sand(eq(d["ply"], ply), d["rule_index"] == 1), "ply or rule")
        win, loss, draw = float(result.value == 2), float(result.value == 0), float(result.value == 1)
        if fixed and wtm:
            win, loss = loss, win
        c.check(same([float(v) for v in elems(d["value_target"])], [win, loss, draw]), "value target differs from the recorded result")
        c.check(grid_eq(cells(d["policy_target"]), hot([pt(mv)], B, B)), "policy target is not the recorded move")
        got = moves_of(d["position_string"])
        c.check(len(got) == ply and sand(*[sand(eq(a[0], m.x), eq(a[1], m.y)) for a, m in zip(got, pos)]), "move string differs from the position")
    c.cover("fixed" if fixed else "rel")


# ------------------------------------------------------------------ the planned path (symmetry, padding)

def planned(c, mod, cls, ctx_kw, calls, **kw):
    """materialize_entry of the record source the dataset builds."""
    M, C = repo("dataset." + mod), repo("dataset.core")
    p = os.path.join(scratch(), f"empty_{mod}.bin")
    open(p, "ab").close()
    ds = getattr(M, cls)(file_list=[p], rules={"freestyle", "standard", "renju"}, boardsizes={(B, B)}, **kw)
    ds.runtime_context = C.DatasetRuntimeContext(2, 2, 1, 0, 77, "train")
    ds._build_partitioned_stream()

    def free(n, seed, domain, key, *a, **k):
        calls.append((n, seed, key))
        v = int(c.int(f"sym{len(calls)}", 0, n - 1))
        calls[-1] += (v,)
        return v, 1
    return M, ds._record_source, free


def mkplanned(fmt):
    @check.obligation(f"planned {fmt} samples are one board symmetry of the recorded position, then padded", bounds="2 stones, every symmetry of every kind, padded or not, side fixed or relative", covers=["pad", "nopad", "none"],
                      functions=["_build_partitioned_stream.materialize_entry", "process_sample"], budget=300)
    def ob(c):
        D = repo("utils.data_utils")
        kind = c.choose("kind", [False, True, "rotate", "flip", "flip_diag_rotate180"])
        pad = bool(c.bool("pad"))
        fixed = bool(c.bool("fixed"))
        hp = fmt == "packed" and bool(c.bool("hp"))
        calls = []
        kw = dict(apply_symmetry=kind, fixed_board_size=(B + 2, B + 2) if pad else None, fixed_side_input=fixed)
        if fmt == "packed":
            M, src, free = planned(c, "packed_binary", "PackedBinaryDataset", None, calls, has_pass_move=hp, **kw)
        else:
            M, src, free = planned(c, "simple_binary", "SimpleBinaryDataset", None, calls, **kw)
        stones = [mkmove(c, D, f"i{i}") for i in range(2 if not fixed else 1)]
        best = mkmove(c, D, "m", may_pass=hp)
        with move_strings(c) as moves_of, patched(M, "uniform_below", free):
            if fmt == "packed":
                e = M.EntryData(B, D.Rule.RENJU, D.Result.WIN, 3, 0, list(stones))
                g = M.MoveData()
                g.moves, g.evals = [best], [None]
                e.moves = [g]
                d = src.materialize_entry(e, ("key",), 9, 0)
            else:
                d = src.materialize_entry((D.Result.WIN, len(stones), B, D.Rule.RENJU, best, list(stones)), ("key",), 9)
        if kind:
            names = names_for(kind, B, B)
            c.check(len(calls) == 1 and calls[0][0] == len(names), "one symmetry is drawn among those of the configured kind")
            c.check(calls[0][1] == 77 and 9 in calls[0][2] and ("key",) in calls[0][2], "the symmetry does not depend on seed, epoch and record")
            name = names[calls[0][3]]
        else:
            c.check(not calls, "a symmetry was drawn without being configured")
            name = "IDENTITY"
            c.cover("none")
        H = B + 2 if pad else B
        f = lambda g: padded(moved_grid(name, g), H, H)
        wtm = len(stones) % 2 == 1
        bl, wh, _ = check_position(c, D, stones, d)
        c.check(sand(grid_eq(cells(d["board_input"], 0), f(bl)), grid_eq(cells(d["board_input"], 1), f(wh))), "board is not the symmetric image of the recorded position")
        el = elems(d["policy_target"])
        exp = f(hot([] if best.is_pass else [pt(best)], B, B))
        c.check(tuple(d["policy_target"].shape) == ((H * H + 1,) if hp else (H, H)), "policy shape")
        c.check(sand(*[eq(el[y * H + x], exp[y][x]) for y in range(H) for x in range(H)]), "policy is not the symmetric image of the recorded move")
        if hp:
            c.check(eq(el[-1], 1.0 if best.is_pass else 0.0), "pass channel")
        w = [float(v) for v in elems(d["value_target"])]
        c.check(w == ([0.0, 1.0, 0.0] if fixed and wtm else [1.0, 0.0, 0.0]), "value target")
        got = moves_of(d["position_string"])
        c.check(len(got) == len(stones), "length of the move string")
        im = [MAPS[name](m.x, m.y, B, B) for m in stones]
        c.check(sand(*[sand(eq(a[0], m[0]), eq(a[1], m[1])) for a, m in zip(got, im)]), "move string does not describe the transformed board")
        lm = elems(d["last_move"])
        c.check(sand(eq(lm[0], im[-1][0]), eq(lm[1], im[-1][1])), "last move is not on the transformed board")
        c.check(same([int(v) for v in elems(d["board_size"])], [B, B]), "board size")
        c.cover("pad" if pad else "nopad")


mkplanned("packed")
mkplanned("simple")


if __name__ == "__main__":
    check.main()
