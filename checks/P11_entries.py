import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *

check = Check("P11", "binary game records", assumptions=[
    "ctypes bit-field structures are read with the layout CPython reports for the classes the code declares (replays use real ctypes)",
    "packed entries: <= 3 opening stones and <= 3 moves; simple entries: <= 4 stones; every header and payload bit otherwise free",
])
RULES = {0: "freestyle", 1: "standard", 4: "renju"}


def le(b, o, n):
    v = b[o]
    for i in range(1, n):
        v = v | (b[o + i] << (8 * i))
    return v


def bits(v, lo, n):
    return (v >> lo) & ((1 << n) - 1)


def packed_spec(b):
    """The packed record layout, written from the file format."""
    w0, w1 = le(b, 0, 4), le(b, 4, 4)
    return dict(boardSize=bits(w0, 0, 5), rule=bits(w0, 5, 3), result=bits(w0, 8, 4), totalPly=bits(w0, 12, 10), initPly=bits(w0, 22, 10),
                gameTag=bits(w1, 0, 14), moveCount=bits(w1, 14, 18))


def move_spec(b, o):
    w, e = le(b, o, 2), le(b, o + 2, 2)
    return dict(first=bits(w, 0, 1), last=bits(w, 1, 1), noeval=bits(w, 2, 1), isp=bits(w, 3, 1), move=bits(w, 6, 10), eval=ite(e >= 32768, e - 65536, e))


def packed_bytes(c, ip, mc, extra=0, name="b", result=None):
    b = sym_bytes(c, name, 8 + 2 * ip + 4 * mc + extra)
    h = packed_spec(b)
    c.assume(h["initPly"] == ip)
    c.assume(h["moveCount"] == mc)
    if result is None:
        c.assume(sor(*[h["rule"] == r for r in RULES]))
        c.assume(h["result"] <= 2)
    else:
        c.assume(sand(h["rule"] == 4, h["result"] == result))
    return b


def same_move(m, w):
    return sand(eq(m.x, bits(w, 5, 5)), eq(m.y, bits(w, 0, 5)))


def groups_of(b, ip, mc):
    """[[move specs]] or None when a group does not begin with isFirst"""
    out, ended = [], True
    for i in range(mc):
        m = move_spec(b, 8 + 2 * ip + 4 * i)
        if ended:
            if not bool(m["first"] == 1):
                return None
            out.append([])
        out[-1].append(m)
        ended = bool(m["last"] == 1)
    return out


def check_packed(c, e, b, ip, mc, gs):
    h = packed_spec(b)
    c.check(sand(eq(e.boardsize, h["boardSize"]), eq(e.totalply, h["totalPly"]), eq(e.gametag, h["gameTag"]), eq(e.result.value, h["result"]), eq(e.rule.value, h["rule"])),
            "header field differs from the record")
    c.check(len(e.init_position) == ip, "opening length")
    for i, m in enumerate(e.init_position):
        c.check(same_move(m, le(b, 8 + 2 * i, 2)), "opening move differs from the record")
    c.check(len(e.moves) == len(gs), "number of move groups differs from the record")
    for md, g in zip(e.moves, gs):
        c.check(len(md) == len(g), "size of a move group differs from the record")
        for j, s in enumerate(g):
            mv, ev = md[j]
            if bool(s["isp"] == 1):
                c.check(bool(mv.is_pass), "pass move not recognised")
                c.cover("pass")
            else:
                c.check(same_move(mv, s["move"]), "move differs from the record")
            if bool(s["noeval"] == 1):
                c.check(ev is None, "missing evaluation reported as a value")
            else:
                c.check(ev is not None and eq(ev, s["eval"]), "evaluation differs from the record")


def mkpacked(ip, mc, tiers):
    @check.obligation(f"packed game with {ip} opening stones and {mc} moves decodes to its record", bounds="every header and payload bit (rule and result codes fixed from two elements on)", covers=["ok"] + (["bad"] if mc else []), tiers=tiers,
                      functions=["read_entry", "read_raw_entry", "decode_raw_entry", "raw_entry_metadata", "MoveData._append_entry_move"], budget=300)
    def ob(c):
        P = repo("dataset.packed_binary")
        b = packed_bytes(c, ip, mc, result=2 if ip + mc >= 2 else None)
        tail = sym_bytes(c, "t", 2)
        s = SymStream(b + tail, None)
        raw = P.read_raw_entry(s)
        c.check(sand(len(raw) == len(b), same(raw, b)), "the raw record is not the bytes of the record")
        c.check(s.tell() == len(b), "reading a record does not stop at its end")
        gs = groups_of(b, ip, mc)
        f = [lambda: P.decode_raw_entry(raw), lambda: P.read_entry(SymStream(b + tail, None)), lambda: P.raw_entry_metadata(raw)]
        if gs is None:
            for g in f:
                expect_error(c, g, (RuntimeError,), "a move group without a first move was accepted")
            c.cover("bad")
            return
        check_packed(c, f[0](), b, ip, mc, gs)
        e2 = f[1]()
        check_packed(c, e2, b, ip, mc, gs)
        bs, rule, n = f[2]()
        h = packed_spec(b)
        c.check(eq(bs, h["boardSize"]), "metadata board size differs")
        c.check(rule == str(e2.rule) and rule == RULES[e2.rule.value], "metadata rule differs")
        c.check(eq(n, len(gs)), "metadata counts other groups than the decoded game has")
        c.cover("ok")


for ip in range(3):
    for mc in range(3):
        mkpacked(ip, mc, ("quick", "thorough"))
mkpacked(1, 3, ("quick", "thorough"))
mkpacked(3, 3, ("thorough",))
mkpacked(0, 4, ("thorough",))
mkpacked(5, 1, ("thorough",))


@check.obligation("a packed record cut anywhere or read in pieces", bounds="<= 2 opening stones, <= 2 moves, every cut, every split of the reads", covers=["cut", "full"], functions=["read_raw_entry", "_read_exact_bytes", "_readinto_exact"], budget=300)
def ob(c):
    P = repo("dataset.packed_binary")
    ip, mc = int(c.int("ip", 0, 2)), int(c.int("mc", 0, 2))
    b = packed_bytes(c, ip, mc, result=1)
    cut = int(c.int("cut", 0, len(b)))
    k = [0]

    def chunk(want):
        k[0] += 1
        return int(c.int(f"k{k[0]}", 1, want)) if k[0] <= 2 and cut == len(b) else want
    s = SymStream(b[:cut], chunk)
    if cut < len(b):
        expect_error(c, lambda: P.read_raw_entry(s), (EOFError,), "a truncated record was returned")
        expect_error(c, lambda: P.read_entry(SymStream(b[:cut])), (EOFError, RuntimeError) if mc else (EOFError,), "a truncated record was decoded")
        if cut >= 0:
            expect_error(c, lambda: P.raw_entry_metadata(b[:cut]), (RuntimeError,), "metadata of a truncated record")
        c.cover("cut")
        return
    raw = P.read_raw_entry(s)
    c.check(same(raw, b), "a record read in pieces differs")
    c.cover("full")


@check.obligation("extra bytes after a packed or simple record are refused", bounds="<= 1 opening stone, <= 1 move, 1..2 extra bytes", covers=["ok"], functions=["decode_raw_entry", "raw_entry_metadata"], budget=200)
def ob(c):
    P, S = repo("dataset.packed_binary"), repo("dataset.simple_binary")
    x = int(c.int("x", 1, 2))
    ip, mc = int(c.int("ip", 0, 1)), int(c.int("mc", 0, 1))
    b = packed_bytes(c, ip, mc, x, result=0)
    for f in (P.decode_raw_entry, P.raw_entry_metadata):
        expect_error(c, lambda: f(b), (RuntimeError,), "trailing bytes accepted")
    b = simple_bytes(c, ip, x)
    expect_error(c, lambda: S.decode_raw_entry(b), (RuntimeError,), "trailing bytes accepted")
    c.cover("ok")


@check.obligation("invalid rule or result codes are reported", bounds="every rule and result code, board size free, empty game", covers=["badrule", "badresult"], functions=["read_entry", "raw_entry_metadata"])
def ob(c):
    P, S = repo("dataset.packed_binary"), repo("dataset.simple_binary")
    b = sym_bytes(c, "b", 8)
    h = packed_spec(b)
    c.assume(sand(h["initPly"] == 0, h["moveCount"] == 0))
    okr = sor(*[h["rule"] == r for r in RULES])
    try:
        P.decode_raw_entry(b)
        c.check(sand(okr, h["result"] <= 2), "an unknown rule or result was decoded")
    except ValueError:
        c.check(snot(sand(okr, h["result"] <= 2)), "a valid record was refused")
        c.cover("badresult")
    try:
        P.raw_entry_metadata(b)
        c.check(okr, "metadata accepted an unknown rule")
    except ValueError:
        c.check(snot(okr), "metadata refused a valid record")
        c.cover("badrule")


# ------------------------------------------------------------------ simple format

def simple_spec(b):
    w0, w1 = le(b, 0, 2), le(b, 2, 2)
    return dict(result=bits(w0, 0, 2), ply=bits(w0, 2, 9), boardsize=bits(w0, 11, 5), rule=bits(w1, 0, 3), move=bits(w1, 3, 13))


def simple_bytes(c, ply, extra=0, name="s"):
    b = sym_bytes(c, name, 4 + 2 * ply + extra)
    h = simple_spec(b)
    c.assume(h["ply"] == ply)
    c.assume(sor(*[h["rule"] == r for r in RULES]))
    c.assume(h["result"] <= 2)
    return b


@check.obligation("simple records decode to their bytes", bounds="<= 4 stones, every other bit free", covers=["ok"], functions=["read_entry", "read_raw_entry", "decode_raw_entry", "raw_entry_shape"], budget=300)
def ob(c):
    S = repo("dataset.simple_binary")
    ply = int(c.int("ply", 0, 4))
    b = simple_bytes(c, ply)
    tail = sym_bytes(c, "t", 2)
    s = SymStream(b + tail, None)
    raw = S.read_raw_entry(s)
    c.check(sand(len(raw) == len(b), same(raw, b)), "the raw record is not the bytes of the record")
    c.check(s.tell() == len(b), "reading a record does not stop at its end")
    h = simple_spec(b)
    s2 = SymStream(b + tail, None)
    for e in (S.decode_raw_entry(raw), S.read_entry(s2)):
        result, p, bs, rule, move, pos = e
        c.check(sand(eq(result.value, h["result"]), eq(p, ply), eq(bs, h["boardsize"]), eq(rule.value, h["rule"]), same_move(move, h["move"])), "header field differs from the record")
        c.check(len(pos) == ply, "position length")
        for i, m in enumerate(pos):
            c.check(same_move(m, le(b, 4 + 2 * i, 2)), "stone differs from the record")
    c.check(s2.tell() == len(b), "decoding does not stop at the record's end")
    bs, rule = S.raw_entry_shape(raw)
    c.check(sand(eq(bs, h["boardsize"]), rule == RULES[e[3].value]), "record metadata differs from the record")
    c.cover("ok")


@check.obligation("a simple record cut anywhere or read in pieces", bounds="<= 2 stones, every cut, every split of the payload reads", covers=["cut", "full"], functions=["read_raw_entry", "_readinto_exact"], budget=300)
def ob(c):
    S = repo("dataset.simple_binary")
    ply = int(c.int("ply", 0, 2))
    b = simple_bytes(c, ply)
    cut = int(c.int("cut", 0, len(b)))
    k = [0]

    def chunk(want):
        k[0] += 1
        return want if k[0] == 1 or k[0] > 3 else int(c.int(f"k{k[0]}", 1, want))
    s = SymStream(b[:cut], chunk)
    if cut < len(b):
        expect_error(c, lambda: S.read_raw_entry(s), (EOFError,), "a truncated record was returned")
        expect_error(c, lambda: S.read_entry(SymStream(b[:cut])), (EOFError,), "a truncated record was decoded")
        if cut < 4:
            expect_error(c, lambda: S.raw_entry_shape(b[:cut]), (RuntimeError,), "metadata of a truncated record")
        c.cover("cut")
        return
    c.check(same(S.read_raw_entry(s), b), "a record read in pieces differs")
    c.cover("full")


if __name__ == "__main__":
    check.main()
