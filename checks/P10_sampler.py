import os, sys, types, pickle
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *

check = Check("P10", "resumable sampler", assumptions=[
    "torch.randperm is a free permutation for every generator seed (equal seeds give equal permutations)",
    "dataset length < 2**40, <= 4 ranks; <= 5 operations per history",
])


class Data:
    def __init__(self, n):
        self.n = n


class Gen:
    def manual_seed(self, s):
        self.s = s
        return self


class Perm:
    """A free permutation: position -> index, created lazily."""

    def __init__(self, c, tag, n):
        self.c, self.tag, self.n, self.t = c, tag, n, {}

    def __getitem__(self, i):
        i = int(i)
        if i not in self.t:
            v = self.c.zint(f"perm_{self.tag}_{i}", 0, 1 << 41)
            self.c.assume(v < self.n)
            for w in self.t.values():
                self.c.assume(v != w)
            self.t[i] = v
        return self.t[i]

    def tolist(self):
        return self


@contextlib.contextmanager
def world(c):
    T = repo("utils.training_utils")
    perms, seeds = [], []

    def randperm(n, generator=None):
        key = generator.s
        seeds.append(key)
        for k, p in perms:
            if bool(eq(k, key)):
                return p
        perms.append((key, Perm(c, len(perms), n)))
        return perms[-1][1]
    real = T.torch
    T.torch = types.SimpleNamespace(Generator=Gen, randperm=randperm)
    T.len = lambda x: x.n if isinstance(x, Data) else __import__("builtins").len(x)
    T.range = lambda *a: R(*a) if len(a) == 1 else __import__("builtins").range(*a)
    try:
        yield T, perms, seeds
    finally:
        T.torch = real
        del T.len, T.range


class R:
    def __init__(self, n):
        self.n = n

    def __getitem__(self, i):
        if not bool(sand(i >= 0, i < self.n)):
            raise IndexError("range")
        return i


def mk(T, n, shuffle=False, seed=11, rank=0, W=1):
    return T.ResumableSampler(Data(n), shuffle=shuffle, seed=seed, rank=rank, world_size=W)


@check.obligation("ranks split an epoch into disjoint equal shares (in order)", bounds="any length < 2**40, 1..4 ranks, any two positions", covers=["done"], functions=["__iter__", "local_length", "__len__"])
def ob(c):
    with world(c) as (T, perms, seeds):
        n = c.zint("n", 0, 1 << 40)
        W = int(c.int("W", 1, 4))
        out = []
        loc = n // W
        for t in range(2):
            r = int(c.int(f"r{t}", 0, W - 1))
            o = c.zint(f"o{t}", 0, 1 << 40)
            s = mk(T, n, rank=r, W=W)
            c.check(eq(s.local_length, loc), "local share is not the floor of the length over the ranks")
            s._yielded_offset = o
            c.check(eq(s.__len__(), ite(o < loc, loc - o, 0)), "remaining length is wrong")
            try:
                i = next(iter(s))
            except StopIteration:
                c.check(o >= loc, "the share ends early")
                return
            c.check(sand(o < loc, i >= 0, i < n), "index outside the dataset")
            c.check(eq(s._yielded_offset, o + 1), "position does not advance by one")
            out.append((r, o, i))
        (r0, o0, i0), (r1, o1, i1) = out
        c.check(simplies(eq(i0, i1), sand(r0 == r1, eq(o0, o1))), "one record is drawn at two positions")
        if r0 == r1:
            c.check(simplies(o0 < o1, i0 < i1), "unshuffled order is not increasing")
        c.cover("done")


@check.obligation("shuffled epochs draw the permutation of their own epoch without repetition", bounds="length 0..5, 1..3 ranks, any seed and epoch, all permutations", covers=["done"],
                  functions=["__iter__"])
def ob(c):
    with world(c) as (T, perms, seeds):
        n = int(c.int("n", 0, 5))
        W = int(c.int("W", 1, 3))
        seed, ep = c.zint("seed", 0, 1 << 62), c.zint("epoch", 0, 1 << 40)
        got = []
        for r in range(W):
            s = T.ResumableSampler(Data(n), shuffle=True, seed=0, rank=r, world_size=W)
            s.seed = seed
            s._yield_epoch = ep
            g = list(iter(s))
            c.check(len(g) == n // W, "share length")
            got.append(g)
            if seeds:
                c.check(eq(seeds[-1], seed + ep), "permutation does not belong to seed and epoch")
        flat = [x for g in got for x in g]
        for i in range(len(flat)):
            for j in range(i):
                c.check(flat[i] != flat[j], "a record is drawn twice in an epoch")
        # interruption: a fresh sampler positioned in the middle continues the same draw
        if n // W >= 2:
            k = int(c.int("k", 1, n // W - 1))
            s = T.ResumableSampler(Data(n), shuffle=True, seed=0, rank=0, world_size=W)
            s.seed = seed
            s._yield_epoch = ep
            s._yielded_offset = k
            c.check(same(list(iter(s)), got[0][k:]), "a restored position draws other records")
        c.cover("done")


OPS = ["deliver", "epoch", "commit", "crash", "rollback"]


def mkhist(fixed, steps, tiers):
    @check.obligation(f"every history of {steps} operations starting with {','.join(fixed)} resumes at the last committed batch", tiers=tiers,
                      bounds=f"length < 2**40, 1..2 ranks, batch sizes < 2**40, {steps} operations, read-ahead of any size", covers=["done"] if fixed[0] == "deliver" else ["op"], budget=600, max_paths=400000,
                      functions=["stage_batch", "prepare_commit", "commit_prepared", "rollback_uncommitted", "state_dict", "load_state_dict", "advance_yield_epoch"])
    def ob(c):
        history(c, steps, fixed)


for _o in OPS:
    mkhist(["deliver", _o], 5, ("quick",))
    mkhist(["deliver", _o], 6, ("thorough",))
    if _o != "deliver":
        mkhist([_o], 4, ("quick", "thorough"))


for _h in (["deliver", "commit", "deliver", "epoch", "deliver", "rollback", "deliver", "commit"],
           ["deliver", "commit", "deliver", "epoch", "deliver", "crash", "deliver", "commit"],
           ["deliver", "deliver", "commit", "epoch", "deliver", "commit", "rollback", "deliver"],
           ["deliver", "epoch", "deliver", "epoch", "deliver", "commit", "rollback", "deliver"],
           ["deliver", "epoch", "deliver", "commit", "deliver", "rollback", "deliver", "rollback", "deliver"]):
    mkhist(_h, len(_h), ("quick", "thorough"))


def history(c, steps, fixed=()):
    with world(c) as (T, perms, seeds):
        n = c.zint("n", 1, 1 << 40)
        W = int(c.int("W", 1, 2))
        loc = n // W
        c.assume(loc >= 1)
        s = mk(T, n, shuffle=True, rank=W - 1, W=W)
        s.load_state_dict(dict(mk(T, n, shuffle=True, rank=W - 1, W=W).state_dict(), epoch=5))
        com, stg, yld = (5, 0), (5, 0), (5, 0)     # committed / staged / yielded position
        toks = []
        for i in range(steps):
            op = fixed[i] if i < len(fixed) else c.choose(f"op{i}", OPS)
            c.cover("op")
            if op == "deliver":
                k = c.zint(f"k{i}", 1, 1 << 40)
                # the loader pulls some records, possibly ahead of what it hands over
                adv = c.zint(f"a{i}", 0, 1 << 40)
                c.assume(yld[1] + adv <= loc)
                s._yielded_offset = s._yielded_offset + adv
                yld = (yld[0], yld[1] + adv)
                base = stg if stg[0] == yld[0] else (yld[0], 0)
                avail = loc - base[1]
                d = ite(k < avail, k, avail)
                ok = sand(d >= 1, base[1] + d <= yld[1], yld[0] - stg[0] <= 1)
                try:
                    t = s.stage_batch(k)
                except RuntimeError:
                    c.check(snot(ok), "a deliverable batch was refused")
                    c.cover("done")
                    return
                c.check(ok, "a batch was staged that was never drawn")
                c.check(sand(eq(t.before_epoch, stg[0]), eq(t.before_offset, stg[1])), "batch token does not start at the previous batch's end")
                stg = (base[0], base[1] + d)
                c.check(sand(eq(t.after_epoch, stg[0]), eq(t.after_offset, stg[1])), "batch token does not end after the batch")
                toks.append((t, stg))
            elif op == "epoch":
                try:
                    s.advance_yield_epoch()
                except RuntimeError:
                    c.check(yld[1] < loc, "a finished epoch could not advance")
                    return
                c.check(yld[1] >= loc, "an unfinished epoch advanced")
                yld = (yld[0] + 1, 0)
                c.cover("epoch")
            elif op == "commit":
                m = int(c.int(f"m{i}", 0, 2))
                if m > len(toks):
                    return
                skip = int(c.int(f"skip{i}", 0, 1)) if len(toks) > m else 0
                use = [t for t, _ in toks[skip:skip + m]]
                if m == 0:
                    expect_error(c, lambda: s.prepare_commit([]), (ValueError,), "an empty commit was accepted")
                    return
                before = s.state_dict()
                try:
                    p = s.prepare_commit(use)
                    c.check(same(s.state_dict(), before), "preparing a commit changes state")
                    s.commit_prepared(p)
                except RuntimeError:
                    c.check(skip == 1, "a contiguous commit was refused")
                    c.check(same(s.state_dict(), before), "a refused commit changes state")
                    return
                c.check(skip == 0, "a commit with a gap was accepted")
                com = toks[m - 1][1]
                toks = toks[m:]
                expect_error(c, lambda: s.commit_prepared(p), (RuntimeError,), "a commit was applied twice") if bool(snot(sand(eq(p.before_epoch, p.after_epoch), eq(p.before_offset, p.after_offset)))) else None
                c.cover("commit")
            else:
                if op == "crash":
                    st = s.state_dict()
                    s2 = mk(T, n, shuffle=True, rank=W - 1, W=W)
                    s2.load_state_dict(st)
                    c.check(same(s2.state_dict(), st), "restored state saves differently")
                    s = s2
                    c.cover("restore")
                else:
                    s.rollback_uncommitted()
                stg, yld, toks = com, com, []
            st = s.state_dict()
            c.check(sand(eq(st["epoch"], com[0]), eq(st["offset"], com[1])), "saved position is not the last committed batch")
            c.check(sand(eq(s._yield_epoch, yld[0]), eq(s._yielded_offset, yld[1])), "the next record drawn is not the next position", detail=lambda: op)
        c.cover("done")


@check.obligation("checkpoints of another dataset, seed, order or rank are refused", bounds="any length/seed < 2**40, rank, world <= 3, offset, version 0..3", covers=["ok", "bad", "legacy"], functions=["load_state_dict", "__init__"], budget=200)
def ob(c):
    with world(c) as (T, perms, seeds):
        n = c.zint("n", 0, 1 << 40)
        W = int(c.int("W", 1, 2))
        r = int(c.int("r", 0, W - 1))
        sh = bool(c.bool("sh"))
        s = mk(T, n, shuffle=sh, seed=11, rank=r, W=W)
        ver = int(c.int("ver", 0, 3))
        st = {"version": ver, "length": c.zint("length", 0, 1 << 40), "shuffle": bool(c.bool("sh2")), "seed": c.zint("seed", 0, 40), "epoch": c.zint("ep", 0, 1 << 40), "offset": c.zint("off", -3, 1 << 40)}
        base = sand(eq(st["length"], n), st["shuffle"] == sh, eq(st["seed"], 11), st["offset"] >= 0, st["offset"] <= n // W)
        if ver != 1:
            st["world_size"], st["rank"] = c.zint("w2", 1, 3), c.zint("r2", 0, 2)
            base = sand(base, eq(st["world_size"], W), eq(st["rank"], r), ver == 2)
        else:
            base = sand(base, W == 1)
        before = s.state_dict()
        try:
            s.load_state_dict(st)
        except RuntimeError:
            c.check(snot(base), "a matching checkpoint was refused")
            c.check(same(s.state_dict(), before), "a refused checkpoint changes state")
            c.cover("bad")
            return
        c.check(base, "a foreign checkpoint was accepted")
        o = s.state_dict()
        c.check(sand(eq(o["epoch"], st["epoch"]), eq(o["offset"], st["offset"]), eq(s._yield_epoch, st["epoch"]), eq(s._yielded_offset, st["offset"])), "restored position differs")
        c.cover("legacy" if ver == 1 else "ok")
        for bad in ((0, 0), (-1, 2), (2, 2)):
            expect_error(c, lambda: mk(T, 3, rank=bad[0], W=bad[1]), (ValueError,), "invalid rank accepted")


if __name__ == "__main__":
    check.main()
