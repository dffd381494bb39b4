import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *

check = Check("P01", "random draws", assumptions=[
    "the keyed hash is an uninterpreted function of its exact message bytes: every digest value is possible",
    "rejection loops are unrolled up to the stated number of hash words; longer rejections are outside",
])
I64 = (-(1 << 63), (1 << 63) - 1)
NS = [1, 2, 3, 5, 6, 7, 8, 10, 12, 100, 255, 1000, 65535, (1 << 31) - 1, (1 << 32) + 1, (1 << 63) - 1, (1 << 63) + 1, (1 << 64) - 1, 1 << 64]


def keyargs(c):
    return dict(seed=c.int("seed", *I64), a=c.int("a", *I64), b=c.int("b", *I64))


def mk_uniform(n):
    @check.obligation(f"uniform_below n={n}", bounds="all 64-bit seeds, keys, counters; <= 3 hash words per draw",
                      functions=["uniform_below", "rng_u64", "rng_digest", "_tlv"], covers=["accepted"])
    def ob(c):
        core = repo("dataset.core")
        k = keyargs(c)
        counter = c.int("counter", 0, (1 << 62))
        words = []

        def word():
            # every 64-bit word, written as q*n + r so that division is linear
            if len(words) >= 3:
                raise PathInfeasible()
            i = len(words)
            w = c.zint(f"q{i}", 0, ((1 << 64) - 1) // n) * n + c.zint(f"r{i}", 0, n - 1)
            c.assume(w < (1 << 64))
            words.append(w)
            return w
        with hash_words(c, word):
            v, nxt = core.uniform_below(n, k["seed"], "dom", (k["a"], "x", k["b"]), counter)
        c.cover("accepted")
        c.check(sand(v >= 0, v < n), "draw outside [0, n)")
        c.check(nxt == counter + len(words), "counter does not advance by the number of words consumed")
        c.check(v == words[-1] % n, "draw is not the accepted word reduced modulo n")
        # every residue class is equally likely: the accepted words are closed under changing the residue
        r = c.zint("residue", 0, n - 1)
        sibling = words[-1] // n * n + r
        c.check(sibling < (1 << 64), "accepted words do not form complete residue classes (biased draw)")
        seq = [sibling]

        def replay():
            if not seq:
                c.fail("a word in the same complete class was rejected (biased draw)")
            return seq.pop()
        with hash_words(c, replay):
            v2, _ = core.uniform_below(n, k["seed"], "dom", (k["a"],), counter)
        c.check(v2 == r, "sibling word does not give its own residue")


for _n in NS:
    mk_uniform(_n)


def mk_same(n):
    @check.obligation(f"shared-prefix draw == plain draw n={n}", bounds="all 64-bit seeds/keys/counters, <= 3 words",
                      functions=["_counter_rng_base", "_uniform_below_from_base", "uniform_below"], covers=["done"])
    def ob(c):
        core = repo("dataset.core")
        k = keyargs(c)
        counter = c.int("counter", 0, (1 << 62))
        key = (k["a"], "x", (k["b"], None, True), b"\x01\x02")
        with hash_mode("uf", 6):
            v1, n1 = core.uniform_below(n, k["seed"], "dom", key, counter)
            base = core._counter_rng_base(k["seed"], "dom", key)
            v2, n2 = core._uniform_below_from_base(n, base, counter)
        c.cover("done")
        c.check(sand(v1 == v2, n1 == n2), "draw from a shared prefix differs from the plain draw")

    @check.obligation(f"per-sample draws == plain draws n={n}", bounds="2 samples, 64-bit symbolic addresses, <= 3 words each",
                      functions=["_uniform_below_for_processed_sample_keys", "uniform_below"], covers=["done"])
    def ob2(c):
        core = repo("dataset.core")
        k = keyargs(c)
        epoch = c.int("epoch", 0, (1 << 63) - 1)
        occ = c.int("occ", 0, (1 << 63) - 1)
        keys = [("root", b"D" * 4, "npz-row", (k["a"],)), ("root", b"D" * 4, "npz-row", (k["a"], k["b"])),
                ("sub", b"E" * 4, "npz-row", (k["b"],))]
        pick = c.choose("pick", [(0,), (1,), (2,), (0, 1), (1, 0), (0, 2), (0, 0)])
        sel = [keys[i] for i in pick]
        with hash_mode("uf", 6):
            got = core._uniform_below_for_processed_sample_keys(n, k["seed"], "sym", epoch, sel, occ)
            for g, s in zip(got, sel):
                w, _ = core.uniform_below(n, k["seed"], "sym", (epoch, s, occ))
                c.check(g == w, "batched per-sample draw differs from the plain per-sample draw")
        c.check(len(got) == len(sel), "one draw per sample")
        c.cover("done")


for _n in (1, 3, 8, 1000, (1 << 63) + 1):
    mk_same(_n)


for _n in (1, 2, 8):
    @check.obligation(f"packed row draws == per-key draws n={_n}", n=_n,
                      bounds="3 rows over 2 files, 63-bit symbolic rows, symbolic epoch/seed/occurrence",
                      functions=["_uniform_below_for_packed_processed_rows_v2", "_uniform_below_for_processed_sample_keys_v2"],
                      covers=["done"])
    def ob(c, n):
        core = repo("dataset.core")
        seed = c.int("seed", *I64)
        epoch = c.int("epoch", 0, (1 << 63) - 1)
        occ = c.int("occ", 0, (1 << 63) - 1)
        rows = c.ints("row", 3, 0, (1 << 63) - 1)
        files = c.choose("files", [[0, 1, 0], [1, 0, 1], [0, 0, 0], [1, 1, 0]])
        digests = (b"A" * 4, b"B" * 4)
        keys = [("root", digests[f], "npz-row", (r,)) for f, r in zip(files, rows)]
        with hash_mode("uf"):
            one = core._uniform_below_for_processed_sample_keys_v2(n, seed, "sym", epoch, keys, occ)
            single = [core._uniform_below_for_processed_sample_keys_v2(n, seed, "sym", epoch, [k], occ)[0] for k in keys]
            two = core._uniform_below_for_packed_processed_rows_v2(
                n, seed, "sym", epoch, digests, np.array(files), arr(c, rows, np.uint64), occ)
        two = elems(two)
        for a, b, s in zip(one, two, single):
            c.check(sand(a == b, a == s), "packed, batched and single per-row draws differ")
            c.check(sand(a >= 0, a < n), "draw outside [0, n)")
        c.cover("done")

# ----------------------------------------------------------------------- permutations

for _len in (0, 1, 2, 3, 4, 5):
    @check.obligation(f"permutation length {_len}", length=_len, bounds="every sequence of hash words below lcm(2..length)",
                      functions=["deterministic_permutation"], covers=["done"])
    def ob(c, length):
        core = repo("dataset.core")
        seed = c.int("seed", *I64)
        words = []

        def word():
            # words in the first complete residue block: one per value of j at every step
            w = c.int(f"w{len(words)}", 0, TOTAL[length] - 1)
            words.append(w)
            return w
        with hash_words(c, word):
            p = core.deterministic_permutation(length, seed, "d", (1,))
        c.check(sorted(p) == list(range(length)), "not a permutation")
        c.cover("done")

TOTAL = {0: 1, 1: 1, 2: 2, 3: 6, 4: 12, 5: 60}


@check.obligation("permutations equally likely", bounds="length 3, 4: every pair of draw-index sequences",
                  functions=["deterministic_permutation"], covers=["differ"])
def ob(c):
    core = repo("dataset.core")
    length = c.choose("length", [2, 3, 4])
    outs, seqs = [], []
    for t in range(2):
        words = []

        def word():
            k = len(words)
            n = length - k            # the k-th draw chooses among the unfixed positions
            if n < 2:
                c.fail("more draws than positions")
            w = c.int(f"j{t}_{k}", 0, n - 1)
            words.append(int(w))
            return words[-1]
        with hash_words(c, word):
            outs.append(core.deterministic_permutation(length, 7, "d", (1,)))
        seqs.append(words)
    c.check(len(seqs[0]) == length - 1, "the draws do not index all permutations exactly once (biased shuffle)")
    if seqs[0] != seqs[1]:
        c.cover("differ")
        c.check(outs[0] != outs[1], "two draw sequences give the same permutation (biased shuffle)")
    else:
        c.check(outs[0] == outs[1], "same draws, different permutation")

# ----------------------------------------------------------------------- admission

@check.obligation("sample admission threshold", bounds="every hash word, every rate pair in [0,1] (exact reals)",
                  functions=["sample_is_admitted"], covers=["in", "out"])
def ob(c):
    core = repo("dataset.core")
    u = c.int("u", 0, (1 << 64) - 1)
    r1, r2 = c.real("r1", 0, 1), c.real("r2", 0, 1)
    with hash_words(c, lambda: u):
        a1 = core.sample_is_admitted(r1, 1, 0, ("k",))
        a2 = core.sample_is_admitted(r2, 1, 0, ("k",))
        z = core.sample_is_admitted(0.0, 1, 0, ("k",))
        o = core.sample_is_admitted(1.0, 1, 0, ("k",))
    c.check(z is False or z == False, "rate 0 admits a sample")  # noqa
    c.check(o == True, "rate 1 drops a sample")  # noqa
    c.check(simplies(sand(r1 <= r2, a1), a2), "admission is not monotone in the rate")
    if c.symbolic:
        c.check(eq(a1, sor(sand(r1 > 0, r1 < 1, u < r1 * (1 << 64)), r1 >= 1)), "admission is not word < rate * 2**64")
    if bool(a1):
        c.cover("in")
    else:
        c.cover("out")

for _r in (-0.5, 1.5):
    @check.obligation(f"invalid rate {_r} rejected", r=_r, bounds="", functions=["sample_is_admitted"])
    def ob(c, r):
        core = repo("dataset.core")
        expect_error(c, lambda: core.sample_is_admitted(r, 1, c.int("e", 0, 5), ("k",)), ValueError, "rate accepted")
        c.check(True, "")

# ----------------------------------------------------------------------- key encoding

def shapes(c, p):
    """Key shapes with symbolic contents (same alphabet for both keys)."""
    i = lambda s: c.int(f"{p}{s}", *I64)
    by = lambda s, n: SymBytes([c.int(f"{p}{s}{k}", 0, 255) for k in range(n)]) if c.symbolic else bytes(c.int(f"{p}{s}{k}", 0, 255) for k in range(n))
    return {
        "i": lambda: (i("a"),), "ii": lambda: (i("a"), i("b")), "n": lambda: (None,), "bool": lambda: (bool(c.bool(p + "z")),),
        "in": lambda: (i("a"), None), "(i)i": lambda: ((i("a"),), i("b")), "i(i)": lambda: (i("a"), (i("b"),)), "(ii)": lambda: ((i("a"), i("b")),),
        "b0": lambda: (b"",), "b1": lambda: (by("x", 1),), "b8": lambda: (by("x", 8),), "b4i": lambda: (by("x", 4), i("a")),
        "ib4": lambda: (i("a"), by("x", 4)), "b9": lambda: (by("x", 9),), "b13": lambda: (by("x", 13),), "b14": lambda: (by("x", 14),),
        "b4b5": lambda: (by("x", 4), by("y", 5)), "b5b4": lambda: (by("x", 5), by("y", 4)),
        "s": lambda: ("ab",), "s2": lambda: ("a", "b"), "()": lambda: ((),), "": lambda: (),
        "bs": lambda: (by("x", 2),), "nn": lambda: (None, None), "nb": lambda: (None, True),
    }


@check.obligation("key encoding injective", bounds="25x25 key shapes up to two components / one nesting level, symbolic contents",
                  functions=["_tlv"], covers=["same-length", "equal-shape"])
def ob(c):
    core = repo("dataset.core")
    A, B = shapes(c, "p"), shapes(c, "q")
    ka = c.choose("shape1", sorted(A))
    kb = c.choose("shape2", sorted(B))
    x, y = A[ka](), B[kb]()
    ex, ey = core._tlv(x), core._tlv(y)
    if len(ex) == len(ey):
        c.cover("same-length")
        if ka == kb:
            c.cover("equal-shape")
            c.check(eq(ex == ey, same(x, y)) if c.symbolic else (ex == ey) == (x == y), "equal encodings for different keys")
        elif not (isinstance(x, tuple) and x == y):
            c.check(snot(ex == ey), "two different keys encode to the same bytes", detail=lambda: (ka, kb))
    else:
        c.check(True, "")


@check.obligation("distinct draws have distinct hash messages", bounds="symbolic seed, domain suffix, key and counter pairs",
                  functions=["rng_digest", "_tlv"], covers=["done"])
def ob(c):
    core = repo("dataset.core")
    xs = []
    for t in "pq":
        xs.append((c.int(t + "seed", *I64), c.choose(t + "dom", ["a", "b", "ab"]), (c.int(t + "k", *I64), c.int(t + "l", *I64)), c.int(t + "c", 0, (1 << 63) - 1)))
    with hash_mode("inj"):
        d = [core.rng_digest(*x) for x in xs]
    if c.symbolic:
        c.check(eq(d[0] == d[1], same(xs[0], xs[1])), "two different draws share a hash message")
    else:
        c.check((d[0] == d[1]) == (xs[0] == xs[1]), "two different draws share a hash message")
    c.cover("done")


if __name__ == "__main__":
    check.main()
