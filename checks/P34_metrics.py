"""P34: supervised test metrics (trainer/metric/supervised.py)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.harness import *
from symx import symtorch as st, sreal as R
from symx.sreal import add, mul, sub, div, neg, sq, mean
import torch

check = Check("P34", "supervised test metrics", assumptions=[
    "floating point is exact real arithmetic; sigmoid, exp and log-sum-exp are uninterpreted functions",
    "boards of 4 policy cells with at least 3 on the board; policy logits and policy targets of a row pairwise distinct (rankings defined)",
])
F = ["trainer.metric.supervised:compute_supervised_metric_statistics"]
D = torch.float64
N = 4


def M():
    return repo("trainer.metric.supervised")


class Batch:
    def __init__(self, c, tag, rows, chan, tchan, mask, real, policy=False):
        t = lambda n, s, lo, hi: st.real_tensor(c, tag + n, s, D, lo=lo, hi=hi)
        const = lambda n, s, lo, hi: st.make(c, [(((5 if n == 'p' else 7) * i + ord(tag[0])) % 13 + 1) / 16 for i in range(rows * N)], s, D)
        self.rows, self.chan, self.real = rows, chan, real
        self.v = t("v", (rows, chan), -8, 8)
        tp = t if policy else const
        self.p = tp("p", (rows, 1, N), -8, 8)
        self.vt = t("vt", (rows, tchan), 0, 1)
        self.pt = tp("pt", (rows, 1, N), 0, 1)
        self.data = {"value_target": self.vt, "policy_target": self.pt, "board_size": (2, 2)}
        self.results = {"value": self.v, "policy": self.p}
        self.mask = [[True] * N for _ in range(rows)]
        if mask:
            self.mask = [[i != mask[r % len(mask)] for i in range(N)] for r in range(rows)]
            self.results["board_mask"] = st.make(c, [x for m in self.mask for x in m], (rows, 1, N), torch.bool)
        if real is not None:
            self.data["is_real"] = st.make(c, list(real), (rows,), torch.bool)
        if not policy:
            return
        for r in range(rows):
            P, T = self.row(self.p, r), self.row(self.pt, r)
            for i in range(N):
                c.assume(R.gt(T[i], 0))
                for j in range(i):
                    c.assume(snot(st.e_eq(P[i], P[j]) if c.symbolic else P[i] == P[j]))
                    c.assume(snot(st.e_eq(T[i], T[j]) if c.symbolic else T[i] == T[j]))

    def row(self, t, r):
        v = st.vals(t)
        k = len(v) // self.rows
        return v[r * k:(r + 1) * k]

    def real_rows(self):
        return [r for r in range(self.rows) if self.real is None or self.real[r]]


def rank_in_top(x, m, i, k):
    """cell i is among the k largest on-board cells"""
    if not m[i]:
        return False
    above = [R.where(R.gt(x[j], x[i]), 1, 0) for j in range(N) if j != i and m[j]]
    return R.lt(add(*above), k)


def overlap(b, r, k):
    P, T, m = b.row(b.p, r), b.row(b.pt, r), b.mask[r]
    return add(*[R.where(sand(rank_in_top(P, m, i, k), rank_in_top(T, m, i, k)), 1, 0) for i in range(N)])


def iff(a, b):
    return sor(sand(a, b), sand(snot(a), snot(b)))


def one(x):
    return R.where(x, 1, 0)


def value_metrics(b, r, cross):
    v, t = b.row(b.v, r), b.row(b.vt, r)
    out = {}
    if b.chan == 1:
        t = t[0] if len(t) == 1 else div(add(sub(t[0], t[1]), 1), 2)
        p = R.sigmoid(v[0])
        out["winrate_acc"] = one(R.ge(mul(sub(p, 0.5), sub(t, 0.5)), 0))
        out["winrate_mse"] = sq(sub(p, t))
        pr, tg = [p], [t]
    else:
        pr, tg = R.softmax(v), t
        out["winrate_acc"] = one(iff(R.ge(pr[0], pr[1]), R.ge(t[0], t[1])))
        out["winrate_mse"] = sq(div(sub(sub(pr[0], pr[1]), sub(t[0], t[1])), 2))
        out["drawrate_acc"] = one(iff(sand(R.gt(pr[2], pr[0]), R.gt(pr[2], pr[1])), sand(R.gt(t[2], t[0]), R.gt(t[2], t[1]))))
        out["drawrate_mse"] = sq(sub(pr[2], t[2]))
    err = [R.absx(sub(x, y)) for x, y in zip(pr, tg)]
    rel = [div(e, add(R.absx(x), 1e-4)) for e, x in zip(err, pr)]
    return out, err, rel


def run(b, cross):
    return M().compute_supervised_metric_statistics(b.data, b.results, do_cross_eval=cross)


def env(c):
    return st.mode() if c.symbolic else contextlib.nullcontext()


def fin(x):
    g = x.finalize()
    return st.vals(g)[0] if isinstance(g, torch.Tensor) else g


def same(c, got, want, what):
    c.check(st.close(got, R.n(want) if c.symbolic else want, 1e-5), what, detail=lambda: (got, want))


def pooled(batches):
    return [(b, r) for b in batches for r in b.real_rows()]


REALS = [None, (True, False), (False, True)]


def mkmove(i, mask, real):
    @check.obligation(f"move_accuracy_{i}", bounds="1-2 fixed rows (padding included) + 1 row with any logits and targets; 4 cells, up to one off the board", functions=F, max_paths=4000, budget=300, timeout_ms=60000)
    def moves(c):
        with env(c):
            n = len(real) if real else 1
            a = Batch(c, "a", n, 1, 1, mask, real)
            b = Batch(c, "b", 1, 1, 1, mask and mask[::-1], None, policy=True)
            A, B = run(a, False), run(b, False)
            rows = pooled([a, b])
            for k in (1, 2, 3):
                key = "bestmove_acc" if k == 1 else f"top{k}move_acc"
                want = mean([div(overlap(q, r, k), k) for q, r in rows])
                same(c, fin(A[key].combine(B[key])), want, key)


for _i, (_m, _r) in enumerate([(None, None), ((0, 3), (True, False)), ((2, 1), (False, True))]):
    mkmove(_i, _m, _r)


def mk(chan, tchan, cross):
    @check.obligation(f"value_metrics_c{chan}_t{tchan}" + ("_cross" if cross else ""), bounds="2+1 rows, padding in the first batch; cross-evaluation on/off",
                      functions=F, max_paths=4000, budget=300, timeout_ms=60000)
    def ob(c):
        real = c.choose("real", REALS)
        with env(c):
            a = Batch(c, "a", 2, chan, tchan, None, real)
            b = Batch(c, "b", 1, chan, tchan, None, None)
            if chan == 3:
                for q in (a, b):
                    for r in range(q.rows):
                        t = q.row(q.vt, r)
                        c.assume(snot(st.e_eq(t[0], t[2]) if c.symbolic else t[0] == t[2]))
                        c.assume(snot(st.e_eq(t[1], t[2]) if c.symbolic else t[1] == t[2]))
            A, B = run(a, cross), run(b, cross)
            c.check(set(A) == set(B), "same metrics for every batch")
            vals = [value_metrics(q, r, cross) for q, r in pooled([a, b])]
            got = {k: A[k].combine(B[k]) for k in A}
            for k in vals[0][0]:
                same(c, fin(got[k]), mean([v[0][k] for v in vals]), k)
            c.check(("value_abserr_mean" in A) == cross, "cross-evaluation errors only on request")
            c.check(("drawrate_acc" in A) == (chan == 3), "draw metrics only with a draw output")
            if cross:
                err = [e for v in vals for e in v[1]]
                rel = [e for v in vals for e in v[2]]
                same(c, fin(got["value_abserr_mean"]), mean(err), "mean absolute error")
                same(c, fin(got["value_relerr_mean"]), mean(rel), "mean relative error")
                for key, xs in (("value_abserr_max", err), ("value_relerr_max", rel)):
                    g = fin(got[key])
                    c.check(sand(*[R.ge(g, x) if c.symbolic else g >= x - 1e-6 for x in xs]), f"{key} bounds every error")
                    c.check(sor(*[st.close(g, x) for x in xs]), f"{key} is attained")


for _c, _t in ((1, 1), (1, 3), (3, 3)):
    for _x in (False, True):
        mk(_c, _t, _x) if not (_x and _t != _c) else None


@check.obligation("cross_entropy_metrics", bounds="2 rows, one padded; every lossCE term equals the CE+CE evaluation statistic", functions=F)
def ce(c):
    real = c.choose("real", REALS)
    chan = c.choose("chan", [1, 3])
    with env(c):
        a = Batch(c, "a", 2, chan, chan, (0, 3), real)
        got = run(a, False)
        ref, _ = repo("trainer.loss.supervised").compute_supervised_loss_statistics("CE+CE", a.data, a.results)
        c.check({k for k in got if k.startswith("lossCE_")} == {f"lossCE_{k}" for k in ref}, "terms")
        for k in ref:
            g, w = got[f"lossCE_{k}"].finalize(), ref[k].finalize()
            same(c, st.vals(g)[0] if isinstance(g, torch.Tensor) else g, st.vals(w)[0] if isinstance(w, torch.Tensor) else w, k)


@check.obligation("padding_only_batch", bounds="2 padded rows combined with a 1-row batch, both orders", functions=F, max_paths=3000, budget=300)
def padonly(c):
    chan = c.choose("chan", [1, 3])
    cross = c.choose("cross", [False, True])
    with env(c):
        a = Batch(c, "a", 2, chan, chan, None, (False, False))
        b = Batch(c, "b", 1, chan, chan, None, None)
        A, B = run(a, cross), run(b, cross)
        c.check(set(A) == set(B), "same metrics as any batch")
        for k in A:
            same(c, fin(A[k].combine(B[k])), fin(B[k]), f"{k}: padding first")
            same(c, fin(B[k].combine(A[k])), fin(B[k]), f"{k}: padding last")


@check.obligation("malformed_padding_flags", bounds="flags of the wrong rank or length", functions=F)
def malformed(c):
    with env(c):
        a = Batch(c, "a", 2, 1, 1, None, None)
        a.data["is_real"] = c.choose("flag", [st.make(c, [True, True], (2, 1), torch.bool), st.make(c, [True] * 3, (3,), torch.bool)])
        expect_error(c, lambda: run(a, False), types=(ValueError,), message="malformed padding flags")


if __name__ == "__main__":
    check.main()
