import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx.harness import *
from symx.symnp import real_uf

check = Check("P24", "evaluation to win rate", assumptions=[
    "exact reals; exp is any positive, strictly increasing function with exp(0)=1 and exp(a)*exp(-a)=1 on the arguments that occur",
    "evaluations and mate thresholds are any integers below 2**31, scaling factors from a list of five",
])
SCALES = [200, 1, 0.5, 400, 123.25]


class Exp:
    """exp known only through its laws."""

    def __init__(self, c):
        self.c, self.seen = c, []

    def __call__(self, x, *a, **k):
        if not is_sym(x):
            return np.exp(x)
        if type(x) is SymArray:
            return SymArray(_objarr([self(v) for v in x.a.reshape(-1)]).reshape(x.shape), np.dtype(np.float64))
        e, xe = real_uf("exp", x), real_expr(x)
        add = [e.e > 0, (xe > 0) == (e.e > 1), (xe == 0) == (e.e == 1)]
        for y, f in self.seen:
            add += [(xe < y) == (e.e < f), (xe == y) == (e.e == f), z3.Implies(xe + y == 0, e.e * f == 1)]
        self.seen.append((xe, e.e))
        for t in add:
            self.c.assume(z3bool(t))
        return e


def z3bool(t):
    from symx.values import _as_bool_result
    return _as_bool_result(z3.simplify(t))


class NpExp:
    def __init__(self, np_, e):
        self._np, self.exp = np_, e

    def __getattr__(self, k):
        return getattr(self._np, k)


@contextlib.contextmanager
def model(c):
    M = repo("utils.winrate_model")
    if not c.symbolic:
        yield M, np.exp
        return
    e = Exp(c)
    with patched(M, "np", NpExp(M.np, e)):
        yield M, e


def close(p, q):
    return eq(p, q) if is_sym(p) or is_sym(q) else abs(float(p) - float(q)) < 1e-6


def setup(c, M, soft):
    s = c.choose("scale", SCALES)
    t = c.zint("threshold", 1, 1 << 31)
    return s, t, M.WinrateModel(scaling_factor=s, eval_mate_threshold=t, soft_mate_winrate=soft)


for _soft in (False, True):
    @check.obligation(f"the win rate is the documented logistic curve with exact mates (soft mates={_soft})", bounds="any integer evaluation and threshold", covers=["mid"] + ([] if _soft else ["win", "loss"]),
                      functions=["WinrateModel.eval_to_winrate"], soft_=_soft)
    def ob(c, soft_):
        with model(c) as (M, exp):
            s, t, m = setup(c, M, soft_)
            e = c.zint("e", -(1 << 31), 1 << 31)
            r = m.eval_to_winrate(e)
            if not soft_ and bool(e >= t):
                c.check(eq(r, 1.0), "a won position is not 1")
                c.cover("win")
            elif not soft_ and bool(e <= -t):
                c.check(eq(r, 0.0), "a lost position is not 0")
                c.cover("loss")
            else:
                c.check(close(r * (1 + exp(-e / s)), 1.0), "the win rate is not 1/(1+exp(-e/scale))")
                c.cover("mid")
            c.check(sand(r >= 0, r <= 1), "win rate outside [0, 1]")

    @check.obligation(f"a better evaluation never has a lower win rate (soft mates={_soft})", bounds="any two evaluations", covers=["lt", "strict"], functions=["WinrateModel.eval_to_winrate"], soft_=_soft)
    def ob(c, soft_):
        with model(c) as (M, exp):
            s, t, m = setup(c, M, soft_)
            a, b = c.zint("a", -(1 << 31), 1 << 31), c.zint("b", -(1 << 31), 1 << 31)
            c.assume(a < b)
            ra, rb = m.eval_to_winrate(a), m.eval_to_winrate(b)
            c.check(ra <= rb, "a better evaluation has a lower win rate")
            c.cover("lt")
            if soft_ or bool(sand(a > -t, b < t)):
                if c.symbolic or abs(a) < 15 * s and abs(b) < 15 * s:
                    c.check(ra < rb, "different evaluations below the mate threshold have one win rate")
                c.cover("strict")

    @check.obligation(f"win, loss and draw are a distribution and swap with the side (soft mates={_soft})", bounds="any evaluation and threshold", covers=["done"], functions=["WinrateModel.eval_to_wld"], soft_=_soft)
    def ob(c, soft_):
        with model(c) as (M, exp):
            s, t, m = setup(c, M, soft_)
            e = c.zint("e", -(1 << 31), 1 << 31)
            x, y = m.eval_to_wld(e), m.eval_to_wld(-e)
            w, l, d = elems(x)
            c.check(tuple(x.shape) == (3,) and np.dtype(x.dtype) == np.float32, "shape and type of the target")
            c.check(sand(w >= 0, l >= 0, d >= 0), "negative probability")
            c.check(close(w + l + d, 1.0), "probabilities do not sum to one")
            c.check(sand(*[close(p, q) for p, q in zip((w, l, d), [elems(y)[i] for i in (1, 0, 2)])]), "the other side's view is not the swap")
            c.check(close(w, m.eval_to_winrate(e)), "win probability is not the win rate")
            c.cover("done")


if __name__ == "__main__":
    check.main()
