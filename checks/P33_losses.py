"""P33: supervised losses and their evaluation statistics (trainer/loss, trainer/metric, utils.training_utils)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *
from symx import symtorch as st, sreal as R
from symx.sreal import add, mul, sub, div, neg, sq, mean
import torch

check = Check("P33", "supervised losses and statistics", assumptions=[
    "floating point is exact real arithmetic; exp, log, sigmoid, softplus and log-sum-exp are uninterpreted functions "
    "(log and exp inverse to each other), so equalities hold for any such functions",
    "policies have 3 cells, values 1 or 3 channels, batches up to 3 rows; contents, targets, masks, weights arbitrary",
])
F = ["trainer.loss.supervised:compute_supervised_losses", "trainer.loss.supervised:compute_supervised_loss_statistics",
     "trainer.loss.utils:*", "utils.training_utils:cross_entropy_with_softlabel"]
D = torch.float64
N = 3
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'


def mods():
    return repo("trainer.loss.supervised")


LEVEL = [1]


def cells(c, name, rows, first):
    """flags per policy cell: one of three batch patterns (level 0), any pattern in row 0 of the first batch and
    one of two elsewhere (level 1), any pattern (level 2)"""
    out = []
    if LEVEL[0] == 0:
        p = c.choose(name, [(1, 1, 0), (0, 1, 0), (1, 1, 1) if first else (0, 0, 0)])
        return [bool(p[(i + r) % N]) for r in range(rows) for i in range(N)]
    for r in range(rows):
        if LEVEL[0] == 2 or (r == 0 and not name.startswith("b_")):
            m = [c.bool(f"{name}{r}_{i}") for i in range(N)]
            if first:
                c.assume(sor(*m))
            out += [bool(b) for b in m]
        else:
            out += c.choose(f"{name}{r}", [(True, True, False), (True, True, True) if first else (False,) * N])
    return out


class Setup:
    """one batch of inputs + the options of the run"""

    def __init__(self, c, rows, chan, vtype, ptype, *, mask=False, forbid=False, kd=None, reg=False, aux=(), gamma=0, real=None, tag="", opt=None,
                 tchan=None, grad=False):
        self.c, self.rows, self.chan, self.vtype, self.ptype = c, rows, chan, vtype, ptype
        tchan = tchan or chan
        t = lambda n, s, lo=-8, hi=8, **k: st.real_tensor(c, tag + n, s, D, lo=lo, hi=hi, **k)
        self.value = t("v", (rows, chan), requires_grad=grad)
        self.policy = t("p", (rows, 1, N), requires_grad=grad)
        self.vt = t("vt", (rows, tchan), lo=0, hi=1)
        self.pt = t("pt", (rows, 1, N), lo=0, hi=1)
        self.data = {"value_target": self.vt, "policy_target": self.pt, "board_size": (3, 3)}
        self.results = {"value": self.value, "policy": self.policy}
        self.mask = None
        if mask:
            m = cells(c, tag + "bm", rows, first=True)
            self.mask = [list(m[r * N:(r + 1) * N]) for r in range(rows)]
            bm = st.make(c, m, (rows, 1, N), torch.bool)
            self.results["board_mask"] = bm if mask == "bool" else bm.to(D)
        self.forbid = None
        if forbid:
            f = cells(c, tag + "fp", rows, first=False)
            self.forbid = [f[r * N:(r + 1) * N] for r in range(rows)]
            self.data["forbidden_point"] = st.make(c, f, (rows, 1, N), torch.bool)
        self.real = None
        if real is not None:
            self.real = real
            self.data["is_real"] = st.make(c, list(real), (rows,), torch.bool)
        o = opt
        self.opt = o
        self.kw = {}
        if o.ratio is not None:
            self.kw["value_policy_ratio"] = o.ratio
        if o.reg is not None:
            self.kw["policy_reg_lambda"] = o.reg
        if forbid:
            self.kw["ignore_forbidden_point_policy"] = True
        if gamma:
            self.kw["value_focal_gamma"] = self.kw["policy_focal_gamma"] = gamma
        self.gamma = gamma
        self.kd = None
        if o.kd:
            self.tv, self.tp = t("tv", (rows, chan)), t("tp", (rows, 1, N))
            self.kd = {"value": self.tv, "policy": self.tp}
            self.kw["kd_T"], self.kw["kd_alpha"] = o.T, o.alpha
        self.aux = {}
        if aux:
            a = {}
            for kind in aux:
                if kind == "value_loss":
                    x = t("av", (rows, o.achan)); a["av"] = ("value_loss", x)
                elif kind == "policy_loss":
                    x = t("ap", (rows, 1, N)); a["ap"] = ("policy_loss", x)
                elif kind == "policy_reg":
                    x = t("ar", (rows, 1, N)); a["ar"] = ("policy_reg", x)
                elif kind == "value_uncertainty_loss":
                    x = (t("uu", (rows,)), t("uv", (rows,)), t("ut", (rows,), lo=0, hi=1)); a["un"] = (kind, x)
                elif kind == "value_relative_uncertainty_loss":
                    x = (t("ru", (rows,)), t("rs", (rows,)), t("rl", (rows,)), t("rt", (rows,), lo=0, hi=1)); a["ru"] = (kind, x)
                self.aux[kind] = x
            self.results["aux_losses"] = a
            if o.auxw is not None:
                for nm in a:
                    self.kw[f"{nm}_lambda"] = o.auxw

    # row views
    def row(self, t, r):
        v = st.vals(t)
        k = len(v) // self.rows
        return v[r * k:(r + 1) * k]


class Opt:
    def __init__(self, c, ratio=False, reg=False, kd=False, auxw=False, achan=1):
        self.ratio = c.real("ratio", R_Q("1/8"), 8) if ratio else None
        self.reg = c.real("reg", R_Q("1/16"), 4) if reg else None
        self.kd = kd
        self.T = c.real("T", R_Q("1/4"), 8) if kd else None
        self.alpha = c.real("alpha", 0, 1) if kd else None
        self.auxw = c.real("auxw", R_Q("1/8"), 4) if auxw else None
        self.achan = achan


def R_Q(s):
    a, b = s.split("/")
    return int(a) / int(b)


# ------------------------------------------------------------------ specification

EPS = 1e-8


def xlogx_bias(t):
    return mul(t, R.log(R.maxi(t, EPS)))


def row_ce(logits, target, weight, gamma, kl):
    tw = [mul(a, w) for a, w in zip(target, weight)] if weight is not None else target
    lp = R.log_softmax(logits)
    if gamma:
        lp = [mul(l, R.powi(sub(1, R.exp(l)), gamma)) for l in lp]
    loss = neg(add(*[mul(a, l) for a, l in zip(tw, lp)]))
    if kl:
        loss = add(loss, *[xlogx_bias(a) for a in tw])
    return loss


def row_bce(x, t, gamma, kl):
    # -t log s(x) - (1-t) log(1-s(x))
    loss = add(mul(sub(1, t), x), R.softplus(neg(x)))
    if gamma:
        p = R.sigmoid(x)
        pt = add(mul(t, p), mul(sub(1, t), sub(1, p)))
        loss = mul(loss, R.powi(sub(1, pt), gamma))
    if kl:
        loss = add(loss, xlogx_bias(t), xlogx_bias(sub(1, t)))
    return loss


def wr(v):
    """win rate of a (win, loss, draw) distribution"""
    return div(add(sub(v[0], v[1]), 1), 2)


def value_rows(vtype, v, t, gamma):
    """v, t: one row each (lists)"""
    gamma = gamma if vtype == "CE" else 0
    if len(v) == 1:
        t = t[0] if len(t) == 1 else wr(t)
        if vtype == "MSE":
            return sq(sub(R.sigmoid(v[0]), t))
        return row_bce(v[0], t, gamma, vtype == "KL")
    if vtype == "MSE":
        return sq(sub(wr(R.softmax(v)), wr(t)))
    return row_ce(v, t, None, gamma, vtype == "KL")


def masked(p, m, fill):
    return p if m is None else [R.where(b, x, fill) for x, b in zip(p, m)]


def policy_row(ptype, p, t, m, f, gamma):
    """list of loss values of one row (their mean over all rows is the loss)"""
    w = None if f is None else [sub(1, st._norm(b, "f") if ctx().symbolic else float(b)) for b in f]
    if ptype == "MSE":
        q = R.softmax(p)
        out = [sq(sub(a, b)) for a, b in zip(q, t)]
        return [mul(x, y) for x, y in zip(out, w)] if w else out
    return [row_ce(p, t, w, gamma if ptype == "CE" else 0, ptype == "KL")]


def spec(s, rows, kd):
    """{name: value} and [(term, target dependent)] of the pooled rows (list of (Setup, row))"""
    o = s.opt
    ratio = o.ratio if o.ratio is not None else 1
    vl, pl = div(mul(2, ratio), add(ratio, 1)), div(2, add(ratio, 1))
    out, dep, ind = {}, [], []
    T = o.T if kd else None

    def tgt_v(q, r):
        if not kd:
            return q.row(q.vt, r)
        x = [div(e, T) for e in q.row(q.tv, r)]
        return R.softmax(x) if len(x) > 1 else [R.sigmoid(x[0])]

    def scale(x):
        return [div(e, T) for e in x] if kd else x

    def tgt_p(q, r):
        m = q.mask and q.mask[r]
        if not kd:
            return masked(q.row(q.pt, r), m, 0)
        x = masked(q.row(q.tp, r), m, -1e6)
        return masked(R.softmax([div(e, T) for e in x]), m, 0)

    def vloss(get):
        return mean([value_rows(s.vtype, scale(get(q, r)), tgt_v(q, r), s.gamma) for q, r in rows])

    def ploss(get):
        vals = []
        for q, r in rows:
            m = q.mask and q.mask[r]
            vals += policy_row(s.ptype, scale(masked(get(q, r), m, -1e6)), tgt_p(q, r), m, q.forbid and q.forbid[r], s.gamma)
        return mean(vals)

    def reg(get):
        tot, cells = [], []
        for q, r in rows:
            m = q.mask[r] if q.mask else [True] * N
            tot += masked(get(q, r), m, 0)
            cells += [R.where(b, 1, 0) for b in m]
        return sq(div(add(*tot), add(*cells)))

    out["value_loss"] = vloss(lambda q, r: q.row(q.value, r))
    out["policy_loss"] = ploss(lambda q, r: q.row(q.policy, r)) if s.ptype != "NONE" else 0
    dep.append(mul(vl, out["value_loss"]))
    dep.append(mul(pl, out["policy_loss"]))
    if o.reg is not None:
        out["policy_reg"] = reg(lambda q, r: q.row(q.policy, r))
        ind.append(mul(o.reg, out["policy_reg"]))
    w = o.auxw
    for kind in s.aux:
        if kind == "value_loss":
            x = vloss(lambda q, r: q.row(q.aux[kind], r)); out["av_loss"] = x
            dep.append(mul(w if w is not None else vl, x))
        elif kind == "policy_loss":
            if s.ptype == "NONE":
                continue
            x = ploss(lambda q, r: q.row(q.aux[kind], r)); out["ap_loss"] = x
            dep.append(mul(w if w is not None else pl, x))
        elif kind == "policy_reg":
            if w is None and o.reg is None:
                continue
            x = reg(lambda q, r: q.row(q.aux[kind], r)); out["ar"] = x
            ind.append(mul(w if w is not None else o.reg, x))
        else:
            vs = []
            for q, r in rows:
                u = [st.vals(e)[r] for e in q.aux[kind]]
                if kind == "value_uncertainty_loss":
                    d = R.absx(sub(u[0], sq(sub(R.sigmoid(u[1]), u[2]))))
                    vs.append(R.where(R.ge(1, d), mul(0.5, sq(d)), sub(d, 0.5)))
                else:
                    small, large = (sq(sub(R.sigmoid(e), u[3])) for e in (u[1], u[2]))
                    tg = R.where(R.lt(large, small), div(large, small), 1)
                    vs.append(sq(sub(u[0], tg)))
            x = mean(vs)
            out["un_loss" if kind == "value_uncertainty_loss" else "ru_loss"] = x
            ind.append(mul(w if w is not None else 1, x))
    return out, dep, ind


def total(s, rows):
    out, dep, ind = spec(s, rows, False)
    if not s.opt.kd:
        out["total_loss"] = add(*dep, *ind)
        return out
    kout, kdep, _ = spec(s, rows, True)
    a, T = s.opt.alpha, s.opt.T
    res = dict(out)
    res.update({"kd_" + k: v for k, v in kout.items()})
    res["total_loss"] = add(mul(a, T, T, add(*kdep)), mul(sub(1, a), add(*dep)), *ind)
    return res


def run(s):
    return mods().compute_supervised_losses(f"{s.vtype}+{s.ptype}", s.data, s.results, kd_results=s.kd, **s.kw)


def stats(s):
    return mods().compute_supervised_loss_statistics(f"{s.vtype}+{s.ptype}", s.data, s.results, s.kd, **s.kw)


def torch_env(c):
    return st.mode() if c.symbolic else contextlib.nullcontext()


def val(t):
    return st.vals(t)[0]


def compare(c, got, want, what):
    c.check(set(got) == set(want), f"{what}: reported terms {sorted(set(got) ^ set(want))}")
    for k in want:
        g = got[k]
        g = val(g) if isinstance(g, torch.Tensor) else g
        c.check(st.close(g, R.n(want[k]) if c.symbolic else want[k], 1e-5), f"{what}: {k}", detail=lambda: (k, g, want[k]))


VT, PT = ["KL", "CE", "MSE"], ["KL", "CE", "MSE", "NONE"]


def scenario(c, i):
    """feature combinations; each covers every loss type elsewhere"""
    return [
        dict(mask=False),
        dict(mask="float", reg=True),
        dict(forbid=True, ratio=True),
        dict(gamma=2, mask="bool"),
        dict(kd=True, mask="float"),
        dict(kd=True, reg=True, ratio=True),
        dict(aux=("value_loss", "policy_loss", "policy_reg"), reg=True, mask="float"),
        dict(aux=("value_loss", "policy_loss"), auxw=True, achan=3),
        dict(aux=("value_uncertainty_loss", "policy_reg"), auxw=True),
        dict(aux=("value_relative_uncertainty_loss",)),
        dict(aux=("value_loss", "policy_loss"), kd=True, forbid=True),
        dict(tchan=3),
    ][i]


def build(c, sc, rows, chan, vtype, ptype, opt=None, **kw):
    d = dict(sc)
    if d.get("tchan") and chan == 3:
        d.pop("tchan")
    okw = {k: d.pop(k) for k in ("ratio", "reg", "kd", "auxw", "achan") if k in d}
    if okw.get("achan") == 3 and chan == 1:
        okw["achan"] = 1
    if "achan" not in okw:
        okw["achan"] = chan
    opt = opt or Opt(c, **okw)
    if d.get("gamma") and vtype != "CE":
        pass
    return Setup(c, rows, chan, vtype, ptype, opt=opt, **d, **kw)


def mk(i, chan, tiers=("quick", "thorough")):
    @check.obligation(f"training_loss_s{i}_c{chan}", bounds="2 rows, 3 policy cells; every value/policy loss type with this option set", functions=F,
                      tiers=tiers, max_paths=3000, budget=400)
    def ob(c):
        sc = scenario(c, i)
        LEVEL[0] = 2 if THOROUGH else 1
        # every pair of types on the plain scenario, matching pairs elsewhere
        vtype = c.choose("vt", VT)
        ptype = c.choose("pt", PT if i in (0, 5) else [{"KL": "KL", "CE": "CE", "MSE": "MSE"}[vtype], *(["NONE"] if i == 6 else [])])
        if "kd" in sc and vtype == "MSE" and False:
            return
        with torch_env(c):
            s = build(c, sc, 2, chan, vtype, ptype)
            loss, parts, aux = run(s)
            want = total(s, [(s, r) for r in range(2)])
            compare(c, parts, want, "training")
            c.check(st.close(val(loss), R.n(want["total_loss"]) if c.symbolic else want["total_loss"], 1e-5), "optimised loss is the reported total")
            c.check(aux == {}, "no auxiliary output invented")

    @check.obligation(f"statistics_s{i}_c{chan}", bounds="3 rows split 2+1 in two batches, any padding mask with a real row in each", functions=F,
                      tiers=tiers, max_paths=3000, budget=400)
    def ob2(c):
        sc = scenario(c, i)
        LEVEL[0] = 1 if THOROUGH else 0
        vtype = c.choose("vt", VT)
        ptype = c.choose("pt", PT if i == 0 else [vtype, *(["NONE"] if i == 6 else [])])
        with torch_env(c):
            real0 = c.choose("real", [(True, True), (True, False), (False, True)] if i in (0, 1, 6, 7) or THOROUGH else [(True, False)])
            s0 = build(c, sc, 2, chan, vtype, ptype, real=real0)
            s1 = build(c, sc, 1, chan, vtype, ptype, tag="b_", opt=s0.opt, real=[True] if bool(real0[0]) else None)
            a, aux0 = stats(s0)
            b, aux1 = stats(s1)
            c.check(set(a) == set(b), "same statistics for every batch")
            rows = [(s0, r) for r in range(2) if real0[r]] + [(s1, 0)]
            want = total(s0, rows)
            got = {k: a[k].combine(b[k]).finalize() for k in a}
            compare(c, got, want, "evaluation")
            # evaluating a batch on its own equals training on its real rows
            l, parts, _ = run(s0)
            own = {k: a[k].finalize() for k in a}
            compare(c, {k: val(v) for k, v in parts.items()}, {k: val(v) for k, v in own.items()}, "one batch")


for _i in range(12):
    for _c in (1, 3):
        if _i == 11 and _c == 3:
            continue
        _quick = _i == 0 or _c == (1, 3)[_i % 2] or _i == 11
        mk(_i, _c, ("quick", "thorough") if _quick else ("thorough",))


@check.obligation("padding_has_no_influence", bounds="2 rows, one padded with arbitrary contents; value, policy and KD", functions=F)
def padding(c):
    LEVEL[0] = 0
    sc = scenario(c, c.choose("sc", [1, 2, 5, 7]))
    vtype = c.choose("vt", VT)
    chan = c.choose("chan", [1, 3])
    with torch_env(c):
        real = c.choose("real", [[True, False], [False, True]])
        s = build(c, sc, 2, chan, vtype, vtype, real=real, grad=True)
        keep = real.index(True)
        loss, parts, _ = run(s)
        want = total(s, [(s, keep)])
        compare(c, parts, want, "padded batch")
        loss.backward()
        for t in (s.value, s.policy):
            g = st.vals(t.grad)
            k = len(g) // 2
            pad = g[(1 - keep) * k:(2 - keep) * k]
            c.check(sand(*[st.close(x, 0) for x in pad]), "padded rows receive no gradient")


@check.obligation("all_padded", bounds="2 rows, all padded", functions=F)
def all_padded(c):
    LEVEL[0] = 0
    sc = scenario(c, c.choose("sc", [0, 1, 4, 6]))
    vtype = c.choose("vt", VT)
    with torch_env(c):
        s = build(c, sc, 2, c.choose("chan", [1, 3]), vtype, vtype, real=[False, False], grad=True)
        loss, parts, _ = run(s)
        c.check(st.close(val(loss), 0), "nothing real: zero loss")
        for k, v in parts.items():
            c.check(st.close(val(v), 0), f"nothing real: zero {k}")
        keys = set(total(s, [(s, 0)]))
        c.check(set(parts) == keys, "same terms as any other batch")
        loss.backward()
        for t in (s.value, s.policy):
            if t.grad is not None:
                c.check(sand(*[st.close(x, 0) for x in st.vals(t.grad)]), "no gradient")
        a, _ = stats(s)
        c.check(set(a) == keys, "same statistics as any other batch")
        other = build(c, sc, 1, s.value.shape[1], vtype, vtype, tag="b_", opt=s.opt)
        b, _ = stats(other)
        want = total(other, [(other, 0)])
        compare(c, {k: a[k].combine(b[k]).finalize() for k in a}, want, "padding then data")
        compare(c, {k: b[k].combine(a[k]).finalize() for k in a}, want, "data then padding")


@check.obligation("kd_alpha_one_is_pure_distillation", bounds="2 rows, alpha = 1", functions=F)
def kd_one(c):
    vtype = c.choose("vt", VT)
    chan = c.choose("chan", [1, 3])
    with torch_env(c):
        o = Opt(c, kd=True)
        o.alpha = 1.0
        s = Setup(c, 2, chan, vtype, vtype, opt=o, mask="float", grad=True)
        loss, parts, _ = run(s)
        want = total(s, [(s, 0), (s, 1)])
        compare(c, parts, want, "alpha=1")


@check.obligation("masked_cells_have_no_influence", bounds="2 rows, arbitrary masks: gradient of masked logits", functions=F)
def masked_grad(c):
    vtype = c.choose("vt", ["KL", "CE", "MSE"])
    with torch_env(c):
        s = build(c, dict(mask="float", reg=True, kd=c.choose("kd", [False, True])), 2, 1, "CE", vtype, grad=True)
        loss, parts, _ = run(s)
        loss.backward()
        g = st.vals(s.policy.grad)
        m = [b for row in s.mask for b in row]
        c.check(sand(*[simplies(snot(b), st.close(x, 0)) for b, x in zip(m, g)]), "cells outside the board receive no gradient")


@check.obligation("refused_inputs", bounds="malformed padding flags and auxiliary losses", functions=F)
def refused(c):
    M = mods()
    with torch_env(c):
        s = Setup(c, 2, 1, "CE", "CE", opt=Opt(c))
        case = c.choose("case", ["flag2d", "flaglen", "unknown_aux", "opaque_aux", "eval_flag2d"])
        if case in ("flag2d", "eval_flag2d"):
            s.data["is_real"] = st.make(c, [True, True], (2, 1), torch.bool)
        elif case == "flaglen":
            s.data["is_real"] = st.make(c, [True] * 3, (3,), torch.bool)
        elif case == "unknown_aux":
            s.results["aux_losses"] = {"x": ("no_such_loss", s.value)}
        else:
            s.results["aux_losses"] = {"x": s.value.sum()}
        if case in ("flag2d", "unknown_aux"):
            expect_error(c, lambda: run(s), types=(ValueError,), message=case)
        expect_error(c, lambda: stats(s), types=(ValueError,), message=case + " in evaluation")


if __name__ == "__main__":
    check.main()
