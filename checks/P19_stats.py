"""P19: mergeable evaluation statistics (dataset/core.py)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx.harness import *
from symx import symtorch as st
import torch
from fractions import Fraction

check = Check("P19", "mergeable evaluation statistics", assumptions=[
    "floating point is exact real arithmetic; log is an uninterpreted function",
    "counts are any integers in [0, 2**20] unless stated, tensors have the stated shapes with arbitrary real contents",
])
F = ["dataset.core:SumCount", "dataset.core:Maximum", "dataset.core:SufficientStats", "dataset.core:FINALIZERS"]
D = torch.float64


def core():
    return repo("dataset.core")


def T(c, name, shape=()):
    return st.real_tensor(c, name, shape, D)


def const(c, v, shape=()):
    n = int(np.prod(shape)) if shape else 1
    return st.make(c, [v] * n, shape, D)


def div(a, b):
    return st.e_div(st._norm(a, "f"), st._norm(b, "f")) if ctx().symbolic else a / b


def mul(*xs):
    if ctx().symbolic:
        r = Fraction(1)
        for x in xs:
            r = st.e_mul(r, st._norm(x, "f"))
        return r
    r = 1.0
    for x in xs:
        r = r * float(x)
    return r


def add(*xs):
    if ctx().symbolic:
        return st.s_sum([st._norm(x, "f") for x in xs])
    return float(sum(xs))


def val(t):
    return st.vals(t)[0]


# ---------------------------------------------------------------- SumCount / Maximum

@check.obligation("sum_count", bounds="three partial statistics, vector sums of length 2, any counts", functions=F)
def sum_count(c):
    M = core()
    scope = c.choose("scope", ["global_batch", "evaluation"])
    p = [M.SumCount(scope, T(c, f"s{i}", (2,)), c.zint(f"n{i}", 0, 1 << 20)) for i in range(3)]
    a = p[0].combine(p[1]).combine(p[2])
    b = p[2].combine(p[0].combine(p[1]))
    for x in (a, b):
        c.check(x.scope == scope, "scope kept")
        c.check(eq(x.count, p[0].count + p[1].count + p[2].count), "counts add up")
        for i in range(2):
            c.check(st.close(st.vals(x.sum)[i], add(*[st.vals(q.sum)[i] for q in p])), "sums add up")
    n = p[0].count + p[1].count + p[2].count
    if bool(n == 0):
        expect_error(c, a.finalize, message="an empty statistic must not finalise")
    else:
        f = a.finalize()
        for i in range(2):
            c.check(st.close(mul(st.vals(f)[i], n), add(*[st.vals(q.sum)[i] for q in p])), "value times count is the pooled sum")


@check.obligation("maximum", bounds="three partial maxima, scalar or vector of 2, any counts", functions=F)
def maximum(c):
    M = core()
    shape = c.choose("shape", [(), (2,)])
    k = 2 if shape else 1
    p = [M.Maximum("evaluation", T(c, f"v{i}", shape), c.zint(f"n{i}", 0, 1 << 20)) for i in range(3)]
    a = p[0].combine(p[1]).combine(p[2])
    b = p[1].combine(p[2]).combine(p[0])
    n = p[0].count if hasattr(p[0], "count") else None
    total = p[0].valid_count + p[1].valid_count + p[2].valid_count
    for x in (a, b):
        c.check(eq(x.valid_count, total), "valid counts add up")
        if bool(total == 0):
            expect_error(c, x.finalize, message="a maximum over nothing must not finalise")
            continue
        f = st.vals(x.finalize())
        for i in range(k):
            valid = [q.valid_count > 0 for q in p]
            c.check(sand(*[simplies(v, st.e_ge(f[i], st.vals(q.value)[i]) if c.symbolic else f[i] >= st.vals(q.value)[i]) for v, q in zip(valid, p)]),
                    "not below any valid part")
            c.check(sor(*[sand(v, st.close(f[i], st.vals(q.value)[i])) for v, q in zip(valid, p)]), "attained by a valid part")


@check.obligation("refused_parts", bounds="all pairs of shapes/dtypes/scopes/counts listed", functions=F)
def refused_parts(c):
    M = core()
    good = lambda: T(c, c.fresh_name("x"), (2,))
    which = c.choose("case", ["scope", "shape", "dtype", "max_shape", "max_dtype", "neg", "bool", "float", "badscope", "maxscope", "nontensor",
                              "max_neg", "max_bool", "max_nontensor"])
    if which == "scope":
        f = lambda: M.SumCount("evaluation", good(), 1).combine(M.SumCount("global_batch", good(), 1))
    elif which == "shape":
        f = lambda: M.SumCount("evaluation", good(), 1).combine(M.SumCount("evaluation", T(c, "y", c.choose("sh", [(1,), (), (3,), (2, 1)])), 1))
    elif which == "dtype":
        f = lambda: M.SumCount("evaluation", good(), 1).combine(M.SumCount("evaluation", good().to(torch.float32), 1))
    elif which == "max_shape":
        n = c.int("n", 0, 1)
        f = lambda: M.Maximum("evaluation", good(), n).combine(M.Maximum("evaluation", T(c, "y", (1,)), 1))
    elif which == "max_dtype":
        f = lambda: M.Maximum("evaluation", good(), 1).combine(M.Maximum("evaluation", good().to(torch.float32), 0))
    elif which == "neg":
        n = c.int("n", -100, -1)
        f = lambda: M.SumCount("evaluation", good(), n)
    elif which == "max_neg":
        n = c.int("n", -100, -1)
        f = lambda: M.Maximum("evaluation", good(), n)
    elif which == "bool":
        f = lambda: M.SumCount("evaluation", good(), True)
    elif which == "max_bool":
        f = lambda: M.Maximum("evaluation", good(), True)
    elif which == "float":
        f = lambda: M.SumCount("evaluation", good(), 1.0)
    elif which == "badscope":
        f = lambda: M.SumCount("batch", good(), 1)
    elif which == "maxscope":
        f = lambda: M.Maximum("global_batch", good(), 1)
    elif which == "nontensor":
        f = lambda: M.SumCount("evaluation", 1.0, 1)
    else:
        f = lambda: M.Maximum("evaluation", 1.0, 1)
    expect_error(c, f, types=(ValueError, TypeError), message=f"{which} must be refused")


# ---------------------------------------------------------------- simple finalizers

SIMPLE = {"mean_v1": ("sum", "count"), "policy_mean_square_v1": ("valid_logit_sum", "valid_cells")}


@check.obligation("simple_finalizers", bounds="mean and mean-square, two parts, any sums and counts", functions=F)
def simple(c):
    M = core()
    fid = c.choose("fid", list(SIMPLE))
    tk, ck = SIMPLE[fid]
    p = [M.SufficientStats("evaluation", fid, {tk: T(c, f"s{i}")}, {ck: c.zint(f"n{i}", 0, 1 << 12)}) for i in range(2)]
    a = p[0].combine(p[1])
    n = p[0].counts[ck] + p[1].counts[ck]
    c.check(eq(a.counts[ck], n), "counts add up")
    s = add(val(p[0].tensors[tk]), val(p[1].tensors[tk]))
    c.check(st.close(val(a.tensors[tk]), s), "sums add up")
    if bool(n == 0):
        expect_error(c, a.finalize, message="no values")
        return
    r = val(a.finalize())
    m = div(s, n)
    c.check(st.close(r, m if fid == "mean_v1" else mul(m, m)), f"{fid} of the pooled parts")


@check.obligation("replicated_constant", bounds="1..3 replicas, any values per replica", functions=F)
def replicated(c):
    M = core()
    n = c.choose("n", [1, 2, 3])
    xs = [T(c, f"x{i}") for i in range(n)]
    parts = [M.SufficientStats("evaluation", "replicated_constant_v1", {"sum": x, "square_sum": x.square()}, {"replicas": 1}) for x in xs]
    a = parts[0]
    for q in parts[1:]:
        a = a.combine(q)
    mean = div(add(*[val(x) for x in xs]), n)
    var = add(div(add(*[mul(val(x), val(x)) for x in xs]), n), mul(-1, mean, mean))
    eps = 16 * torch.finfo(D).eps
    if c.symbolic:
        m2 = st.e_mul(st._norm(mean, "f"), st._norm(mean, "f"))
        tol = st.e_mul(Fraction(eps), st.e_max(Fraction(1), m2))
        bad = st.e_gt(st._norm(var, "f"), tol)
    else:
        tol = eps * max(1.0, mean * mean)
        bad = var > tol
        if abs(var - tol) < 0.5 * tol:
            return
    try:
        r = a.finalize()
    except ValueError:
        c.check(bad, "replicas that agree must be accepted")
        return
    c.check(snot(bad), "replicas that differ must be refused")
    c.check(st.close(val(r), mean), "value of the constant")


# ---------------------------------------------------------------- VQ composition

def rep_const(c, t, prefix, name, value, n):
    """a configuration constant carried by n replicas"""
    t[f"{prefix}_sum:{name}"] = const(c, mul(value, n))
    t[f"{prefix}_square_sum:{name}"] = const(c, mul(value, value, n))


def vq_parts(c, tag, slots, reps=(1, 1), pfx=""):
    """two partial statistics of a VQ loss + the pooled specification value"""
    parts = [({}, {}) for _ in reps]
    spec = []
    for s, entropy in slots:
        w, cw, ew = c.real(f"{tag}w{s}"), c.real(f"{tag}cw{s}"), c.real(f"{tag}ew{s}")
        emb, com, prob, el, ve = [], [], [], [], []
        for i, r in enumerate(reps):
            t, k = parts[i]
            e, m = T(c, f"{tag}e{s}{i}"), T(c, f"{tag}c{s}{i}")
            t[f"{pfx}embed_sum:{s}"], t[f"{pfx}commit_sum:{s}"] = e, m
            for nm, v in (("slot_weight", w), ("commit_weight", cw)) + ((("entropy_weight", ew),) if entropy else ()):
                t[f"{pfx}{nm}_sum:{s}"] = const(c, mul(v, r))
                t[f"{pfx}{nm}_square_sum:{s}"] = const(c, mul(v, v, r))
            ne, nv = c.zint(f"{tag}ne{s}{i}", 0, 8), c.zint(f"{tag}nv{s}{i}", 0, 8)
            k[f"{pfx}elements:{s}"], k[f"{pfx}vectors:{s}"], k[f"{pfx}constant_replicas:{s}"] = ne, nv, r
            emb.append(val(e)); com.append(val(m)); el.append(ne); ve.append(nv)
            if entropy:
                pr = st.real_tensor(c, f"{tag}p{s}{i}", (2,), D, lo=0)
                t[f"{pfx}probability_sum:{s}"] = pr
                prob.append(st.vals(pr))
        spec.append((s, w, cw, ew, emb, com, prob, el, ve))
    return parts, spec


def vq_value(c, spec):
    """None when some slot selected nothing"""
    total = []
    for s, w, cw, ew, emb, com, prob, el, ve in spec:
        n, v = sum(el), sum(ve)
        if bool(n == 0) or bool(v == 0):
            return None
        x = div(add(add(*emb), mul(cw, add(*com))), n)
        if prob:
            h = []
            for j in range(2):
                p = div(add(*[q[j] for q in prob]), v)
                if c.symbolic:
                    lg = st.f_log(st.e_max(st._norm(p, "f"), Fraction(1e-7)))
                else:
                    import math
                    lg = math.log(max(p, 1e-7))
                h.append(mul(p, lg))
            x = add(x, mul(ew, add(*h)))
        total.append(mul(w, x))
    return add(*total)


def merged(c, M, fid, parts, scope="evaluation", pfx=""):
    st_ = [M.SufficientStats(scope, fid, {pfx + k: v for k, v in t.items()}, {pfx + k: v for k, v in n.items()}) for t, n in parts]
    a = st_[0]
    for q in st_[1:]:
        a = a.combine(q)
    return a


@check.obligation("vq_composition", bounds="one plain slot and one with entropy over 2 codes, two parts, counts 0..8", functions=F)
def vq_comp(c):
    M = core()
    parts, spec = vq_parts(c, "", [("a", False), ("b.c", True)])
    want = vq_value(c, spec)
    a = merged(c, M, "vq_composition_v1", parts)
    if want is None:
        expect_error(c, a.finalize, message="a slot without selected entries must be refused")
        return
    c.check(st.close(val(a.finalize()), want), "VQ loss of the pooled parts")


@check.obligation("vq_config_disagreement", bounds="two replicas with any two configuration weights", functions=F)
def vq_dis(c):
    M = core()
    parts, spec = vq_parts(c, "", [("a", True)])
    which = c.choose("which", ["slot_weight", "commit_weight", "entropy_weight"])
    other = c.real("other")
    t = parts[1][0]
    mine = {"slot_weight": spec[0][1], "commit_weight": spec[0][2], "entropy_weight": spec[0][3]}[which]
    t[f"{which}_sum:a"], t[f"{which}_square_sum:a"] = const(c, other), const(c, mul(other, other))
    for i in range(2):
        c.assume(parts[i][1]["elements:a"] > 0)
        c.assume(parts[i][1]["vectors:a"] > 0)
    for x in (mine, other):
        c.assume(x <= 4), c.assume(x >= -4)
    far = sor(mine - other > 1, other - mine > 1)
    c.assume(far)
    a = merged(c, M, "vq_composition_v1", parts)
    expect_error(c, a.finalize, message="ranks with different configuration must be refused")


# ---------------------------------------------------------------- composed totals

def comp_parts(c, tag, group, terms, reps=(1, 1)):
    parts = [({}, {}) for _ in reps]
    spec = []
    for n, kind in enumerate(terms):
        item = f"{n:04d}"
        p = f"{group}.{item}"
        if kind == "vq":
            vp, vs = vq_parts(c, f"{tag}{n}", [("a", False)], reps)
            for (t, k), (vt, vk) in zip(parts, vp):
                t.update({f"vq:{p}:{x}": y for x, y in vt.items()})
                k.update({f"vq:{p}:{x}": y for x, y in vk.items()})
            spec.append(("vq", vs))
            continue
        w = c.real(f"{tag}w{n}")
        sums, counts = [], []
        for i, r in enumerate(reps):
            t, k = parts[i]
            s, m = T(c, f"{tag}s{n}{i}"), c.zint(f"{tag}n{n}{i}", 0, 8)
            nm = {"mean": "mean", "reg": "reg"}[kind]
            t[f"{nm}_sum:{p}"] = s
            t[f"{nm}_weight_sum:{p}"], t[f"{nm}_weight_square_sum:{p}"] = const(c, mul(w, r)), const(c, mul(w, w, r))
            k[f"{'mean_count' if kind == 'mean' else 'reg_cells'}:{p}"] = m
            k[f"{nm}_replicas:{p}"] = r
            sums.append(val(s)); counts.append(m)
        spec.append((kind, w, sums, counts))
    return parts, spec


def comp_value(c, spec):
    total = []
    for e in spec:
        if e[0] == "vq":
            v = vq_value(c, e[1])
            if v is None:
                return None
            total.append(v)
            continue
        kind, w, sums, counts = e
        n = sum(counts)
        if bool(n == 0):
            return None
        m = div(add(*sums), n)
        total.append(mul(w, m) if kind == "mean" else mul(w, m, m))
    return add(*total)


@check.obligation("loss_composition", bounds="terms (mean, mean, regulariser, VQ), two parts, counts 0..8", functions=F, max_paths=4000)
def loss_comp(c):
    M = core()
    terms = c.choose("terms", [["mean"], ["mean", "reg"], ["mean", "mean", "reg"], ["mean", "vq"], ["reg"]])
    parts, spec = comp_parts(c, "t", "all", terms)
    want = comp_value(c, spec)
    a = merged(c, M, "loss_composition_v1", parts)
    if want is None:
        expect_error(c, a.finalize, message="a term without values must be refused")
        return
    c.check(st.close(val(a.finalize()), want), "weighted total of the pooled terms")


@check.obligation("kd_total", bounds="KD, real and optional independent groups, two parts, counts 1..4", functions=F)
def kd_total(c):
    M = core()
    indep = c.choose("indep", [[], ["reg"], ["vq"]])
    groups = {}
    for g, terms in (("kd", ["mean", "mean"]), ("real", ["mean"]), ("independent", indep)):
        groups[g] = comp_parts(c, g, g, terms) if terms else None
    alpha, temp = c.real("alpha", 0, 1), c.real("T", "1/4", 8) if c.symbolic else c.real("T", 0.25, 8)
    parts = []
    for i in range(2):
        t = {"kd_alpha_sum": const(c, alpha), "kd_alpha_square_sum": const(c, mul(alpha, alpha)),
             "kd_temperature_sum": const(c, temp), "kd_temperature_square_sum": const(c, mul(temp, temp))}
        k = {"kd_config_replicas": 1}
        for g, v in groups.items():
            if v is not None:
                t.update(v[0][i][0]); k.update(v[0][i][1])
        for n in list(k):
            if n != "kd_config_replicas" and not n.endswith("replicas") and "replicas" not in n:
                c.assume(k[n] >= 1)
        parts.append((t, k))
    a = merged(c, M, "kd_total_v1", parts)
    v = {g: (comp_value(c, x[1]) if x is not None else 0) for g, x in groups.items()}
    if any(x is None for x in v.values()):
        return
    want = add(mul(alpha, temp, temp, v["kd"]), mul(add(1, mul(-1, alpha)), v["real"]), v["independent"])
    c.check(st.close(val(a.finalize()), want), "alpha*T^2*KD + (1-alpha)*real + independent")


# ---------------------------------------------------------------- schema

def full(c, fid):
    if fid in SIMPLE:
        tk, ck = SIMPLE[fid]
        return {tk: T(c, "s")}, {ck: 1}
    if fid == "replicated_constant_v1":
        return {"sum": T(c, "s"), "square_sum": T(c, "q")}, {"replicas": 1}
    if fid == "vq_composition_v1":
        return vq_parts(c, "", [("a", False), ("b", True)], (1,))[0][0]
    if fid == "loss_composition_v1":
        return comp_parts(c, "t", "all", ["mean", "reg", "vq"], (1,))[0][0]
    t, k = {}, {"kd_config_replicas": 1}
    for g, terms in (("kd", ["mean"]), ("real", ["mean", "reg"]), ("independent", ["reg"])):
        p = comp_parts(c, g, g, terms, (1,))[0][0]
        t.update(p[0]); k.update(p[1])
    for n in ("kd_alpha_sum", "kd_alpha_square_sum", "kd_temperature_sum", "kd_temperature_square_sum"):
        t[n] = T(c, n)
    return t, k


FIDS = list(SIMPLE) + ["replicated_constant_v1", "vq_composition_v1", "loss_composition_v1", "kd_total_v1"]


@check.obligation("schema", bounds="every registered finaliser; every single key removed, replaced by a tensor of another name, or added", functions=F)
def schema(c):
    M = core()
    fid = c.choose("fid", FIDS)
    t, k = full(c, fid)
    s = M.SufficientStats("evaluation", fid, dict(t), dict(k))
    c.check(s.finalizer_id == fid, "complete schema accepted")
    op = c.choose("op", ["drop_t", "drop_k", "add_t", "add_k", "neg", "nontensor", "boolcount"])
    t, k, nt, nk = dict(t), dict(k), len(t), len(k)
    if op == "drop_t":
        key = c.choose("key", sorted(t))
        del t[key]
    elif op == "drop_k":
        del k[c.choose("key", sorted(k))]
    elif op == "add_t":
        t[c.choose("key", ["extra", "embed_sum:z", "probability_sum:a", "mean_sum:all.0009", "sum", "mean_weight_sum:kd.0000x"])] = T(c, "extra")
        if len(t) == nt:
            return
    elif op == "add_k":
        k[c.choose("key", ["extra", "elements:z", "count", "mean_count:all.0009"])] = 1
        if len(k) == nk:
            return
    elif op == "neg":
        k[c.choose("key", sorted(k))] = c.int("n", -9, -1)
    elif op == "boolcount":
        k[c.choose("key", sorted(k))] = True
    else:
        t[c.choose("key", sorted(t))] = 1.0
    expect_error(c, lambda: M.SufficientStats("evaluation", fid, t, k), types=(ValueError, TypeError), message=f"{fid}: {op} must be refused")


@check.obligation("incompatible", bounds="every pair of scope, finaliser, key set, shape and dtype difference", functions=F)
def incompatible(c):
    M = core()
    case = c.choose("case", ["scope", "fid", "keys", "shape", "dtype", "unknown"])
    a = M.SufficientStats("evaluation", "mean_v1", {"sum": T(c, "a", (2,))}, {"count": 1})
    if case == "scope":
        b = M.SufficientStats("global_batch", "mean_v1", {"sum": T(c, "b", (2,))}, {"count": 1})
    elif case == "fid":
        b = M.SufficientStats("evaluation", "policy_mean_square_v1", {"valid_logit_sum": T(c, "b", (2,))}, {"valid_cells": 1})
    elif case == "keys":
        a = M.SufficientStats("evaluation", "vq_composition_v1", *vq_parts(c, "", [("a", False)], (1,))[0][0])
        b = M.SufficientStats("evaluation", "vq_composition_v1", *vq_parts(c, "z", [("b", False)], (1,))[0][0])
    elif case == "shape":
        b = M.SufficientStats("evaluation", "mean_v1", {"sum": T(c, "b", c.choose("sh", [(), (1,), (2, 1), (3,)]))}, {"count": 1})
    elif case == "dtype":
        b = M.SufficientStats("evaluation", "mean_v1", {"sum": T(c, "b", (2,)).to(torch.float32)}, {"count": 1})
    else:
        expect_error(c, lambda: M.SufficientStats("evaluation", "median_v1", {"sum": T(c, "b")}, {"count": 1}), message="unknown finaliser")
        return
    expect_error(c, lambda: a.combine(b), message=f"{case} mismatch must be refused")


if __name__ == "__main__":
    check.main()
