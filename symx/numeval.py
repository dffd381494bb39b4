"""Numeric search for a counterexample of a nonlinear / transcendental assertion.

The solver decides that an assertion holds; when it can neither prove nor refute one, candidate inputs are
evaluated numerically with sqrt/exp/log/... as the real functions.  A candidate found here is only reported
after it has been replayed on the real code, so a wrong guess cannot raise an alarm.
"""
from __future__ import annotations

import math
import random
import time
from fractions import Fraction

import z3


class GiveUp(Exception):
    pass


def _sig(x):
    return 1 / (1 + math.exp(-x)) if x > -700 else 0.0


FN = {"t_sqrt": math.sqrt, "t_exp": math.exp, "t_log": math.log, "t_sigmoid": _sig, "t_tanh": math.tanh,
      "t_softplus": lambda x: math.log1p(math.exp(-abs(x))) + max(x, 0), "t_inv": lambda x: 1 / x, "t_erf": math.erf,
      "t_pow": lambda x, k: x ** k}


class Eval:
    def __init__(self, env):
        self.env, self.memo = env, {}

    def __call__(self, root):
        stack = [root]
        memo = self.memo
        while stack:
            e = stack[-1]
            k = e.get_id()
            if k in memo:
                stack.pop()
                continue
            ch = e.children() if z3.is_app(e) else None
            if ch is None:
                raise GiveUp("quantifier")
            if z3.is_app_of(e, z3.Z3_OP_ITE) and ch[0].get_id() in memo:
                c = memo[ch[0].get_id()]
                t = ch[1] if c else ch[2]
                if t.get_id() in memo:
                    memo[k] = memo[t.get_id()]
                    stack.pop()
                else:
                    stack.append(t)
                continue
            if z3.is_app_of(e, z3.Z3_OP_ITE):
                stack.append(ch[0])
                continue
            todo = [x for x in ch if x.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[k] = self.app(e, [memo[x.get_id()] for x in ch])
            stack.pop()
        return memo[root.get_id()]

    def app(self, e, a):
        d = e.decl()
        k = d.kind()
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if z3.is_int_value(e) or z3.is_bv_value(e):
            return e.as_long()
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_UNINTERPRETED:
            if not a:
                v = self.env(e)
                if v is None:
                    raise GiveUp(d.name())
                return v
            f = FN.get(d.name())
            if f is None:
                raise GiveUp(d.name())
            return f(*a)
        real = e.sort() == z3.RealSort() or (e.children() and e.children()[0].sort() == z3.RealSort())
        if k == z3.Z3_OP_AND:
            return all(a)
        if k == z3.Z3_OP_OR:
            return any(a)
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_IMPLIES:
            return (not a[0]) or a[1]
        if k == z3.Z3_OP_XOR:
            return a[0] != a[1]
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            if real and not isinstance(a[0], bool):
                return abs(a[0] - a[1]) <= 1e-7 * max(1.0, abs(a[0]), abs(a[1]))
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(a)) == len(a)
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if k == z3.Z3_OP_DIV:
            return a[0] / a[1]
        if k == z3.Z3_OP_POWER:
            return a[0] ** a[1]
        if k == z3.Z3_OP_TO_REAL:
            return float(a[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if k == z3.Z3_OP_IS_INT:
            return a[0] == math.floor(a[0])
        if k == z3.Z3_OP_IDIV:
            return a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
        if k == z3.Z3_OP_MOD:
            return a[0] % abs(a[1])
        # bit vectors and the rest: substitute the values and let z3 fold
        subs = [z3.BitVecVal(v, x.size()) if z3.is_bv(x) else z3.BoolVal(v) if z3.is_bool(x) else z3.IntVal(v) if x.sort() == z3.IntSort() else z3.RealVal(v)
                for v, x in zip(a, e.children())]
        r = z3.simplify(d(*subs))
        if z3.is_bv_value(r) or z3.is_int_value(r):
            return r.as_long()
        if z3.is_true(r) or z3.is_false(r):
            return z3.is_true(r)
        raise GiveUp(str(d))


class NumModel:
    numeric = True

    def __init__(self, reals, base):
        self.reals, self.base = reals, base

    def eval(self, e, model_completion=True):
        if z3.is_const(e) and e.decl().name() in self.reals and e.sort() == z3.RealSort():
            f = self.reals[e.decl().name()]
            return z3.Q(f.numerator, f.denominator)
        return self.base.eval(e, model_completion=model_completion)


def _has_real(e, memo):
    k = e.get_id()
    r = memo.get(k)
    if r is None:
        r = e.sort() == z3.RealSort() or any(_has_real(c, memo) for c in e.children())
        memo[k] = r
    return r


def search(ctx, cond, seconds=5.0, tries=120, seed=0):
    """-> NumModel or None"""
    t0 = time.perf_counter()
    facts = list(ctx.solver.assertions())
    memo = {}
    try:
        discrete = [f for f in facts if not _has_real(f, memo)]
    except RecursionError:
        return None
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*discrete)
    if s.check() != z3.sat:
        return None
    base = s.model()
    names = [k for k in ctx.order if ctx.inputs[k][0] == "real"]
    bounds = getattr(ctx, "real_bounds", {})
    # facts mentioning only one real constant prune early; keep the cheap ones first
    hard = [f for f in facts if _has_real(f, memo)]
    failed = None
    for i in range(tries):
        if time.perf_counter() - t0 > seconds:
            return None
        rnd = random.Random(4242 + i + 1000 * seed)
        den = rnd.choice((1, 2, 8, 16))
        span = rnd.choice((2, 3, 8, 20))
        reals = {}
        for n in names:
            lo, hi = bounds.get(n, (None, None))
            lo = -span if lo is None else Fraction(lo) if not isinstance(lo, Fraction) else lo
            hi = span if hi is None else Fraction(hi) if not isinstance(hi, Fraction) else hi
            lo2, hi2 = max(lo, -span), min(hi, span)
            if lo2 > hi2:
                lo2, hi2 = lo, hi
            v = Fraction(rnd.randint(math.ceil(lo2 * 16), math.floor(hi2 * 16)) if math.ceil(lo2 * 16) <= math.floor(hi2 * 16) else 0, 16)
            if not lo <= v <= hi:
                v = (Fraction(lo) + Fraction(hi)) / 2
            reals[n] = v

        def env(e):
            n = e.decl().name()
            if n in reals and e.sort() == z3.RealSort():
                return float(reals[n])
            v = base.eval(e, model_completion=True)
            if z3.is_bv_value(v) or z3.is_int_value(v):
                return v.as_long()
            if z3.is_true(v) or z3.is_false(v):
                return z3.is_true(v)
            return None
        ev = Eval(env)
        try:
            if failed is not None and not ev(failed):
                continue
            if not ev(cond):
                continue
            bad = next((f for f in hard if not ev(f)), None)
            if bad is None:
                return NumModel(reals, base)
            failed = bad
        except (GiveUp, RecursionError):
            return None
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
    return None
