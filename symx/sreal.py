"""Scalar arithmetic for specifications: exact/symbolic in a symbolic run, floats in a replay."""
import math
from fractions import Fraction

from . import symtorch as st
from .engine import ctx
from .values import is_sym, ite, sand, sor, snot


def _s():
    return ctx().symbolic


def n(x):
    return st._norm(x, "f") if _s() else float(x)


def add(*xs):
    return st.s_sum([n(x) for x in xs]) if _s() else float(sum(float(x) for x in xs))


def neg(x):
    return st.e_mul(Fraction(-1), n(x)) if _s() else -float(x)


def sub(a, b):
    return add(a, neg(b))


def mul(*xs):
    if _s():
        r = Fraction(1)
        for x in xs:
            r = st.e_mul(r, n(x))
        return r
    r = 1.0
    for x in xs:
        r *= float(x)
    return r


def div(a, b):
    return st.e_div(n(a), n(b)) if _s() else float(a) / float(b)


def sq(x):
    return mul(x, x)


def mean(xs):
    return div(add(*xs), len(xs))


def exp(x):
    return st.f_exp(n(x)) if _s() else math.exp(x)


def log(x):
    return st.f_log(n(x)) if _s() else math.log(x)


def sqrt(x):
    return st.f_sqrt(n(x)) if _s() else math.sqrt(x)


def sigmoid(x):
    return st.f_sigmoid(n(x)) if _s() else 1 / (1 + math.exp(-x))


def softplus(x):
    return st.f_softplus(n(x)) if _s() else max(x, 0) + math.log1p(math.exp(-abs(x)))


def lse(xs):
    if _s():
        return st.lse([n(x) for x in xs])
    m = max(xs)
    return m + math.log(sum(math.exp(x - m) for x in xs))


def log_softmax(xs):
    l = lse(xs)
    return [sub(x, l) for x in xs]


def softmax(xs):
    return [exp(x) for x in log_softmax(xs)]


def gt(a, b):
    return st.e_gt(n(a), n(b)) if _s() else a > b


def ge(a, b):
    return st.e_ge(n(a), n(b)) if _s() else a >= b


def lt(a, b):
    return gt(b, a)


def where(c, a, b):
    return st.e_where(c, n(a), n(b)) if _s() else (a if c else b)


def maxi(a, b):
    return st.e_max(n(a), n(b)) if _s() else max(a, b)


def mini(a, b):
    return st.e_min(n(a), n(b)) if _s() else min(a, b)


def absx(x):
    return st._abs(n(x)) if _s() else abs(x)


def floor(x):
    return st.e_floor(n(x)) if _s() else math.floor(x)


def rnd(x):
    """round half to even"""
    return st.e_round(n(x)) if _s() else round(x)


def clamp(x, lo, hi):
    return mini(maxi(x, lo), hi)


def tanh(x):
    return st.f_tanh(n(x)) if _s() else math.tanh(x)


def relu(x):
    return maxi(x, 0)


def powi(x, k):
    return mul(*([x] * k)) if k else n(1)


close = st.close
