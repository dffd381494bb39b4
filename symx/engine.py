"""Path-exploring symbolic executor for Python code.

The *real* functions of the code under test run on proxy values (SymInt, SymBool,
SymReal, ...).  Every time the interpreter needs a concrete truth value or a
concrete integer the engine asks the SMT solver which outcomes are feasible under
the current path condition, follows one and schedules the others; each path is
re-executed from the start with its recorded decisions (deterministic replay).
``check`` asks the solver for a value of the symbolic inputs that violates the
assertion on the current path: unsat on every path = holds within the bounds.
"""
from __future__ import annotations

import os
import time
import traceback

import z3

_CTX = None


class SymxError(BaseException):
    def __init__(self, *a):
        super().__init__(*a)
        # code under test may catch broad exceptions: remember it on the path
        if _CTX is not None and getattr(_CTX, "poison", None) is None:
            _CTX.poison = self


class Unsupported(SymxError):
    """The code used an operation the executor does not model: inconclusive."""


class Inconclusive(SymxError):
    """Solver answered unknown or a budget ran out."""


class PathInfeasible(BaseException):
    """Abandon the current path: an assumption does not hold on it."""

    def __init__(self, *a):
        super().__init__(*a)
        if _CTX is not None:
            _CTX.abandoned = True      # even if code under test swallows it


class Violation(BaseException):
    def __init__(self, message, assignment, detail=None):
        super().__init__(message)
        self.message = message
        self.assignment = assignment
        self.detail = detail
        self.alternatives = []
        if _CTX is not None and getattr(_CTX, "violated", None) is None:
            _CTX.violated = self       # even if code under test swallows it


class Hang(SymxError):
    """One path computed for very long without asking the solver anything."""


HANG_S, HANG_CONCRETE_S = 40.0, 30.0


def _watch(seconds):
    """(Re)start the watchdog of user CPU time (0: stop)."""
    import signal, threading
    if threading.current_thread() is not threading.main_thread():
        return
    if seconds:
        signal.signal(signal.SIGVTALRM, _hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def _hang(sig, frame):
    raise Hang("the code does not terminate")


def ctx():
    if _CTX is None:
        raise SymxError("no active symbolic context")
    return _CTX


def active():
    return _CTX is not None


def _set(c):
    global _CTX
    old = _CTX
    _CTX = c
    return old


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.branches = 0
        self.queries = 0
        self.checks = 0
        self.solver_s = 0.0
        self.covers = {}

    def add(self, o):
        self.paths += o.paths
        self.infeasible += o.infeasible
        self.branches += o.branches
        self.queries += o.queries
        self.checks += o.checks
        self.solver_s += o.solver_s
        for k, v in o.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v

    def as_dict(self):
        return dict(paths=self.paths, infeasible=self.infeasible, branches=self.branches,
                    queries=self.queries, assertions=self.checks,
                    solver_s=round(self.solver_s, 3), covers=self.covers)


class BaseCtx:
    symbolic = False

    # -- shared conveniences -------------------------------------------------
    def ints(self, prefix, n, lo, hi):
        return [self.int(f"{prefix}{i}", lo, hi) for i in range(n)]

    def bools(self, prefix, n):
        return [self.bool(f"{prefix}{i}") for i in range(n)]


class SymCtx(BaseCtx):
    """One path of a symbolic execution."""

    symbolic = True

    def __init__(self, prefix, stats, timeout_ms):
        self.solver = z3.Solver()
        self.timeout_ms = timeout_ms
        self.solver.set("timeout", timeout_ms)
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pending = []
        self.stats = stats
        self.inputs = {}     # name -> (kind, z3 expr)
        self.order = []
        self.model = None
        self.notes = {}
        self.fresh_n = 0
        self.trace = []      # extra things (logs) a harness wants kept

    # -- solver --------------------------------------------------------------
    def add(self, e):
        self.solver.add(e)

    def _query(self, *assumptions):
        t = time.perf_counter()
        _watch(0)
        r = self.solver.check(*assumptions)
        _watch(HANG_S)
        dt = time.perf_counter() - t
        self.stats.solver_s += dt
        self.stats.queries += 1
        if r == z3.unknown:
            raise Inconclusive(f"solver unknown: {self.solver.reason_unknown()} after {dt:.1f}s")
        return r == z3.sat

    # -- declaring inputs -------------------------------------------------------
    def _declare(self, name, kind, e):
        if name in self.inputs:
            raise SymxError(f"input {name} declared twice")
        self.inputs[name] = (kind, e)
        self.order.append(name)

    def int(self, name, lo, hi):
        from .values import SymInt, width_for
        if lo == hi:
            return lo
        w = width_for(lo, hi)
        e = z3.BitVec(name, w)
        v = SymInt(e, lo, hi)
        self._declare(name, "int", v)
        if lo >= 0:
            if lo > 0:
                self.add(z3.UGE(e, lo))
            if hi < (1 << w) - 1:
                self.add(z3.ULE(e, hi))
        else:
            self.add(e >= lo)
            if hi < (1 << (w - 1)) - 1:
                self.add(e <= hi)
        return v

    def bool(self, name):
        from .values import SymBool
        e = z3.Bool(name)
        v = SymBool(e)
        self._declare(name, "bool", v)
        return v

    def real(self, name, lo=None, hi=None):
        from .values import SymReal
        e = z3.Real(name)
        v = SymReal(e)
        self._declare(name, "real", v)
        if lo is not None:
            self.add(e >= z3.RealVal(lo))
        if hi is not None:
            self.add(e <= z3.RealVal(hi))
        self.__dict__.setdefault("real_bounds", {})[name] = (lo, hi)
        return v

    def zint(self, name, lo, hi):
        """Integer input in linear integer arithmetic (for div/mod by large constants)."""
        from .values import SymZ
        if lo == hi:
            return lo
        e = z3.Int(name)
        v = SymZ(e)
        self._declare(name, "zint", v)
        self.add(e >= lo)
        self.add(e <= hi)
        return v

    @property
    def _decided(self):
        return self.__dict__.setdefault("_decided_cache", {})

    def fresh_name(self, stem):
        self.fresh_n += 1
        return f"{stem}!{self.fresh_n}"

    # -- decisions ---------------------------------------------------------------
    def branch(self, e):
        """Decide a z3 Bool."""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        hit = self._decided.get(e.get_id())
        if hit is not None:
            return hit[1]
        val = self._branch(e)
        self._decided[e.get_id()] = (e, val)
        return val

    def _branch(self, e):
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d[0] != "b":
                raise SymxError("non-deterministic replay (branch expected)")
            val = d[1]
            self.decisions.append(d)
            if not d[2]:
                self.add(e if val else z3.Not(e))
            return val
        can_t = self._query(e)
        can_f = self._query(z3.Not(e)) if can_t else True
        self.pos += 1
        if can_t and can_f:
            self.pending.append(self.decisions + [("b", False, False)])
            self.decisions.append(("b", True, False))
            self.prefix = self.decisions
            self.add(e)
            return True
        # implied: no constraint needed
        self.decisions.append(("b", can_t, True))
        self.prefix = self.decisions
        return can_t

    def concretize(self, sym):
        """Fork over every feasible value of a SymInt."""
        e = sym.e
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            if d[0] == "v":
                self.pos += 1
                self.decisions.append(d)
                if not d[2]:
                    self.add(e == d[1])
                return sym.decode(d[1])
            if d[0] != "x":
                raise SymxError("non-deterministic replay (value expected)")
            excluded = d[1]
            for v in excluded:
                self.add(e != v)
            if not self._query():
                raise SymxError("excluded branch became infeasible")
        else:
            excluded = ()
            if not self._query():
                raise SymxError("path condition became infeasible")
        self.pos += 1
        m = self.solver.model()
        v = m.eval(e, model_completion=True).as_long()
        more = self._query(e != v)
        if more:
            self.pending.append(self.decisions + [("x", tuple(excluded) + (v,))])
            self.add(e == v)
        self.decisions.append(("v", v, not more and not excluded))
        self.prefix = self.decisions
        return sym.decode(v)

    def choose(self, name, options):
        """Nondeterministic choice among python objects (symbolic selector, forked)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    # -- harness API -------------------------------------------------------------
    def assume(self, c):
        from .values import as_z3bool
        if c is True:
            return
        if c is False:
            raise PathInfeasible()
        e = as_z3bool(c)
        self.add(e)
        if not self._query():
            raise PathInfeasible()

    def snapshot_assignment(self, m):
        out = {}
        for name in self.order:
            kind, v = self.inputs[name]
            val = m.eval(v.e, model_completion=True)
            if kind == "int":
                out[name] = v.decode(val.as_long())
            elif kind == "zint":
                out[name] = val.as_long()
            elif kind == "bool":
                out[name] = bool(z3.is_true(val))
            elif kind == "real":
                if z3.is_algebraic_value(val):
                    val = val.approx(40)
                out[name] = [str(val.numerator_as_long()), str(val.denominator_as_long())]
        if getattr(self, "hash_log", None):
            from .sbytes import eval_hash_log
            out["__hash__"] = eval_hash_log(self, m)
        return out

    def check(self, c, message, detail=None):
        from .values import as_z3bool
        self.stats.checks += 1
        if c is True:
            return
        e = as_z3bool(c)
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        m = None
        if any(k == "real" for k, _ in self.inputs.values()):
            m = self._refute(z3.Not(e))
            if m is False:
                return
        if m is not None or self._query(z3.Not(e)):
            m = m if m is not None else self.solver.model()
            d = None
            if detail is not None:
                try:
                    d = repr(detail() if callable(detail) else detail)[:2000]
                except Exception as ex:  # noqa
                    d = f"<detail failed {ex}>"
            v = Violation(message, self.snapshot_assignment(m), d)
            v.alternatives = [] if getattr(m, "numeric", False) else self.alternatives(z3.Not(e))
            if getattr(m, "numeric", False):
                from .numeval import search
                for k in (1, 2):
                    m2 = search(self, z3.Not(e), seconds=2, seed=k)
                    if m2 is not None:
                        v.alternatives.append(self.snapshot_assignment(m2))
            raise v
        # holds here

    def _refute(self, cond, first_ms=4000):
        """Nonlinear counterexamples are found faster with the real inputs pinned: try briefly in general, then pinned."""
        t = time.perf_counter()
        try:
            for ms in (600, first_ms):
                self.solver.set("timeout", min(ms, self.timeout_ms))
                self.stats.queries += 1
                r = self.solver.check(cond)
                if r != z3.unknown:
                    return self.solver.model() if r == z3.sat else False
                if ms == 600:
                    from .numeval import search
                    m = search(self, cond)
                    if m is not None:
                        return m
            import random
            for i in range(6):
                rnd = random.Random(77 + i)
                pins = []
                for k in self.order:
                    if self.inputs[k][0] == "real":
                        pins.append(self.inputs[k][1].e == z3.Q(rnd.randint(-24, 24) if i % 2 else rnd.randint(1, 15), 16 if i % 2 == 0 else 8))
                if self.solver.check(*pins) != z3.sat:
                    kept = []
                    for pin in pins:
                        if self.solver.check(*kept, pin) == z3.sat:
                            kept.append(pin)
                    pins = kept
                self.stats.queries += 1
                if self.solver.check(cond, *pins) == z3.sat:
                    return self.solver.model()
            return None
        finally:
            self.solver.set("timeout", self.timeout_ms)
            self.stats.solver_s += time.perf_counter() - t

    def alternatives(self, *conds, n=10):
        """Further models with generic real inputs: where uninterpreted functions stand for exp/log/...,
        the first model need not be one of the real functions."""
        import random
        reals = [k for k in self.order if self.inputs[k][0] == "real"]
        out = []
        if not reals:
            return out
        t0 = time.perf_counter()
        try:
            self.solver.set("timeout", 1500)
            for i in range(n):
                if time.perf_counter() - t0 > 20:
                    break
                rnd = random.Random(1000 + i)
                pins = []
                for k in reals:
                    e = self.inputs[k][1].e
                    q = z3.Q(rnd.randint(-24, 24) if i % 2 else rnd.randint(1, 15), 16 if i % 2 == 0 else 8)
                    pins.append(e == q)
                self.solver.push()
                for cnd in conds:
                    self.solver.add(cnd)
                if self.solver.check(*pins) != z3.sat:
                    kept = []
                    for pin in rnd.sample(pins, len(pins)):
                        if self.solver.check(*kept, pin) == z3.sat:
                            kept.append(pin)
                    if self.solver.check(*kept) != z3.sat:
                        self.solver.pop()
                        continue
                out.append(self.snapshot_assignment(self.solver.model()))
                self.solver.pop()
        except z3.Z3Exception:
            pass
        finally:
            self.solver.set("timeout", self.timeout_ms)
        return out

    def fail(self, message, detail=None):
        self.check(False, message, detail)

    def cover(self, label):
        self.stats.covers[label] = self.stats.covers.get(label, 0) + 1

    def feasible(self, c=True):
        from .values import as_z3bool
        if c is True:
            return self._query()
        return self._query(as_z3bool(c))


class ConcreteCtx(BaseCtx):
    """Replays a counterexample: same harness, plain values, real code."""

    symbolic = False

    def __init__(self, assignment, defaults=True):
        self.assignment = assignment
        self.stats = Stats()
        self.notes = {}
        self.trace = []
        self.fresh_n = 0
        self.defaults = defaults

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        if name in self.assignment:
            return int(self.assignment[name])
        return lo if lo > 0 or hi < 0 else 0

    zint = int

    def bool(self, name):
        return bool(self.assignment.get(name, False))

    def real(self, name, lo=None, hi=None):
        v = self.assignment.get(name)
        if v is None:
            return float(lo if lo is not None else 0.0)
        from fractions import Fraction
        return float(Fraction(int(v[0]), int(v[1])))

    def fresh_name(self, stem):
        self.fresh_n += 1
        return f"{stem}!{self.fresh_n}"

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def assume(self, c):
        if not bool(c):
            raise PathInfeasible()

    def check(self, c, message, detail=None):
        self.stats.checks += 1
        if not bool(c):
            d = None
            if detail is not None:
                try:
                    d = repr(detail() if callable(detail) else detail)[:2000]
                except Exception as ex:  # noqa
                    d = f"<detail failed {ex}>"
            raise Violation(message, self.assignment, d)

    def fail(self, message, detail=None):
        self.check(False, message, detail)

    def cover(self, label):
        self.stats.covers[label] = self.stats.covers.get(label, 0) + 1

    def feasible(self, c=True):
        return bool(c)


class Result:
    def __init__(self, name):
        self.name = name
        self.stats = Stats()
        self.violation = None
        self.error = None
        self.wall = 0.0
        self.replay_confirmed = None
        self.samples = []
        self.bounds = None
        self.functions = []


def run_concrete(harness, assignment):
    """Returns the Violation raised by the harness on these values, or None."""
    from .sbytes import patched_hashes
    c = ConcreteCtx(assignment)
    old = _set(c)
    _watch(HANG_CONCRETE_S)
    try:
        with patched_hashes(assignment.get("__hash__")):
            harness(c)
        if type(getattr(c, "poison", None)) is Hang:
            raise c.poison
        return None if getattr(c, "abandoned", False) else getattr(c, "violated", None)
    except Violation as v:
        return v
    except PathInfeasible:
        return None
    except Hang as ex:
        return Violation(str(ex), assignment, traceback.format_exc(limit=-6))
    except Exception:
        if getattr(c, "violated", None) is not None:
            return c.violated
        if getattr(c, "abandoned", False):
            return None
        raise
    finally:
        _watch(0)
        _set(old)


def explore(harness, name="", max_paths=20000, max_seconds=600.0, timeout_ms=120000,
            required_covers=(), sample_inputs=2):
    """Run harness(ctx) on every feasible path."""
    res = Result(name)
    start = time.perf_counter()
    work = [[]]
    while work:
        if res.stats.paths + res.stats.infeasible >= max_paths:
            res.error = f"path budget {max_paths} exhausted"
            break
        if time.perf_counter() - start > max_seconds:
            res.error = f"time budget {max_seconds}s exhausted after {res.stats.paths} paths"
            break
        prefix = work.pop()
        c = SymCtx(list(prefix), res.stats, timeout_ms)
        old = _set(c)
        try:
            _watch(HANG_S)
            try:
                harness(c)
            except (PathInfeasible, Violation, SymxError):
                raise
            except BaseException:
                if getattr(c, "poison", None) is None and getattr(c, "violated", None) is None and not getattr(c, "abandoned", False):
                    raise
            if getattr(c, "poison", None) is not None:
                raise c.poison
            if getattr(c, "abandoned", False):
                raise PathInfeasible()
            if getattr(c, "violated", None) is not None:
                raise c.violated
            res.stats.paths += 1
            if len(res.samples) < sample_inputs:
                c.solver.set("timeout", min(3000, timeout_ms))
                if c.solver.check() == z3.sat:
                    m = c.solver.model()
                else:
                    from .numeval import search
                    m = search(c, z3.BoolVal(True))
                if m is not None:
                    res.samples.append(c.snapshot_assignment(m))
        except PathInfeasible:
            res.stats.infeasible += 1
        except Violation as v:
            res.violation = v
            break
        except Hang as ex:
            _watch(0)
            tb = traceback.format_exc(limit=-8)
            c.solver.set("timeout", 20000)
            if c.solver.check() == z3.sat:
                res.violation = Violation(str(ex), c.snapshot_assignment(c.solver.model()), tb)
                break
            res.error = f"Hang: {ex}\n{tb}"
            break
        except (Inconclusive, Unsupported, SymxError) as ex:
            res.error = f"{type(ex).__name__}: {ex}\n{traceback.format_exc(limit=-6)}"
            break
        except z3.Z3Exception as ex:
            res.error = f"Z3Exception: {ex}\n{traceback.format_exc(limit=-8)}"
            break
        except Exception as ex:
            # An exception escaping the harness on a feasible path: the harness
            # catches what it expects, so treat it as a candidate violation and
            # let the concrete replay decide.
            tb = traceback.format_exc(limit=-8)
            assignment = {}
            try:
                if c._query():
                    assignment = c.snapshot_assignment(c.solver.model())
            except Exception:
                pass
            res.violation = Violation(f"unexpected {type(ex).__name__}: {ex}", assignment, tb)
            res.violation.alternatives = c.alternatives(n=4)
            res.violation.unexpected = True
            break
        finally:
            _watch(0)
            _set(old)
        work.extend(c.pending)
    if res.error is None and res.violation is None:
        missing = [l for l in required_covers if not res.stats.covers.get(l)]
        if res.stats.paths == 0:
            res.error = "vacuous: no path completed"
        elif res.stats.checks == 0:
            res.error = "vacuous: no assertion reached"
        elif missing:
            res.error = f"vacuous: cover points not reached: {missing}"
    res.wall = time.perf_counter() - start
    return res
