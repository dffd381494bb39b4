"""Runs the obligations of one property, confirms counterexamples on the real code, writes evidence."""
from __future__ import annotations

import argparse
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")


class Obligation:
    def __init__(self, name, fn, bounds, covers, tiers, budget, max_paths, raw, functions, timeout_ms, replays, perturb=None):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.covers = covers
        self.tiers = tiers
        self.budget = budget
        self.max_paths = max_paths
        self.raw = raw
        self.functions = functions
        self.timeout_ms = timeout_ms
        self.replays = replays
        self.perturb = perturb or {}      # further concrete values tried for an input when a counterexample uses an unknown function


class Check:
    def __init__(self, pid, title, assumptions=(), setup=None, level="model_checking"):
        self.pid = pid
        self.title = title
        self.assumptions = list(assumptions)
        self.obligations = []
        self.setup = setup            # called in each worker with symbolic flag
        self.level = level
        self.file = os.path.abspath(sys.modules["__main__"].__file__ if hasattr(sys.modules["__main__"], "__file__") else "")

    def obligation(self, name, bounds="", covers=(), tiers=("quick", "thorough"), budget=240.0, max_paths=50000,
                   raw=False, functions=(), timeout_ms=120000, replays=1, perturb=None, **params):
        """Decorator.  fn(ctx, **params).  raw=True: fn(rec, tier) -> drives the solver itself
        and returns a RawResult (used for LLVM / tensor-graph encodings)."""
        def deco(fn):
            f = (lambda c, _fn=fn, _p=params: _fn(c, **_p)) if params else fn
            self.obligations.append(Obligation(name, f, bounds, covers, tiers, budget, max_paths, raw,
                                               list(functions), timeout_ms, replays, perturb))
            return fn
        return deco

    # ------------------------------------------------------------------ workers
    def _run_one(self, ob, conn):
        if os.environ.get('SYMX_DUMP'):
            import faulthandler
            faulthandler.dump_traceback_later(float(os.environ['SYMX_DUMP']), exit=True)
        try:
            from . import instrument, engine
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
            if not ob.raw:
                instrument.install(symbolic=True)
                if self.setup:
                    self.setup(True)
                res = engine.explore(ob.fn, ob.name, max_paths=ob.max_paths, max_seconds=ob.budget,
                                     timeout_ms=ob.timeout_ms, required_covers=ob.covers, sample_inputs=max(ob.replays, 1))
            else:
                instrument.install(symbolic=False)
                res = ob.fn()
                res.name = ob.name
            v = res.violation
            conn.send(dict(
                name=ob.name, stats=res.stats.as_dict(), error=res.error, wall=round(res.wall, 2),
                samples=res.samples,
                violation=None if v is None else dict(message=str(v.message), assignment=v.assignment,
                                                      detail=v.detail, unexpected=getattr(v, "unexpected", False),
                                                      alternatives=getattr(v, "alternatives", []),
                                                      confirmed=getattr(v, "confirmed", None)),
                extra=getattr(res, "extra", None)))
        except BaseException as ex:  # noqa
            conn.send(dict(name=ob.name, stats=None, error=f"{type(ex).__name__}: {ex}\n{traceback.format_exc(limit=-8)}",
                           wall=0, samples=[], violation=None, extra=None))
        finally:
            conn.close()

    def _replay_in_process(self, items):
        """items: list of (obligation name, assignment). Concrete, uninstrumented. Returns list of
        None | message."""
        from . import engine, instrument
        instrument.install(symbolic=False)
        if self.setup:
            self.setup(False)
        out = []
        by = {o.name: o for o in self.obligations}
        for name, assignment in items:
            ob = by[name]
            try:
                v = engine.run_concrete(ob.fn, assignment)
                out.append(None if v is None else ["violation", v.message, v.detail])
                if v is not None and v.message == "the code does not terminate":
                    engine.HANG_CONCRETE_S = 6.0          # one full-length wait is enough evidence
            except engine.SymxError as ex:
                out.append(["engine", f"{type(ex).__name__}: {ex}", traceback.format_exc(limit=-5)])
            except Exception as ex:
                out.append(["exception", f"{type(ex).__name__}: {ex}", traceback.format_exc(limit=-6)])
        return out

    def _replay_subprocess(self, items, timeout=400):
        with tempfile.TemporaryDirectory(prefix="symx_replay_") as d:
            src, dst = os.path.join(d, "in.json"), os.path.join(d, "out.json")
            with open(src, "w") as f:
                json.dump(items, f)
            try:
                p = subprocess.run([sys.executable, self.file, "--replay-batch", src, dst], cwd=VERIF,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                return None, "replay timed out"
            if not os.path.exists(dst):
                if p.returncode < 0 and p.returncode not in (-9, -15):
                    if len(items) == 1:                  # compiled code under test took the process down
                        return [["violation", f"the real code crashed with signal {-p.returncode}", None]], None
                    out = []
                    for it in items[:60]:
                        o, e = self._replay_subprocess([it], timeout=60)
                        out.append(o[0] if o else ["engine", str(e), None])
                    return out + [["engine", "not replayed", None]] * (len(items) - len(out)), None
                return None, p.stdout.decode(errors="replace")[-2000:]
            with open(dst) as f:
                return json.load(f), None

    # ------------------------------------------------------------------ main
    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--only")
        ap.add_argument("--replay")
        ap.add_argument("--replay-batch", nargs=2)
        ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMX_JOBS", "8")))
        ap.add_argument("-v", action="store_true")
        a = ap.parse_args()
        if a.replay_batch:
            with open(a.replay_batch[0]) as f:
                items = json.load(f)
            out = self._replay_in_process(items)
            with open(a.replay_batch[1], "w") as f:
                json.dump(out, f)
            return 0
        if a.replay:
            with open(a.replay) as f:
                rep = json.load(f)
            r = self._replay_in_process([[rep["obligation"], rep["assignment"]]])[0]
            print("replay:", "holds" if r is None else r)
            return 0 if r is None else 1
        sys.exit(self._run(a))

    def _run(self, a):
        t0 = time.time()
        seed = int(os.environ.get("VERIF_SEED", "1"))
        todo = [o for o in self.obligations if a.tier in o.tiers and (not a.only or a.only in o.name)]
        if not todo:
            print("no obligations selected")
            return 2
        import numpy, z3  # noqa: preload before forking
        try:
            import torch  # noqa
            torch.set_num_threads(1)
        except ImportError:
            pass
        mpc = mp.get_context("fork")
        pending, running, results = list(todo), [], {}
        begun, alarm, unlisted = time.time(), None, [k["obligation"] for k in self._known()]
        none = dict(stats=None, wall=0, samples=[], violation=None, extra=None)
        while pending or running:
            while pending and len(running) < a.jobs:
                ob = pending.pop(0)
                r, w = mpc.Pipe(False)
                p = mpc.Process(target=self._run_one, args=(ob, w))
                p.start()
                w.close()
                running.append((ob, p, r, time.time()))
            now = time.time()
            if alarm is None and any(q["violation"] and n not in unlisted for n, q in results.items()):
                alarm = now
            if (alarm and now - alarm > 60) or (a.tier == "quick" and now - begun > 640):
                # a counterexample is at hand (or the time is up): the rest cannot turn this run into "holds"
                why = "stopped: another obligation has a counterexample" if alarm else "stopped: the time for the whole check is up"
                for ob, p, r, st in running:
                    p.kill()
                    p.join()
                for ob in [x[0] for x in running] + pending:
                    results[ob.name] = dict(none, name=ob.name, error=why)
                pending, running = [], []
            for item in list(running):
                ob, p, r, st = item
                if r.poll(0.02):
                    try:
                        results[ob.name] = r.recv()
                    except EOFError:
                        results[ob.name] = dict(name=ob.name, stats=None, error="worker died", wall=0, samples=[],
                                                violation=None, extra=None)
                    p.join()
                    running.remove(item)
                elif not p.is_alive() and not r.poll(0.1):
                    results[ob.name] = dict(name=ob.name, stats=None, error="worker died", wall=0, samples=[],
                                            violation=None, extra=None)
                    running.remove(item)
                elif time.time() - st > ob.budget * 1.3 + 60:
                    p.kill()
                    results[ob.name] = dict(name=ob.name, stats=None, error=f"hard time limit ({ob.budget}s budget)", wall=0,
                                            samples=[], violation=None, extra=None)
                    running.remove(item)
        return self._finish(a, seed, todo, results, time.time() - t0, t0)

    def _known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        with open(p) as f:
            return [k for k in json.load(f)["known"] if k.get("property") == self.pid]

    def _finish(self, a, seed, todo, results, wall, t0):
        errors, viols, knowns = [], [], []
        tot = dict(paths=0, infeasible=0, branches=0, queries=0, assertions=0, solver_s=0.0)
        rows, samples, replay_items = [], [], []
        for ob in todo:
            r = results[ob.name]
            s = r["stats"] or {}
            for k in tot:
                tot[k] += s.get(k, 0)
            rows.append(dict(obligation=ob.name, bounds=ob.bounds, functions=ob.functions, wall_s=r["wall"],
                             status="violated" if r["violation"] else ("error" if r["error"] else "holds"),
                             **{k: s.get(k, 0) for k in ("paths", "queries", "assertions", "solver_s")},
                             covers=s.get("covers", {}), **(r["extra"] or {})))
            if a.v or r["error"] or r["violation"]:
                st = "VIOL" if r["violation"] else ("ERR" if r["error"] else "ok")
                print(f"[{self.pid}] {ob.name}: {st} wall={r['wall']} {s}")
                if r["violation"]:
                    print("   ", r["violation"]["message"], "|", json.dumps(r["violation"]["assignment"])[:1500],
                          "|", str(r["violation"]["detail"])[:1500])
            if r["error"]:
                errors.append((ob.name, r["error"]))
            for smp in r["samples"][:2]:
                samples.append(dict(obligation=ob.name, inputs=_short(smp)))
            if not ob.raw:
                for smp in r["samples"][:ob.replays]:
                    replay_items.append(("sample", ob, smp, None))
            if r["violation"]:
                v = r["violation"]
                if ob.raw:
                    viols.append((ob, v, v.get("confirmed")))
                else:
                    grp = []
                    v["alternatives"] = list(v.get("alternatives") or []) + [
                        {**v["assignment"], k: x} for k, xs in ob.perturb.items() if k in v["assignment"] for x in xs]
                    for asg in [v["assignment"]] + list(v.get("alternatives") or []):
                        replay_items.append(("viol", ob, asg, (v, grp)))
        # concrete replay on the real, uninstrumented code
        validated = 0
        if replay_items:
            out, err = self._replay_subprocess([[o.name, asg] for _, o, asg, _ in replay_items])
            if out is None:
                errors.append(("replay", err))
            else:
                for (kind, ob, asg, v), r in zip(replay_items, out):
                    if kind == "sample":
                        if r is None:
                            validated += 1
                        elif r[0] in ("violation", "exception"):
                            viols.append((ob, dict(message=f"concrete run of a witness path: {r[1]}", assignment=asg,
                                                   detail=r[2]), True))
                        else:
                            errors.append((ob.name, f"witness replay: {r}"))
                    else:
                        v, grp = v
                        grp.append(r)
                        if r is not None and r[0] in ("violation", "exception"):
                            if not any(x == "done" for x in grp):
                                grp.append("done")
                                v = dict(v)
                                v["assignment"] = asg
                                v["replayed"] = r
                                viols.append((ob, v, True))
                        elif "done" not in grp and v["message"].startswith("C++ extension:") and r is None:
                            # undefined behaviour of the compiled code (out of bounds, use after free ...) need not show in a run
                            grp.append("done")
                            viols.append((ob, dict(v, replayed="undefined behaviour; the concrete run shows no symptom"), True))
                        elif len([x for x in grp if x != "done"]) == 1 + len(v.get("alternatives") or []) and "done" not in grp:
                            errors.append((ob.name, f"counterexample did not reproduce on the real code: {v['message']} "
                                                    f"{json.dumps(asg)[:800]} detail={v['detail']} -> {r}"))
        reported = []
        known = self._known()
        for ob, v, confirmed in viols:
            if not confirmed:
                errors.append((ob.name, f"unconfirmed counterexample: {v['message']}"))
                continue
            k = next((k for k in known if k["obligation"] == ob.name and k["match"] in v["message"]), None)
            if k is not None:
                knowns.append((k, v))
                continue
            reported.append((ob, v))
        cov = dict(
            states=tot["paths"], transitions=tot["branches"], traces_validated_against_impl=validated,
            samples=samples[:6] or [dict(note="no witness recorded")],
            obligations_run=len(todo), obligations_held=sum(1 for r in rows if r["status"] == "holds"),
            solver_queries=tot["queries"], assertions_decided=tot["assertions"], solver_s=round(tot["solver_s"], 2),
            infeasible_paths=tot["infeasible"], per_obligation=rows,
            functions_encoded=sorted({f for o in todo for f in o.functions}),
            explanation="states = symbolically executed paths (each stands for every input satisfying its path "
                        "condition), transitions = solver-decided branch points, traces_validated_against_impl = "
                        "witness paths re-run concretely on the uninstrumented code with the same assertions",
        )
        ev = dict(property=self.pid, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=seed,
                  level=self.level, coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - t0, 2),
                  violations=len(reported))
        if not a.only and not os.environ.get("SYMX_NOEVIDENCE"):
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
                json.dump(ev, f, indent=1, default=str)
        for k, v in knowns:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        for i, (ob, v) in enumerate(reported):
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}_{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, obligation=ob.name, message=v["message"], assignment=v["assignment"],
                               detail=v.get("detail"), replayed=v.get("replayed"),
                               how=f"SYMX: {sys.executable} {os.path.relpath(self.file, VERIF)} --replay {path}"),
                          f, indent=1, default=str)
            print(f"VIOLATION property={self.pid} replay={path}")
            print(f"   {ob.name}: {v['message']}")
        print(f"[{self.pid}] {len(todo)} obligations, {cov['obligations_held']} hold, paths={tot['paths']} "
              f"queries={tot['queries']} assertions={tot['assertions']} solver={tot['solver_s']:.1f}s "
              f"validated={validated} wall={time.time() - t0:.1f}s")
        if reported:
            return 1
        if errors:
            for n, e in errors:
                print(f"INCONCLUSIVE [{self.pid}] {n}: {str(e)[:2500]}")
            return 2
        return 0


def _short(d):
    s = json.dumps(d, default=str)
    return d if len(s) < 1200 else s[:1200]
