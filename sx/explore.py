"""Symbolic worker: explores one scenario variant, confirms candidates on the unmodified code, samples paths for validation."""
import gc
import importlib
import json
import os
import random
import select
import subprocess
import sys
import time
import traceback
from time import perf_counter as clock

from . import common
from . import engine as E
from . import instrument, scen
from .symsession import SymSession, ev, model_inputs, small_model


STRICT = bool(os.environ.get("SX_STRICT"))


class ConcWorker(object):
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = "0"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.p = subprocess.Popen([common.CON_PY, "-m", "sx.conc"], cwd=common.VERIF, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, req, timeout=60):
        if self.p is None:
            self.start()
        self.p.stdin.write((json.dumps(req) + "\n").encode())
        self.p.stdin.flush()
        buf = b""
        end = clock() + timeout
        fd = self.p.stdout.fileno()
        while not buf.endswith(b"\n"):
            left = end - clock()
            r = select.select([fd], [], [], max(0, left))[0] if left > 0 else []
            if not r:
                self.stop()
                return {"status": "hang", "fails": [], "covers": [], "obs": [], "known": []}
            d = os.read(fd, 1 << 20)
            if not d:
                self.stop()
                return {"status": "error", "trace": "concrete worker ended", "fails": [], "covers": [], "obs": [], "known": []}
            buf += d
        return json.loads(buf)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


class Job(object):
    def __init__(self, prop, module, scenario, params, tier, seed):
        self.prop = prop
        self.module = module
        self.scenario = scenario
        self.params = params
        self.tier = tier
        self.seed = seed
        self.obligations = 0
        self.discharged = 0
        self.unknown_checks = 0
        self.labels = {}
        self.violations = []
        self.unreproduced = []
        self.tried = {}
        self.known_hits = {}
        self.functions = set()
        self.paths = 0
        self.validated = 0
        self.mismatches = []
        self.unsupported = {}
        self.samples = []
        self.covers = {}
        self.errors = []
        self.fallback_runs = 0
        self.conc = ConcWorker()

    def request(self, inputs, timeout=20):
        return {"prop": self.prop, "module": self.module, "scenario": self.scenario.name, "params": self.params,
                "inputs": inputs, "timeout": timeout}

    def confirmed(self, label, inputs, res):
        """Records a reproduced violation, unless the scenario recognised a listed finding."""
        if label in self.scenario.known:
            self.known_hits.setdefault(label, []).append({"label": label, "inputs": inputs})
            return
        self.violations.append({"label": label, "inputs": inputs, "result": res})

    def candidate(self, S, label, neg):
        key = label
        n = self.tried.get(key, 0)
        if any(v["label"] == label for v in self.violations):
            return
        if n >= (3 if label in self.scenario.known else 12):
            return
        self.tried[key] = n + 1
        t = clock()
        m = small_model(S.en, neg)
        if m is None:
            self.unreproduced.append({"label": label, "why": "no model"})
            return
        inputs = model_inputs(S.en, m)
        res = self.conc.ask(self.request(inputs))
        if label in res["fails"]:
            self.confirmed(label, inputs, res)
        elif res["fails"] or res["status"] in ("exc", "hang"):
            # the real code fails this input in another way
            lab = self.first_fail(res) if res["fails"] else (res["status"] + ":" + res.get("exc", ""))
            self.confirmed(lab, inputs, res)
        else:
            self.unreproduced.append({"label": label, "inputs": inputs, "status": res["status"],
                                      "trace": res.get("trace", "")[-500:]})

    def first_fail(self, res):
        new = [f for f in res["fails"] if f not in self.scenario.known]
        return (new or res["fails"])[0]

    def abnormal(self, S, label, violating):
        """Path ended without finishing the scenario: run the real code on a representative of the path instead."""
        if self.tried.get(label, 0) >= 12:
            return
        self.tried[label] = self.tried.get(label, 0) + 1
        S.en.pending = None
        m = small_model(S.en)
        if m is None:
            return
        inputs = model_inputs(S.en, m)
        res = self.conc.ask(self.request(inputs))
        self.fallback_runs += 1
        if res["fails"]:
            self.confirmed(self.first_fail(res), inputs, res)
        elif res["status"] == "hang" and self.scenario.hang:
            self.confirmed("does not terminate", inputs, res)
        elif res["status"] == "exc":
            self.confirmed("exception " + res["exc"], inputs, res)
        elif violating:
            self.unreproduced.append({"label": label, "inputs": inputs, "status": res["status"]})


def explore(spec):
    """Runs in its own process. spec: dict(prop, module, scenario, params, tier, seed, budget)."""
    t0 = clock()
    setup_process()
    importlib.import_module("harness." + spec["module"])
    sc = [s for s in scen.REG[spec["prop"]] if s.name == spec["scenario"]][0]
    job = Job(spec["prop"], spec["module"], sc, spec["params"], spec["tier"], spec["seed"])
    en = E.Engine(max_steps=sc.steps, max_decisions=sc.decisions)
    E.CURRENT = None
    S = SymSession(en, job)
    rnd = random.Random("%s/%s/%s/%s" % (spec["seed"], spec["prop"], spec["scenario"], json.dumps(spec["params"], sort_keys=True)))
    budget = spec["budget"]
    exhaustive = True
    nvalid = spec.get("validate", 25)
    statuses = {}
    from . import rt
    rt.FUNCTIONS = job.functions
    from harness import stubs
    nval_try = 0
    npath = 0
    gc.disable()        # finalisers run only where a scenario or this loop says so
    gc.collect()
    gc.freeze()
    while True:
        npath += 1
        if npath % 25 == 0:
            gc.collect()
        en.start_path()
        S.reset()
        instrument.purge(common.REPO_TOPS)
        E.CURRENT = en
        status, exc = "done", None
        try:
            try:
                stubs.install(S)
                sc.fn(S, **spec["params"])
                en.check_pending()
            finally:
                p, en.pending = en.pending, None
                steps, en.steps = en.steps, -(1 << 60)
                try:
                    for f in reversed(S.cleanups):
                        f()
                finally:
                    stubs.uninstall()
                    en.pending, en.steps = p, steps
        except E.StopPath:
            status = "stopped"
        except E.Infeasible:
            status = "infeasible"
        except E.Unsupported as e:
            status, exc = "unsupported", e
        except E.Budget as e:
            status, exc = "budget", e
        except E.Hang as e:
            status, exc = "hang", e
        except E.Control as e:
            status, exc = "unsupported", e
        except RecursionError as e:
            status, exc = "unsupported", e
        except Exception as e:
            status, exc = "exception", e
            tb = traceback.format_exc()[-3000:]
            if isinstance(e, RuntimeError) and "non-deterministic harness" in str(e):
                job.errors.append(tb)
        # a Control that was swallowed by library code
        if en.pending is not None and status in ("done", "exception"):
            exc = en.pending
            status = {"StopPath": "stopped", "Infeasible": "infeasible", "Budget": "budget", "Hang": "hang"}.get(
                type(exc).__name__, "unsupported")
        en.pending = None
        statuses[status] = statuses.get(status, 0) + 1
        if status != "infeasible":
            job.paths += 1
        if job.errors:
            E.CURRENT = None
            break
        if status == "done" or status == "stopped":
            for c in S.covers:
                job.covers[c] = job.covers.get(c, 0) + 1
            take = status == "done" and nval_try < nvalid and (nval_try < 6 or rnd.random() < 0.35)
            if take:
                nval_try += 1
                validate(job, S, en)
        elif status == "exception":
            # either the code really raises this (the concrete run decides) or the encoding does not cover an operation
            n = len(job.violations)
            job.abnormal(S, "exception %s" % type(exc).__name__, False)
            if len(job.violations) == n:
                msg = "exception %s: %s" % (type(exc).__name__, tb if STRICT else str(exc)[:200])
                job.unsupported[msg] = job.unsupported.get(msg, 0) + 1
                exhaustive = False
        elif status == "hang":
            if sc.hang:
                job.abnormal(S, "step bound", False)
            exhaustive = exhaustive and sc.hang
        elif status in ("unsupported", "budget"):
            msg = "%s: %s" % (status, exc)
            job.unsupported[msg] = job.unsupported.get(msg, 0) + 1
            exhaustive = False
            job.abnormal(S, msg, False)
        E.CURRENT = None
        if len(job.violations) >= 2:
            exhaustive = False
            break
        if clock() - t0 > budget:
            if any(d.other for d in en.decisions):
                exhaustive = False
                break
        E.CURRENT = en
        more = en.backtrack()
        E.CURRENT = None
        if not more:
            break
    job.conc.stop()
    return {
        "prop": spec["prop"], "scenario": sc.name, "params": spec["params"], "exhaustive": exhaustive,
        "paths": job.paths, "statuses": statuses, "stats": en.stats, "obligations": job.obligations,
        "discharged": job.discharged, "unknown_checks": job.unknown_checks, "labels": job.labels,
        "violations": job.violations, "unreproduced": job.unreproduced[:6], "n_unreproduced": len(job.unreproduced),
        "known_hits": dict((k, v[:1] + [len(v)]) for k, v in job.known_hits.items()),
        "functions": sorted(job.functions), "validated": job.validated, "mismatches": job.mismatches[:5],
        "unsupported": job.unsupported, "samples": job.samples[:3], "covers": job.covers, "errors": job.errors,
        "fallback_runs": job.fallback_runs, "wall_s": clock() - t0, "module": spec["module"],
    }


def validate(job, S, en):
    """Runs the real code on a value of this path and compares what was observed and covered."""
    m = small_model(en)
    if m is None:
        return
    inputs = model_inputs(en, m)
    if sum(v["len"] for v in inputs.values() if isinstance(v, dict) and "len" in v) > 1 << 30:
        return      # too much memory for a spot check
    want = [[l, common.canon(ev(v, m, en))] for l, v in S.observations]
    res = job.conc.ask(job.request(inputs))
    if len(job.samples) < 3:
        job.samples.append({"inputs": _short(inputs), "observed": _short(want), "covers": S.covers[:8]})
    if res["fails"]:
        job.confirmed(res["fails"][0], inputs, res)
        return
    got = res["obs"]
    if res["status"] == "done" and got == json.loads(json.dumps(want)) and res["covers"] == S.covers:
        job.validated += 1
    else:
        if res["status"] == "hang" and job.scenario.hang:
            job.confirmed("does not terminate", inputs, res)
            return
        if res["status"] == "exc":
            job.confirmed("exception " + res["exc"], inputs, res)
            return
        job.mismatches.append({"inputs": inputs, "symbolic": want, "concrete": got, "status": res["status"],
                               "covers": [S.covers, res["covers"]], "trace": res.get("trace", "")})


def _short(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


_DONE = []


def setup_process():
    if _DONE:
        return
    _DONE.append(1)
    import logging
    import z3
    logging.disable(logging.CRITICAL)
    if not STRICT:
        # the wrapper's error query after every call costs a tenth of the run; development runs keep it
        z3.z3core.Elementaries.Check = lambda self, ctx: None
    sys.setrecursionlimit(4000)
    if common.EXTRA_SITE not in sys.path:
        sys.path.append(common.EXTRA_SITE)
    sys.modules["uvloop"] = None
    roots = dict((t, common.REPO) for t in common.REPO_TOPS)
    roots["harness"] = common.VERIF
    # the parent process listed the scenarios from unmodified sources
    instrument.purge(("harness",) + common.REPO_TOPS)
    scen.REG.clear()
    instrument.install(roots, True)
