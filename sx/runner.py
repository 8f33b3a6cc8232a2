"""Check driver: runs the scenarios of one property, decides the exit status, writes the evidence file."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

from . import common, scen

STRICT = bool(os.environ.get("SX_STRICT"))     # development: gaps of the encoding are errors


def load_index():
    import index
    return index.INDEX


def _work(spec, q):
    try:
        from .explore import explore
        q.put((spec["id"], explore(spec)))
    except BaseException:
        import traceback
        q.put((spec["id"], {"crash": traceback.format_exc(), "spec": dict((k, v) for k, v in spec.items() if k != "budget")}))


def run_jobs(specs, workers, deadline):
    """One process per job, at most `workers` at a time."""
    q = mp.Queue()
    todo = list(specs)
    running = {}
    results = {}
    while todo or running:
        while todo and len(running) < workers:
            s = todo.pop(0)
            left = deadline - time.time()
            s["budget"] = max(3, min(s["budget"], left))
            p = mp.Process(target=_work, args=(s, q), daemon=False)
            p.start()
            running[s["id"]] = (p, s, time.time())
        try:
            i, r = q.get(timeout=0.5)
            results[i] = r
            p, s, _ = running.pop(i)
            p.join(10)
            if p.is_alive():
                p.kill()
        except Exception:
            pass
        for i, (p, s, t) in list(running.items()):
            if not p.is_alive() and i not in results:
                try:
                    while True:
                        j, r = q.get(timeout=0.5)
                        results[j] = r
                        if j in running:
                            running.pop(j)
                except Exception:
                    pass
                if i in running:
                    running.pop(i)
                    results[i] = {"crash": "worker died with exit code %r" % p.exitcode, "spec": s}
            elif time.time() - t > s["budget"] + 120:
                p.kill()
                running.pop(i)
                results[i] = {"timeout": True, "spec": s}
    return [results[s["id"]] for s in specs]


def known_findings():
    p = os.path.join(common.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--scenario")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    idx = load_index()[a.prop]
    level_note = idx.get("bounds", "")
    # scenario list is read from the harness modules without instrumentation
    from . import instrument
    sys.path.append(common.EXTRA_SITE)
    for module in idx["modules"]:
        importlib.import_module("harness." + module)
    specs = []
    n = 0
    by_mod = {}
    scs = [s for s in scen.REG.get(a.prop, []) if tier in s.tiers and (not a.scenario or s.name == a.scenario)]
    for s in scs:
        mod = s.fn.__module__.split(".", 1)[1]
        vs = s.variants[tier]
        per = (s.quick_s if tier == "quick" else s.thorough_s)
        if a.budget:
            per = a.budget
        for v in vs:
            specs.append({"id": n, "prop": a.prop, "module": mod, "scenario": s.name, "params": v, "tier": tier,
                          "seed": seed, "budget": per, "validate": 25 if tier == "quick" else 60})
            n += 1
    if not specs:
        print("no scenario for %s" % a.prop)
        return 2
    # total time: keep a quick check well below the limit
    total = (420 if tier == "quick" else 3 * 3600)
    results = run_jobs(specs, a.workers, t0 + total)
    return report(a.prop, tier, seed, scs, specs, results, t0, idx, a.v)


def report(prop, tier, seed, scs, specs, results, t0, idx, verbose):
    errors, viol, unrep, warnings, disagree = [], [], [], [], 0
    known = {}
    agg = dict(paths=0, obligations=0, discharged=0, unknown_checks=0, validated=0, fallback_runs=0)
    stats = {}
    funcs, covers, statuses, unsupported = set(), {}, {}, {}
    samples, jobs = [], []
    exhaustive = True
    cov_by_scen = {}
    for spec, r in zip(specs, results):
        tag = "%s%s" % (spec["scenario"], json.dumps(spec["params"], sort_keys=True) if spec["params"] else "")
        if "crash" in r:
            errors.append("%s: worker crashed: %s" % (tag, r["crash"]))
            exhaustive = False
            continue
        if "timeout" in r:
            exhaustive = False
            jobs.append({"job": tag, "exhaustive": False, "paths": None, "note": "stopped by the time limit"})
            continue
        for k in agg:
            agg[k] += r[k]
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        funcs.update(f for f in r["functions"] if not f.startswith("harness/"))
        for k, v in r["covers"].items():
            covers[k] = covers.get(k, 0) + v
            cov_by_scen.setdefault(spec["scenario"], set()).add(k)
        for k, v in r["statuses"].items():
            statuses[k] = statuses.get(k, 0) + v
        for k, v in r["unsupported"].items():
            unsupported[k] = unsupported.get(k, 0) + v
        exhaustive = exhaustive and r["exhaustive"]
        jobs.append({"job": tag, "exhaustive": r["exhaustive"], "paths": r["paths"], "wall_s": round(r["wall_s"], 2),
                     "statuses": r["statuses"]})
        samples.extend(dict(s, job=tag) for s in r["samples"][:1])
        for v in r["violations"]:
            viol.append((spec, v))
        for k, v in r["known_hits"].items():
            known.setdefault(k, []).append((spec, v[0]))
        for u in r["unreproduced"]:
            exhaustive = False
            unrep.append((tag, u))
        for e in r["errors"]:
            errors.append("%s: %s" % (tag, e))
        for m in r["mismatches"]:
            exhaustive = False
            disagree += 1
            (errors if STRICT else warnings).append("%s: model and code disagree: %s" % (tag, json.dumps(m)[:3000]))
        if r["unknown_checks"]:
            exhaustive = False
    listed = dict((f["label"], f) for f in known_findings() if f["property"] == prop and not f.get("fixed"))
    rc = 0
    for k, hits in known.items():
        if k in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[k]["what"]))
        else:
            spec, h = hits[0]
            viol.append((spec, {"label": h["label"], "inputs": h["inputs"], "result": {}}))
    if viol:
        rc = 1
        spec, v = viol[0]
        d = os.path.join(common.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "module": spec["module"], "scenario": spec["scenario"], "params": spec["params"],
                       "label": v["label"], "inputs": v["inputs"], "result": v["result"],
                       "others": [{"scenario": s["scenario"], "params": s["params"], "label": w["label"], "inputs": w["inputs"]}
                                  for s, w in viol[1:10]]}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        for s, w in viol[:8]:
            print("  %s %s: %s" % (s["scenario"], json.dumps(s["params"]), w["label"]))
            if verbose:
                print("    inputs: %s" % json.dumps(w["inputs"])[:1500])
                if w["result"].get("trace"):
                    print("    " + w["result"]["trace"].replace("\n", "\n    "))
    # vacuity: every scenario reaches the situations it is about
    missing, late = [], []
    if rc == 0:
        for s in scs:
            got = cov_by_scen.get(s.name, set())
            mine = [r for spec, r in zip(specs, results) if spec["scenario"] == s.name]
            # what was left unexplored may hold the rest; the evidence names it. Nothing explored is no answer
            cut = any(r.get("statuses", {}).get("done") for r in mine) and any("timeout" in r or not r.get("exhaustive") for r in mine)
            for c in s.covers:
                if c not in got:
                    (late if cut else missing).append("%s never reached '%s'" % (s.name, c))
    for m in late:
        print("NOTE not exhaustive: " + m)
    if rc == 0 and unrep:
        for tag, u in unrep[:5]:
            (errors if STRICT else warnings).append(
                "%s: counterexample does not reproduce on the real code: %s" % (tag, json.dumps(u)[:2000]))
    if rc == 0 and disagree > agg["validated"]:
        errors.extend(warnings)
    for w in warnings[:3]:
        print("WARNING " + w)
    if STRICT and unsupported:
        errors.append("unsupported: %s" % json.dumps(unsupported)[:6000])
    if rc == 0 and (errors or missing):
        rc = 2
    for e in (errors[:6] if rc == 2 or verbose else []):
        print("ERROR " + e)
    for m in missing:
        print("ERROR vacuous: " + m)
    nodes = stats.get("decisions", 0)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": nodes + agg["paths"],
            "transitions": nodes * 2 - stats.get("infeasible", 0) if nodes else agg["paths"],
            "traces_validated_against_impl": agg["validated"],
            "samples": samples[:6] or [{"note": "no completed path"}],
            "exhaustive": bool(exhaustive),
            "explanation": "states: branch points with more than one satisfiable side reached plus completed paths; transitions: "
                           "branch sides followed; one path stands for all values that satisfy its path condition.",
            "paths": agg["paths"], "path_endings": statuses,
            "obligations_posed": agg["obligations"], "obligations_discharged_by_solver": agg["discharged"],
            "solver_queries": stats.get("queries", 0), "solver_s": round(stats.get("solver_s", 0), 2),
            "solver_unknown": stats.get("unknown", 0) , "inconclusive_obligations": agg["unknown_checks"],
            "functions_encoded": sorted(funcs), "bounds": idx.get("bounds", ""), "outside": idx.get("outside", ""),
            "model_disagreements": disagree, "counterexamples_not_reproduced": len(unrep), "unsupported": unsupported, "not_reached": late, "concrete_fallback_runs": agg["fallback_runs"], "covers": covers, "jobs": jobs,
        },
        "assumptions": idx.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(common.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(common.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d obligations (%d by solver), %d queries, solver %.1fs, validated %d, %s, wall %.1fs, exit %d" % (
        prop, tier, agg["paths"], agg["obligations"], agg["discharged"], stats.get("queries", 0), stats.get("solver_s", 0),
        agg["validated"], "exhaustive within bounds" if exhaustive else "not exhaustive", time.time() - t0, rc))
    if verbose:
        for j in jobs:
            print("   ", j)
        print("   ", covers)
        if unsupported:
            print("    unsupported", unsupported)
    return rc
