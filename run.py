#!/usr/bin/env python3
"""run.py <PROPERTY> <quick|thorough>   decides one property with the symbolic engine.

Every configuration of the property's harness is explored by a worker process
(symx/worker.py); exit 0: no violation found, exit 1 + VIOLATION line: a
counterexample was found by the solver and reproduced on the real code."""
import concurrent.futures
import importlib.util
import json
import os
import re
import subprocess
import sys
import threading
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VT = os.environ.get("VERIF_SOLVER_PY", "/opt/veriftools/pyvenv/bin/python3")
SRC = os.environ.get("VERIF_UCIS_SRC", "/repo/src")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CAP = {"quick": 300, "thorough": 800}
PER = {"quick": 150, "thorough": 600}


def load_harness(path):
    spec = importlib.util.spec_from_file_location("h", path)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.dirname(path))
    spec.loader.exec_module(m)
    return m


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln and not ln.startswith("#"):
                r = json.loads(ln)
                if r.get("status") == "known" and r.get("property") == prop:
                    out.append(r)
    return out


def is_known(rec, kf):
    for k in kf:
        if all(rec["cfg"].get(a) == b for a, b in k.get("cfg", {}).items()) and \
                re.search(k["match"], rec["replay"].get("msg", "")) and \
                all(re.search(b, str(rec["inputs"].get(a))) for a, b in k.get("inputs", {}).items()):
            return k
    return None


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hpath = os.path.join(HERE, "harness", prop.lower() + ".py")
    h = load_harness(hpath)
    cfgs = list(h.CONFIGS["quick"])
    nq = len(cfgs)
    # the quick tier leaves out only the slowest of the deeper configurations
    cfgs = cfgs + [c for c in h.CONFIGS["thorough"] if tier == "thorough" or c["case"] not in getattr(h, "SLOW", [])]
    if only:
        nq = 0
        cfgs = [c for c in cfgs if c.get("id", c["case"]) == only or c["case"] == only]
    # the core configurations first, and of each group the most expensive first
    order = sorted(range(len(cfgs)), key=lambda i: (i >= nq, -cfgs[i].get("cost", 1)))
    deadline = t0 + CAP[tier]
    stop = threading.Event()
    procs = set()
    lock = threading.Lock()

    def job(i):
        cfg = cfgs[i]
        left = deadline - time.time()
        if stop.is_set() or left < 3:
            return i, None
        task = {"harness": hpath, "cfg": {k: v for k, v in cfg.items() if k != "cost"}, "seed": seed,
                "max_seconds": min(left, cfg.get("secs", PER[tier])),
                "samples": 6 if tier == "quick" else 16,
                "qlog": int(os.environ.get("VERIF_QLOG", "0"))}
        p = subprocess.Popen([VT, "-B", os.path.join(HERE, "symx", "worker.py")], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        with lock:
            procs.add(p)
        try:
            out, err = p.communicate(json.dumps(task), timeout=task["max_seconds"] + 180)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return i, {"cfg": cfg, "error": "worker timed out", "confirmed": []}
        finally:
            with lock:
                procs.discard(p)
        if stop.is_set() and not out:
            return i, None
        try:
            return i, json.loads(out)
        except Exception:
            return i, {"cfg": cfg, "error": "worker died: " + err[-1500:], "confirmed": []}

    kf = known_findings(prop)
    results = [None] * len(cfgs)
    viol = None
    seen_known = {}
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(job, i) for i in order]
        for f in concurrent.futures.as_completed(futs):
            i, r = f.result()
            results[i] = r
            if r is None:
                continue
            for rec in r["confirmed"]:
                k = is_known(rec, kf)
                if k:
                    seen_known[k["id"]] = k
                elif viol is None:
                    viol = rec
            if viol is not None and not stop.is_set():
                stop.set()
                with lock:
                    for p in procs:
                        try:
                            p.kill()
                        except Exception:
                            pass
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    done = [r for r in results if r is not None and "paths" in r]
    broken = [r for r in results if r is None or "paths" not in r or r.get("error")]
    write_evidence(prop, tier, seed, h, cfgs, results, time.time() - t0, viol, len(seen_known))
    for r in results:
        if r is not None and r.get("error"):
            sys.stderr.write("[%s] inconclusive: %s\n" % (r["cfg"].get("id", r["cfg"]["case"]), r["error"]))
    if viol is not None:
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s.json" % prop)
        with open(rp, "w") as fp:
            json.dump({"property": prop, "harness": prop.lower() + ".py", "cfg": viol["cfg"],
                       "inputs": viol["inputs"], "solver_message": viol["msg"],
                       "real_code_message": viol["replay"].get("msg")}, fp, indent=1)
        print("counterexample (case %s): %s" % (viol["cfg"].get("id", viol["cfg"]["case"]),
                                                viol["replay"].get("msg")))
        print("inputs: %s" % json.dumps(viol["inputs"])[:2000])
        print("re-run on the real code: /opt/venv/bin/python -B %s %s" % (
            os.path.join(HERE, "symx", "replay.py"), rp))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    tot = lambda k: sum(r[k] for r in done)
    print("%s %s: %d/%d configurations, %d feasible paths, %d obligations, %d queries (%.1fs solver), "
          "%d replayed on the real code, %d configurations explored exhaustively, wall %.1fs" % (
              prop, tier, len(done), len(cfgs), tot("paths_ok"), tot("obl_total"), tot("queries"),
              tot("solver_time"), sum(r["validation"]["replayed"] for r in done),
              sum(1 for r in done if r["exhaustive"] and not r["error"]), time.time() - t0))
    if broken:
        print("inconclusive configurations: %d (not counted as held; see evidence)" % len(broken))
    return 0


def write_evidence(prop, tier, seed, h, cfgs, results, wall, viol, nknown):
    done = [r for r in results if r is not None and "paths" in r]
    tot = lambda k: sum(r[k] for r in done)
    funcs = sorted(set(f for r in done for f in r["functions"]))
    samples = []
    for r in done:
        for s in r["samples"][:1]:
            if len(samples) < 8:
                samples.append({"configuration": r["cfg"], "path_model": s["inputs"]})
    cov = {
        "states": tot("paths_ok"), "transitions": tot("decisions"),
        "traces_validated_against_impl": sum(r["validation"]["replayed"] for r in done),
        "samples": samples,
        "exhaustive": bool(done) and len(done) == len(cfgs) and all(
            r["exhaustive"] and not r["error"] and not r["obl_unknown"] for r in done),
        "meaning": "states = feasible symbolic paths of the real code; transitions = symbolic branch points "
                   "where both outcomes were feasible; each path's assertions are decided by the solver for "
                   "every value of the symbolic inputs that follows that path",
        "functions_encoded": funcs, "n_functions_encoded": len(funcs),
        "bounds": h.BOUNDS, "outside_bounds": getattr(h, "OUTSIDE", ""),
        "obligations": tot("obl_total"), "obligations_closed_by_simplification": tot("obl_trivial"),
        "obligations_unknown": tot("obl_unknown"), "branch_unknown": tot("branch_unknown"),
        "solver_queries": tot("queries"), "solver_time_s": round(tot("solver_time"), 3),
        "paths_reaching_assertions": tot("reach"), "paths_infeasible_assumptions": tot("pruned"),
        "solver": "z3 (python bindings) on path conditions over Int/Real/BitVec",
        "validation_mismatches": sum(r["validation"]["mismatch"] for r in done),
        "validation_failures": sum(r["validation"]["failed"] for r in done),
        "unconfirmed_counterexamples": sum(r["n_artifacts"] for r in done),
        "configurations": [
            dict(cfg=r["cfg"], paths=r["paths_ok"], obligations=r["obl_total"], queries=r["queries"],
                 exhaustive=r["exhaustive"], reach=r["reach"], wall_s=round(r["wall"], 2),
                 concretised=r["concretised"], unsupported=r["unsupported"], error=r["error"])
            for r in done],
        "inconclusive": [
            {"cfg": c, "why": "not started or killed" if r is None else r.get("error")}
            for c, r in zip(cfgs, results) if r is None or "paths" not in r or r.get("error")],
        "known_findings_seen": nknown,
    }
    for key, out in (("artifacts", "unconfirmed_examples"),):
        ex = [a for r in done for a in r[key]][:3]
        if ex:
            cov[out] = ex
    mm = [x for r in done for x in r["validation"].get("examples", [])][:2]
    if mm:
        cov["validation_examples"] = mm
    q = [x for r in done for x in r["qlog"]]
    if q:
        d = os.path.join(HERE, "evidence", "qlog")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, prop + ".json"), "w") as fp:
            json.dump(q, fp)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(h.ASSUMPTIONS) if hasattr(h, "ASSUMPTIONS") else [],
          "wall_s": round(wall, 2), "violations": 1 if viol else 0}
    ev["assumptions"] += [
        "library stand-ins used only during symbolic execution (lxml, yaml, jsonschema, "
        "python_jsonschema_objects, json, gzip, lz4, datetime, os, io) behave like the real libraries; "
        "every counterexample and a sample of path models is replayed with the real libraries",
        "floating point is modelled with exact reals; figures computed in floating point are compared with a tolerance of 1e-9"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
