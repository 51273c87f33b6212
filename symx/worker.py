"""Explores one harness configuration symbolically (run under the solver venv).

usage: worker.py  < task.json  > result.json"""
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(6000)

import z3
from symx import engine as E
from symx import loader, proxies as P, provider, stubs, vfs

REAL_PY = os.environ.get("VERIF_REAL_PY", "/opt/venv/bin/python")


def model_value(m, v):
    if isinstance(v, P.SymInt):
        return m.eval(v.z(), model_completion=True).as_long()
    if isinstance(v, P.SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, P.SymReal):
        return float(P.frac_of(m.eval(v.e, model_completion=True)))
    if isinstance(v, P.SymStr):
        out = []
        for s in v.segs:
            if isinstance(s, str):
                out.append(s)
            elif isinstance(s, z3.ExprRef):
                out.append(chr(m.eval(s, model_completion=True).as_long()))
            elif isinstance(s, P.Num):
                out.append(str(m.eval(s.e, model_completion=True).as_long()))
            elif isinstance(s, P.Flt):
                f = float(P.frac_of(m.eval(s.e, model_completion=True)))
                out.append(str(f) if s.spec in ("r", "s") else ("%" + s.spec) % f)
            else:
                out.append("<opaque>")
        return "".join(out)
    if isinstance(v, (list, tuple)):
        return [model_value(m, x) for x in v]
    if isinstance(v, P.SymDict):
        return [[model_value(m, k), model_value(m, x)] for k, x in v.items()]
    if isinstance(v, float) or isinstance(v, (int, str, bool)) or v is None:
        return v
    return str(v)


def replay_batch(harness, cases, timeout=120):
    """cases: list of (cfg, inputs). Returns list of result dicts from the real code."""
    p = subprocess.run([REAL_PY, "-B", os.path.join(HERE, "replay.py"), "--batch"],
                       input=json.dumps({"harness": harness, "cases": cases, "src": loader.SRC}),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    try:
        return json.loads(p.stdout.splitlines()[-1])
    except Exception:
        return [{"status": "error", "msg": "replay process failed: " + p.stderr[-400:]} for _ in cases]


def main():
    task = json.load(sys.stdin)
    harness, cfg = task["harness"], task["cfg"]
    hdir = os.path.dirname(harness)
    out_real = os.dup(1)
    os.dup2(2, 1)                # anything printed by accident goes to stderr
    w = loader.World(stubs=stubs.STUBS)
    w.harness_roots = {f[:-3]: os.path.join(hdir, f) for f in os.listdir(hdir) if f.endswith(".py")}
    eng = E.Engine(timeout_ms=task.get("timeout_ms", 20000), max_paths=task.get("max_paths", 100000),
                   max_seconds=task.get("max_seconds", 120))
    eng.solver.set("random_seed", int(task.get("seed", 1)))
    if task.get("qlog"):
        eng.qlog = []
        eng.qlog_max = task["qlog"]
    funcs = set()
    src_prefix = os.path.join(os.path.realpath(loader.SRC), "ucis") + "/"
    src_prefix2 = os.path.join(loader.SRC, "ucis") + "/"

    def prof(frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if fn.startswith(src_prefix2) or fn.startswith(src_prefix):
                n = frame.f_code.co_qualname
                # class bodies have neither the OPTIMIZED nor the NEWLOCALS flag
                if frame.f_code.co_flags & 1 and "<" not in n.split(".")[-1]:
                    funcs.add(fn[fn.index("/ucis/") + 1:] + ":" + n)

    samples = []
    max_samples = cfg.get("samples", task.get("samples", 6))
    t_snap = [0.0]

    def fn():
        w.restore(lambda: vfs.Env(w.src))
        h = w.load_harness(harness, "harness_mod")
        S = provider.Sym(eng, w.env)
        if cfg.get("locale"):
            S.locale(S.choice("locale", cfg["locale"]))
        if cfg.get("dst"):
            S.dst()
        if eng.paths <= 3:
            sys.setprofile(prof)
            try:
                h.run(S, cfg)
            finally:
                sys.setprofile(None)
        else:
            h.run(S, cfg)

    def on_path(e):
        # keep a spread of path models for validation against the real code
        n = e.paths_ok
        if n <= max_samples // 2 or (n & (n - 1)) == 0:
            m = e._ensure_model()
            if m is None:
                return
            samples.append({"inputs": e.model_inputs(m),
                            "obs": [[t, model_value(m, v)] for t, v in e.observed]})
            if len(samples) > max_samples:
                samples.pop(max_samples // 2)

    confirmed = []
    artifacts = []

    def want(cex):
        r = replay_batch(harness, [[cfg, cex.inputs]])[0]
        rec = {"cfg": cfg, "inputs": cex.inputs, "msg": cex.msg, "kind": cex.kind, "replay": r}
        if hasattr(cex, "trace"):
            rec["trace"] = cex.trace[-1500:]
        if r["status"] == "violation":
            confirmed.append(rec)
            return "stop"
        artifacts.append(rec)
        if len(artifacts) >= 25:
            return "stop"
        return "artifact"

    n_uns = [0, 0]

    def try_prefix(e):
        """Models of the condition of a path prefix, tried on the real code."""
        try:
            inps = e.diverse_inputs()
        except E.PathEnd:
            return
        if not inps:
            return
        for inp, r in zip(inps, replay_batch(harness, [[cfg, i] for i in inps])):
            if r["status"] == "violation":
                confirmed.append({"cfg": cfg, "inputs": inp, "msg": r["msg"], "kind": "prefix", "replay": r})
                return "stop"

    def unsup(e):
        """A path left the encodable fragment: replay models of its prefix on the real code."""
        n_uns[0] += 1
        if n_uns[0] <= 12:
            return try_prefix(e)

    def on_pin(e):
        """A term is about to be fixed to one value: other values are tried on the real code."""
        n_uns[1] += 1
        if n_uns[1] <= 8 and try_prefix(e) == "stop":
            raise E.Budget("violation found")
    eng.on_pin = on_pin
    n_near = [0]

    def on_near(inp):
        n_near[0] += 1
        if n_near[0] > 6:
            return
        r = replay_batch(harness, [[cfg, inp]])[0]
        if r["status"] == "violation":
            confirmed.append({"cfg": cfg, "inputs": inp, "msg": r["msg"], "kind": "prefix", "replay": r})
            raise E.Budget("violation found")
    eng.on_near = on_near

    err = None
    t0 = time.time()
    try:
        eng.explore(fn, on_path, want, unsup)
    except Exception as e:
        err = traceback.format_exc()[-3000:]
    val = {"replayed": 0, "failed": 0, "mismatch": 0}
    if not confirmed and samples:
        rs = replay_batch(harness, [[cfg, s["inputs"]] for s in samples], timeout=300)
        for s, r in zip(samples, rs):
            val["replayed"] += 1
            if r["status"] == "violation":
                confirmed.append({"cfg": cfg, "inputs": s["inputs"], "msg": r["msg"], "kind": "validation",
                                  "replay": r})
                break
            if r["status"] != "ok":
                val["failed"] += 1
                val.setdefault("fail_msgs", []).append(r.get("msg", r["status"]))
            elif not same_obs(s["obs"], r.get("obs", [])):
                val["mismatch"] += 1
                if len(val.setdefault("examples", [])) < 2:
                    val["examples"].append({"inputs": s["inputs"], "sym": s["obs"], "real": r.get("obs")})
    res = {
        "cfg": cfg, "error": err, "confirmed": confirmed, "artifacts": artifacts[:8],
        "n_artifacts": len(artifacts),
        "paths": eng.paths, "paths_ok": eng.paths_ok, "pruned": eng.paths_pruned, "queries": eng.queries,
        "solver_time": eng.solver_time, "obl_total": eng.obl_total, "obl_trivial": eng.obl_trivial,
        "obl_unknown": eng.obl_unknown, "branch_unknown": eng.branch_unknown,
        "concretised": eng.concretised, "unsupported": eng.unsupported, "exhaustive": eng.exhaustive,
        "reach": eng.reach, "decisions": eng.decision_points, "wall": time.time() - t0,
        "functions": sorted(funcs), "samples": samples[:3], "validation": val,
        "qlog": eng.qlog or [],
    }
    os.write(out_real, json.dumps(res, default=str).encode())
    os.close(out_real)


def same_obs(a, b):
    if len(a) != len(b):
        return False
    for (t1, v1), (t2, v2) in zip(a, b):
        if t1 != t2 or not same_val(v1, v2):
            return False
    return True


def same_val(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    return a == b


if __name__ == "__main__":
    main()
