"""Runs harness cases against the real, unmodified code with the real libraries.

  replay.py FILE          replays one recorded counterexample; exit 1 if it violates the property
  replay.py --batch       JSON on stdin, JSON results on stdout
"""
import io
import json
import os
import shutil
import sys
import tempfile
import traceback
import importlib.util

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))


def _prov():
    # provider.py imports z3 for the symbolic half only; load just the concrete half
    src = open(os.path.join(HERE, "provider.py")).read()
    cut = src.index("class Violation(Exception)")
    ns = {"__name__": "conc_provider"}
    exec(compile("import json\n" + src[cut:], os.path.join(HERE, "provider.py"), "exec"), ns)
    return ns


def plain(v):
    if hasattr(v, "_value"):
        v = v._value
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (float, str)):
        return v
    if isinstance(v, dict):
        return [[plain(k), plain(x)] for k, x in v.items()]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return str(v)


def run_case(ns, harness, cfg, inputs, src):
    for n in [m for m in sys.modules if m == "ucis" or m.startswith("ucis.") or m in ("hlib", "harness_mod")]:
        del sys.modules[n]
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    S = None
    so, se, cwd = sys.stdout, sys.stderr, os.getcwd()
    sys.stdout = io.StringIO()
    try:
        spec = importlib.util.spec_from_file_location("harness_mod", harness)
        h = importlib.util.module_from_spec(spec)
        sys.modules["harness_mod"] = h
        spec.loader.exec_module(h)
        S = ns["Conc"](inputs, scratch, src)
        try:
            if cfg.get("locale"):
                S.locale(S.choice("locale", cfg["locale"]))
            if cfg.get("dst"):
                S.dst()
            os.chdir(scratch)
            h.run(S, cfg)
        except ns["AssumeFailed"]:
            return {"status": "assume", "msg": "assumption not met"}
        except RecursionError as e:
            return {"status": "violation", "msg": "RecursionError"}
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ""
            inner = ""
            for f in reversed(tb):
                if "/ucis/" in f.filename:
                    where = " at %s:%d in %s" % (f.filename[f.filename.index("/ucis/") + 1:], f.lineno, f.name)
                    break
            if not where:
                if isinstance(e, (ImportError, SyntaxError)):
                    return {"status": "error", "msg": traceback.format_exc()[-1500:]}
                where = " while the harness inspected the result (%s:%d)" % (
                    os.path.basename(tb[-1].filename), tb[-1].lineno)
            return {"status": "violation", "msg": "exception %s: %s%s" % (type(e).__name__, str(e)[:300], where)}
        if S.failures:
            return {"status": "violation", "msg": "; ".join(S.failures[:4])}
        return {"status": "ok", "obs": [[t, plain(v)] for t, v in S.observed]}
    finally:
        if S is not None:
            S.finish()
        sys.stdout, sys.stderr = so, se
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ns = _prov()
    if sys.argv[1] == "--batch":
        job = json.load(sys.stdin)
        src = job["src"]
        sys.path.insert(0, src)
        sys.path.insert(0, os.path.dirname(job["harness"]))
        out = [run_case(ns, job["harness"], c[0], c[1], src) for c in job["cases"]]
        sys.stdout.write(json.dumps(out, default=str) + "\n")
        return 0
    rec = json.load(open(sys.argv[1]))
    src = os.environ.get("VERIF_UCIS_SRC", "/repo/src")
    harness = os.path.join(os.path.dirname(HERE), "harness", rec["harness"])
    sys.path.insert(0, src)
    sys.path.insert(0, os.path.dirname(harness))
    r = run_case(ns, harness, rec["cfg"], rec["inputs"], src)
    print(json.dumps(r, indent=1, default=str))
    return 1 if r["status"] == "violation" else 0


if __name__ == "__main__":
    sys.exit(main())
