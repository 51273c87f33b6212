"""Development helper: make /verif/seeded/<id>/ from a description and confirm it in a scratch copy.

usage: seedtool.py FILE.py [id...]   FILE defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlib.py")).read()
DEMO = '''#!/bin/sh
# cwd: the repository
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD/src:$D" exec /opt/venv/bin/python -B "$D/demo.py"
'''


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def run_tests(copy):
    r = sh("PYTHONPATH=%s/src /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider ve/unit 2>&1 | tail -15" % copy, copy)
    return r.stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = os.path.join(VERIF, "seeded", s["id"])
        tmp = tempfile.mkdtemp(prefix="seed_")
        copy = os.path.join(tmp, "repo")
        try:
            subprocess.check_call(["git", "clone", "-q", "/repo", copy])
            os.makedirs(d, exist_ok=True)
            with open(d + "/demo.sh", "w") as fp:
                fp.write(DEMO)
            os.chmod(d + "/demo.sh", 0o755)
            with open(d + "/demo.py", "w") as fp:
                fp.write(s["demo"])
            with open(d + "/seedlib.py", "w") as fp:
                fp.write(LIB)
            with open(d + "/meta.json", "w") as fp:
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, fp, indent=1)
            r0 = sh(d + "/demo.sh", copy)
            for f, old, new in s["edits"]:
                p = os.path.join(copy, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "EDIT matches", t.count(old), "times in", f, repr(old[:60]))
                    raise SystemExit(1)
                with open(p, "w") as fp:
                    fp.write(t.replace(old, new))
            with open(d + "/patch.diff", "w") as fp:
                fp.write(sh("git diff", copy).stdout)
            blame = sh("git diff -U0", copy).stdout
            r1 = sh(d + "/demo.sh", copy)
            t = run_tests(copy)
            own = removed_own(copy)
            ok = r0.returncode == 0 and r1.returncode != 0 and "failed" not in t and "25 passed" in t and not own
            print("%-28s %s demo clean=%d patched=%d tests=%s%s" % (
                s["id"], "OK " if ok else "BAD", r0.returncode, r1.returncode, t.strip().splitlines()[-1] if t.strip() else "?",
                " OWN-LINES" if own else ""))
            if not ok:
                print(r0.stdout[-600:], "\n--\n", r1.stdout[-600:], "\n--\n", t)
        finally:
            shutil.rmtree(tmp)


def removed_own(copy):
    """does the patch change only lines that our own fix commits added?"""
    out = sh("git diff -U0", copy).stdout
    base = sh("git rev-list --max-parents=0 HEAD", copy).stdout.split()[0]
    f = None
    orig, mine = 0, 0
    for ln in out.splitlines():
        if ln.startswith("--- a/"):
            f = ln[6:]
        if ln.startswith("@@"):
            a = ln.split()[1][1:].split(",")
            st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            if n == 0:
                orig += 1
                continue
            b = sh("git blame -s -l -L %d,%d HEAD -- %s" % (st, st + n - 1, f), copy).stdout
            for x in b.splitlines():
                if x.lstrip("^").startswith(base[:38]):
                    orig += 1
                else:
                    mine += 1
    return mine > 0


main()
