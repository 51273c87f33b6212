"""Development helper: which checks catch which planted changes (runs against scratch copies).
usage: catch.py [-a] [id...]    -a: run every property's check, not only the change's own"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allp = "-a" in args
args = [a for a in args if a != "-a"]
props = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
for sid in sorted(os.listdir(VERIF + "/seeded")):
    if args and sid not in args:
        continue
    d = VERIF + "/seeded/" + sid
    own = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="catch_")
    try:
        shutil.copytree("/repo/src", tmp + "/src")
        subprocess.check_call(["git", "apply", "--unsafe-paths", "--directory=" + tmp, d + "/patch.diff"], cwd="/")
        res = []
        for p in (props if allp else [own]):
            t = time.time()
            r = subprocess.run([sys.executable, VERIF + "/run.py", p, "quick"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_UCIS_SRC=tmp + "/src"))
            v = [l for l in r.stdout.splitlines() if l.startswith("counterexample")]
            if r.returncode:
                res.append("%s:%s(%.0fs) %s" % (p, "CAUGHT" if r.returncode == 1 and "VIOLATION" in r.stdout else "rc%d" % r.returncode, time.time() - t,
                                               "" if allp else v[0][:110] if v else r.stdout[-300:]))
            elif p == own:
                res.append("%s:MISSED %s" % (p, r.stdout.strip().splitlines()[-1][-200:]))
        print("%-26s %s" % (sid, " ".join(res)), flush=True)
    finally:
        shutil.rmtree(tmp)
