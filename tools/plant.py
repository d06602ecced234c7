"""plant.py: (development aid) turns the bug descriptions below into /verif/seeded/<id>/ and verifies each in a scratch copy.
usage: plant.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
sys.path.insert(0, HERE)
from bugs import BUGS

PRE = '''import os, sys, tempfile, shutil, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import pandas as pd, numpy as np
import pipit
from pipit.trace import Trace
NAN = float("nan")
def trace(rows, thread=False, cat=False, **more):
    """rows: (time, type, name, process[, thread])"""
    d = {"Timestamp (ns)": [float(r[0]) for r in rows], "Event Type": [{"E": "Enter", "L": "Leave", "I": "Instant"}[r[1]] for r in rows],
         "Name": [r[2] for r in rows], "Process": [r[3] for r in rows]}
    if thread:
        d["Thread"] = [r[4] for r in rows]
    d.update(more)
    df = pd.DataFrame(d)
    if cat:
        df = df.astype({"Event Type": "category", "Name": "category", "Process": "category"})
    return Trace(None, df)
def val(x):
    return None if x is None or x is pd.NA or (isinstance(x, float) and x != x) else x
def check(got, want, what):
    if got != want:
        print("%s: got %r, expected %r" % (what, got, want))
        sys.exit(1)
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    ids = sys.argv[1:] or sorted(BUGS)
    bad = []
    for i in ids:
        b = BUGS[i]
        tmp = tempfile.mkdtemp(prefix="plant")
        r = os.path.join(tmp, "repo")
        try:
            sh("cp -a /repo %s" % r)
            if b.get("patch"):
                p = subprocess.run(["git", "-C", r, "apply", "-"], input=b["patch"], text=True)
            for f, a, z in b.get("edits", []):
                q = os.path.join(r, f)
                t = open(q).read()
                n = t.count(a)
                if n != b.get("count", 1):
                    raise SystemExit("%s: %d occurrences of %r" % (i, n, a))
                open(q, "w").write(t.replace(a, z))
            d = os.path.join(OUT, i)
            os.makedirs(d, exist_ok=True)
            diff = sh("git -C %s diff" % r).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(PRE + b["demo"])
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            clean = sh("bash %s/demo.sh" % d, cwd="/repo")
            planted = sh("bash %s/demo.sh" % d, cwd=r)
            t = sh("cd %s && PYTHONPATH=%s PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=60 --basetemp=%s/t 2>&1 | tail -3" % (r, r, tmp))
            ok = clean.returncode == 0 and planted.returncode != 0 and "failed" not in t.stdout and "12 passed" in t.stdout
            print(i, b["property"], "OK" if ok else "BAD", clean.returncode, planted.returncode, planted.stdout.strip()[-200:], planted.stderr.strip()[-200:] if not ok else "", t.stdout.strip().splitlines()[-1:] , clean.stdout[-300:] + clean.stderr[-300:] if clean.returncode else "")
            if not ok:
                bad.append(i)
        finally:
            shutil.rmtree(tmp)
    print("BAD:", bad)


if __name__ == "__main__":
    main()
