"""against.py [id ...]: (development aid) run each planted bug's own check in a scratch copy and report"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
extra = [a for a in sys.argv[1:] if a.startswith("--")]
for i in [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(S)):
    meta = json.load(open(os.path.join(S, i, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="against")
    try:
        r = os.path.join(tmp, "repo")
        subprocess.run("cp -a /repo %s && git -C %s apply %s" % (r, r, os.path.join(S, i, "patch.diff")), shell=True, check=True)
        t0 = time.time()
        o = subprocess.run(["/opt/veriftools/pyvenv/bin/python", os.path.join(V, "check.py"), meta["property"]] + extra, capture_output=True, text=True, env=dict(os.environ, PIPIT_REPO=r, PYTHONDONTWRITEBYTECODE="1"), cwd=V)
        v = [l for l in o.stdout.splitlines() if l.startswith("VIOLATION")]
        print("%-26s %s exit=%d %.0fs %s" % (i, meta["property"], o.returncode, time.time() - t0, v[:2] or o.stdout[-300:] + o.stderr[-300:]), flush=True)
    finally:
        shutil.rmtree(tmp)
