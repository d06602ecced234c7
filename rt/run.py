#!/opt/venv/bin/python
"""search ID --seed S --cases N --time T --out FILE   |   replay FILE   (see core.py)"""
import argparse, json, os, random, signal, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import Fail

def props():
    import p_trace
    P = dict(p_trace.PROPS)
    for mod in ("p_misc", "p_readers"):
        if os.path.exists(os.path.join(core.HERE, mod + ".py")):
            P.update(__import__(mod).PROPS)
    return P

CASE_TIME = 60

class Late(BaseException):
    pass

def run_case(prop, case):
    """None if the postcondition holds, else a message"""
    def late(*_):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(CASE_TIME)
    try:
        prop.check(case)
        return None
    except Fail as e:
        return str(e)
    except Late:
        return "does not return within %d s" % CASE_TIME
    except (Exception, SystemExit) as e:   # the code under test raised on an input that satisfies the precondition
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if core.REPO + os.sep in f.filename]
        if not inside:
            raise            # an error of the harness itself
        return "raises %s: %s (at %s:%d)" % (type(e).__name__, str(e)[:300], os.path.relpath(inside[-1].filename, core.REPO), inside[-1].lineno)
    finally:
        signal.alarm(0)

def shrink(prop, case, msg, budget=10.0):
    """drop rows while the case still fails (only cases made of rows)"""
    if not isinstance(case, dict) or "rows" not in case or msg.startswith("does not return"):
        return case, msg
    t0 = time.time()
    cols = [k for k in ("attrs",) if k in case]
    n = len(case["rows"])
    step = max(1, n // 2)
    while step >= 1 and time.time() - t0 < budget:
        i = 0
        changed = False
        while i < len(case["rows"]) and time.time() - t0 < budget:
            c = json.loads(json.dumps(case))
            del c["rows"][i:i + step]
            for k in cols:
                del c[k][i:i + step]
            for k in c.get("metrics", {}):
                del c["metrics"][k][i:i + step]
            ok = True
            try:
                pre = getattr(prop, "pre", None)
                if pre and not pre(c):
                    ok = False
                m = run_case(prop, c) if ok else None
            except Exception:
                m = None
            if m:
                case, msg, changed = c, m, True
            else:
                i += step
        if not changed or step == 1:
            if step == 1 and not changed:
                break
            step //= 2 if step > 1 else 1
            if step == 0:
                break
    return case, msg

def big_one(prop, kind, pid, seed):
    """generate a case of an unusual shape; True if it fails (it is then re-run, shrunk and reported like any other)"""
    core.SHAPE = kind
    global CASE_TIME
    try:
        c = json.loads(json.dumps(prop.gen(random.Random("%s/%d/%s" % (pid, seed, kind)))))
    finally:
        core.SHAPE = None
    if getattr(prop, "pre", None) and not prop.pre(c):
        return False
    big_one.case, CASE_TIME = c, 15
    try:
        msg = run_case(prop, c)
    finally:
        CASE_TIME = 60
    if os.environ.get("RT_VERBOSE"):
        print(kind, len(json.dumps(c)), msg, file=sys.stderr)
    return bool(msg) and not msg.startswith("does not return")

def search(pid, seed, cases, tlimit, out, part=0, parts=1, small=True):
    prop = props()[pid]()
    t0, n, distinct = time.time(), 0, set()
    samples = []
    def one(case):
        nonlocal n
        n += 1
        case = json.loads(json.dumps(case))
        key = json.dumps(case, sort_keys=True)
        if key not in distinct:
            distinct.add(key)
            if len(samples) < 2 and len(key) > 200:
                samples.append(case)
        msg = run_case(prop, case)
        if msg:
            case, msg = shrink(prop, case, msg)
            json.dump({"failed": True, "case": case, "message": msg, "evaluations": n, "distinct": len(distinct)}, open(out, "w"))
            return True
        return False
    if small:
        for i, case in enumerate(prop.small()):
            if i % parts == part:
                if one(case): return
                if time.time() - t0 > tlimit * .5: break
    for j, kind in enumerate(core.SHAPES):      # one trace of each unusual shape (given up, without a verdict, after 15 s)
        if j % parts == part and time.time() - t0 < tlimit and big_one(prop, kind, pid, seed):
            n += 1
            if one(big_one.case): return
    k = 0
    while k < cases and time.time() - t0 < tlimit:
        rng = random.Random("%s/%d/%d/%d" % (pid, seed, part, k))
        k += 1
        if one(prop.gen(rng)): return
    json.dump({"failed": False, "evaluations": n, "distinct": len(distinct), "samples": samples, "wall_s": time.time() - t0}, open(out, "w"), default=str)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode", choices=["search", "replay", "literals"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cases", type=int, default=400)
    ap.add_argument("--time", type=float, default=30)
    ap.add_argument("--part", type=int, default=0)
    ap.add_argument("--parts", type=int, default=1)
    ap.add_argument("--no-small", action="store_true")
    ap.add_argument("--out", default="/dev/stdout")
    a = ap.parse_args()
    if a.mode == "literals":
        i, f, s = core.repo_literals()
        json.dump({"ints": sorted(i), "floats": sorted(f), "strs": sorted(s)}, open(os.path.join(core.HERE, "base_literals.json"), "w"), indent=0)
        return 0
    if a.mode == "replay":
        r = json.load(open(a.arg))
        if "case" not in r:
            print("no failing input in this replay file; failed obligation:", r.get("obligation"))
            return 3
        msg = run_case(props()[r["property"]](), r["case"])
        print("FAILS: " + msg if msg else "holds on this input")
        return 1 if msg else 0
    search(a.arg, a.seed, a.cases, a.time, a.out, a.part, a.parts, not a.no_small)
    return 0

if __name__ == "__main__":
    sys.exit(main())
