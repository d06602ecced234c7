#!/opt/veriftools/pyvenv/bin/python
"""check.py ID [--tier quick|thorough] [--seed N] [--no-search] [--no-proof]

Decides one property on /repo's current working tree:
 1. the verifier (vc/) generates the obligations of the property from the current source and discharges them;
 2. the same contract is run on the real code in CPython on generated inputs (counterexample search / replay, and the
    bounded stand-in for the functions outside the verifier's reach).
Exit 0, or exit 1 with a VIOLATION line, or 2 on an internal error of the check.
"""
import argparse, json, os, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PIPIT_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/bin/python"
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", PIPIT_REPO=REPO, PIPIT_LOG="")


def start_search(pid, seed, tlimit, parts, tmp):
    ps = []
    for k in range(parts):
        out = os.path.join(tmp, "part%d.json" % k)
        cwd = os.path.join(tmp, "cwd%d" % k)
        os.makedirs(cwd, exist_ok=True)
        p = subprocess.Popen([PY, os.path.join(HERE, "rt", "run.py"), "search", pid, "--seed", str(seed), "--time", str(tlimit), "--cases", "100000000",
                              "--part", str(k), "--parts", str(parts), "--out", out],
                             stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), env=ENV, cwd=cwd, start_new_session=True)
        ps.append((p, out))
    return ps


def stop(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def finish_search(ps, deadline):
    """(failing result or None, evaluations, distinct, samples, errors)"""
    fail, ev, di, samples, errs = None, 0, 0, [], []
    for p, out in ps:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            errs.append("search worker stopped after its time")
        stop(p)
        try:
            r = json.load(open(out))
        except Exception:
            errs.append("search worker: " + open(out + ".err").read()[-1500:])
            continue
        ev += r["evaluations"]; di += r["distinct"]; samples += r.get("samples", [])
        if r["failed"] and (fail is None or len(json.dumps(r["case"])) < len(json.dumps(fail["case"]))):
            fail = r
    return fail, ev, di, samples, errs


def known(pid):
    """open findings: lines 'KNOWN-FINDING: property=<id> <what fails>' (lines 'fixed: ...' suppress nothing)"""
    f = os.path.join(HERE, "known_findings.txt")
    return [l.strip() for l in open(f) if l.startswith("KNOWN-FINDING: property=%s " % pid)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-search", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--time", type=float)
    a = ap.parse_args()
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix="pipit-check-")
    try:
        return run(a, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(a, tmp):
    pid, t0 = a.pid, time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    meta = next(m for m in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"] if m["property"] == pid)
    tsearch = a.time or (18 if tier == "quick" else 300)
    ncpu = os.cpu_count() or 4
    ps = [] if a.no_search else start_search(pid, a.seed, tsearch, max(2, ncpu - 2), tmp)

    # ---- 1. obligations
    proof = None
    vcfile = os.path.join(HERE, "vc", pid.lower() + ".py")
    if os.path.exists(vcfile) and not a.no_proof:
        outp = os.path.join(tmp, "proof.json")
        cmd = [VT, os.path.join(HERE, "vc", "prove.py"), pid, "--tier", tier, "--out", outp]
        try:
            r = subprocess.run(cmd, env=ENV, timeout=480 if tier == "quick" else 3600, capture_output=True, text=True)
            proof = json.load(open(outp))
        except subprocess.TimeoutExpired:
            proof = {"obligations": [], "error": "verifier out of time"}
        except Exception:
            proof = {"obligations": [], "error": "verifier error: " + (r.stderr or "")[-2000:]}

    # ---- 2. the contract on the real code
    fail, ev, di, samples, errs = finish_search(ps, t0 + tsearch + 150)
    obs = proof["obligations"] if proof else []
    refuted = [o for o in obs if o["status"] == "refuted"]
    undecided = [o for o in obs if o["status"] not in ("discharged", "refuted")]
    if refuted and not fail and not a.no_search:   # look harder for an input
        fail, ev2, di2, s2, e2 = finish_search(start_search(pid, a.seed + 1000003, 3 * tsearch, ncpu, tmp), time.time() + 3 * tsearch + 150)
        ev += ev2; di += di2

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay = os.path.join(HERE, "evidence", "%s.replay.json" % pid)
    if os.path.exists(replay):
        os.remove(replay)
    violation = None
    if fail:
        json.dump({"property": pid, "case": fail["case"], "message": fail["message"], "obligation": [o["name"] for o in refuted],
                   "verifier_output": refuted, "how": "%s rt/run.py replay %s" % (PY, replay)}, open(replay, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s" % (pid, replay)
    elif refuted:
        json.dump({"property": pid, "obligation": [o["name"] for o in refuted], "verifier_output": refuted}, open(replay, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay)

    dis = sum(o["status"] == "discharged" for o in obs)
    level = meta["level"]
    cov = {"evaluations": ev, "distinct_nontrivial": di, "samples": samples[:2],
           "rule": "inputs that satisfy the precondition of the property's contract, generated from VERIF_SEED (plus an exhaustive enumeration of the smallest ones); each is run through the real code in CPython and the contract's postcondition is evaluated; counted once each (distinct by full content)"}
    if proof is not None:
        cov.update(obligations=len(obs), discharged=dis, checker_cmd="/opt/veriftools/pyvenv/bin/python vc/prove.py %s" % pid,
                   trusted_base=proof.get("trusted_base", []), functions_under_contract=proof.get("functions", []),
                   back_ends=proof.get("back_ends", {}), solver_time_s=proof.get("solver_time_s"), bounded_stand_ins=proof.get("bounded", []),
                   vacuity_checks=proof.get("vacuity"), paths=proof.get("paths"),
                   undecided=[{k: o.get(k) for k in ("name", "status", "detail")} for o in undecided],
                   obligation_list=[{"name": o["name"], "count": o.get("count", 1), "status": o["status"], "back_end": o.get("back_end"), "time_s": o.get("time_s")} for o in obs])
        if proof.get("error"):
            cov["verifier_error"] = proof["error"]
    evd = {"property": pid, "tier": tier, "seed": a.seed, "level": level, "coverage": cov,
           "assumptions": (proof or {}).get("assumptions", []) + [meta["level_note"]], "wall_s": round(time.time() - t0, 2), "violations": int(bool(violation))}
    json.dump(evd, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)

    for k in known(pid):
        print(k)
    if proof is not None:
        print("%s: %d obligations, %d discharged, %d refuted, %d undecided; contract run on %d inputs (%d distinct); %.1f s"
              % (pid, len(obs), dis, len(refuted), len(undecided), ev, di, time.time() - t0))
        for o in undecided:
            print("  undecided (bounded stand-in only): %s: %s" % (o["name"], (o.get("detail") or "")[:300].replace("\n", " ")))
        if proof.get("error"):
            print("  " + proof["error"][-1500:])
    else:
        print("%s: contract run on %d inputs (%d distinct); %.1f s" % (pid, ev, di, time.time() - t0))
    if violation:
        print("  " + (fail["message"] if fail else "failed obligations: " + ", ".join(o["name"] for o in refuted))[:600])
        print(violation)
        return 1
    if not a.no_search and ev == 0:
        print("no input was evaluated: " + "; ".join(errs)[-3000:])
        return 2
    if errs:
        print("; ".join(errs)[-3000:])
        if any("Error" in e for e in errs):
            return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
