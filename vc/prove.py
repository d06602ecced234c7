"""prove.py ID [--tier T] [--out FILE]: generate and discharge the obligations of one property from /repo's current source"""
import argparse, importlib, json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import contract

ENGINE_BASE = ["vc/engine.py, vc/instrument.py: the verification-condition generator (its rewrites are listed in instrument.py)", "z3 (and cvc5 where named)"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    t0 = time.time()
    m = importlib.import_module(a.pid.lower())
    cons = [c for c in m.contracts() if not a.only or a.only in c.name]
    r = contract.verify(cons, a.tier, deadline=time.time() + (420 if a.tier == "quick" else 3000))
    r["trusted_base"] = ENGINE_BASE + r["trusted_base"]
    r["assumptions"] = getattr(m, "ASSUMPTIONS", [])
    r["bounded"] = getattr(m, "BOUNDED", [])
    r["wall_s"] = round(time.time() - t0, 2)
    if a.out:
        json.dump(r, open(a.out, "w"), indent=1, default=str)
    if a.v or not a.out:
        for o in r["obligations"]:
            print("%-12s x%-4d %6.2fs  %s" % (o["status"], o.get("count", 0), o.get("time_s", 0), o["name"]))
            if o["status"] != "discharged":
                print("      " + str(o.get("detail", ""))[:1500])
        print("vacuity:", {k: v for k, v in r["vacuity"].items() if not v} or "all points reached (%d)" % len(r["vacuity"]))
        print("paths", r["paths"], "solver", r["solver_time_s"], "wall", r["wall_s"])


if __name__ == "__main__":
    main()
