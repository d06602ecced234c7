"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF_NOTE = {}
NA = {"C24": "The property is optimality of a matrix profile computed in floating point by numba-compiled code of the stumpy dependency; the repository's own code only slices its input and output. No contract over the repository's functions can express or decide it without assuming it as stumpy's contract, and stumpy's motif search is itself heuristic (distance cut-off, overlap exclusion)."}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
levels = json.load(open(os.path.join(HERE, "tools", "levels.json")))
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    l = levels.get(i, {})
    checks.append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i, "thorough_cmd": "./check.py %s --tier thorough" % i,
                   "technique": l.get("technique", "contract-based verification: run-time contract of the real functions (bounded stand-in)"),
                   "level": l.get("level", "exploration"),
                   "level_note": l.get("note", "Bounded: the contract's postcondition is evaluated on the real code for generated inputs; nothing is proved.")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
