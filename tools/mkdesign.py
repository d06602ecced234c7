"""Writes DESIGN.md from design.template.md, design.json, details.md and the seeded changes"""
import glob, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
rows = json.load(open(os.path.join(HERE, "design.json")))
table = "\n".join("| %s | %s | %s |" % (p, how, what) for p, (how, what) in sorted(rows.items()))
seeds = []
for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"]))
details = open(os.path.join(HERE, "details.md")).read().replace("@@SEEDS@@", "\n".join(seeds))
t = open(os.path.join(HERE, "design.template.md")).read().replace("@@TABLE@@", table).replace("@@DETAILS@@", details)
assert "@@" not in t
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
