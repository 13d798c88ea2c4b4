"""Writes DESIGN.md from design_head.md, design_props.py, design_tail.md and catches.json."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from design_props import P
import plants
o = open(H + "/design_head.md").read()
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    what, why = P[p["id"]]
    o += "\n**%s %s.** Observed: %s Beyond the tests: %s. Anchors: %s.\n" % (p["id"], p["title"], what[0].upper() + what[1:], why, ", ".join(m["where"] for m in p["anchors"]["mechanism"]))
o += "\n" + open(H + "/design_tail.md").read()
c = json.load(open(H + "/catches.json")) if os.path.exists(H + "/catches.json") else {}
o += "| planted bug | needs | quick check |\n|---|---|---|\n"
for p in plants.PLANTS:
    if os.path.isdir(os.path.join(V, "seeded", p["id"])):
        o += "| %s | %s | %s |\n" % (p["id"], p["needs"], c.get(p["id"], "not run"))
open(V + "/DESIGN.md", "w").write(o)
