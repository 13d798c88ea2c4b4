"""Writes MANIFEST.json from properties.jsonl, the modules in harness/ and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from notes import TECHNIQUE, NOTE
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "harness", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="bin/check %s" % p, thorough_cmd="bin/check %s --thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=TECHNIQUE[p], level="exploration", level_note=NOTE[p]))
    else:
        na.append(dict(property=p, reason="its monitor is not built yet"))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
