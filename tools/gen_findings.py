"""Writes known_findings.jsonl: the fixed defects (tools/fixed.py) and the file-name collisions of C19, enumerated from the documented
naming rule (decimal digits of the three numbers put side by side; the static exchange has no letter), not from the code's behaviour.
Run by hand; the output is committed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from fixed import FIXED
out = []
for pids, commit, what in FIXED:
    for p in pids.split("/"):
        out.append(dict(status="fixed", property=p, commit=commit, what=what, line="fixed: property=%s %s %s" % (p, commit, what)))
names = {}
for n in range(1, 17):
    for h in range(n + 1):
        for b in range(n - h + 1):
            names.setdefault("%d%d%d" % (n, n - h - b, b), []).append((n, n - h - b, b))
for name, fs in sorted(names.items()):
    for i, f in enumerate(sorted(fs)):
        for g in sorted(fs)[i + 1:]:
            out.append(dict(status="known", property="C19", key="digits:%s|%s" % (",".join(map(str, f)), ",".join(map(str, g))),
                            what="the results of %d sites with %d up and %d down spins and of %d sites with %d up and %d down spins (same terms, same kind) are "
                                 "both written to tJHam-%s*.json" % (*f, *g, name)))
T = ["bt", "bij", "bSD", "btN", "bV"]
for i in range(31):
    sel = [t for k, t in enumerate(T) if i >> k & 1]
    a, b = sorted(("+".join(sorted(sel)), "+".join(sorted(sel + ["bz"]))))
    out.append(dict(status="known", property="C19", key="selection:%s|%s" % (a, b),
                    what="the results of the terms [%s] without and with the static exchange bz (same lattice and electrons, same kind) share one file" % "+".join(sorted(sel))))
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for d in out: f.write(json.dumps(d) + "\n")
print(len(out), sum(d["status"] == "known" for d in out))
