#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from props.py.
import json, os
from props import P
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P.sort(key=lambda p: p["id"])
assert len({p["id"] for p in P}) == len(P)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
checks, na = [], []
for p in P:
    if "reason" in p:
        na.append({"property": p["id"], "reason": p["reason"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "./run.sh check " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./run.sh check " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./run.sh list", "checks": checks, "not_applicable": na,
     "notes": "One analyser (sa/, Go, golang.org/x/tools/go/ssa) decides every property from /repo's current source; it never runs code of the repository. run.sh builds it and runs one check."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md
import glob
caught = json.load(open(os.path.join(root, "tools", "caught.json")))
seeds = {}
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    x = json.load(open(os.path.join(d, "meta.json")))
    seeds.setdefault(x["property"], []).append((os.path.basename(d), x))
here = os.path.dirname(os.path.abspath(__file__))
out = open(os.path.join(here, "design_head.md")).read()
for p in P:
    out += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if "reason" in p:
        out += "*Not applicable.* %s\n\n" % p["reason"]
        continue
    out += "* Quantifies over: %s.\n" % p["quant"]
    out += "* Why tests cannot settle it: %s\n" % p["why"]
    out += "* Anchors: %s.\n" % "; ".join("%s (%s)" % m for m in p["mech"])
    out += "* Decided by: %s.\n" % p["technique"]
    out += "* Scope and assumptions: %s\n" % p["note"]
    for n, x in seeds.get(p["id"], []):
        out += "* Planted: `%s` - %s" % (n, x["what_it_breaks"])
        if caught.get(n):
            out += " (caught by %s)" % ", ".join(caught[n])
        out += "\n"
    out += "\n"
out += open(os.path.join(here, "design_tail.md")).read()
n = sum(len(v) for v in seeds.values())
out += "## Planted bugs\n\n%d, in `seeded/`, listed above under their property with the checks which catch them.\n" % n
open(os.path.join(root, "DESIGN.md"), "w").write(out)
