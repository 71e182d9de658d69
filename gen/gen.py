#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from gen/props.py.
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import P, MISSED
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd="./check.sh %s" % p["id"], thorough_cmd="./check.sh %s" % p["id"],
        evidence_file="evidence/%s.json" % p["id"], technique="static analysis: " + p["technique"], level="other", level_note=p["note"]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="One checker (checker/, Go, on golang.org/x/tools/go/packages and go/ssa) decides every property from the type-checked source of /repo; nothing of /repo is run. No hooks in /repo are needed.")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md
import glob
seeds = {}
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
rd = lambda n: open(os.path.join(here, n)).read()
o = [rd("design_head.md"), "\n## The properties\n"]
for p in P:
    if p["na"]:
        continue
    o.append("\n### %s %s\n\n%s\n\n*Quantifies over* %s.\n*Why tests do not settle it:* %s\n\n*Decided by* %s.\n%s\n" % (
        p["id"], p["title"], p["statement"], p["text"], p["why"], p["technique"], p["note"]))
    o.append("Anchors: " + "; ".join("%s (%s)" % (a, b) for a, b in p["mech"]) + ".\n")
    for n, d in seeds.get(p["id"], []):
        o.append("Planted: `%s` - %s; needs %s.%s\n" % (n, d["what_it_breaks"], d["needs"], " *Missed.*" if n in MISSED else " Caught by %s." % p["id"]))
o.append("\n## Not applicable\n\n")
for p in P:
    if p["na"]:
        o.append("* **%s %s.** %s\n" % (p["id"], p["title"], p["na"]))
o.append("\n## Genuine defects found\n\nEach is repaired by one `fix:` commit in /repo unless it says *finding*; the list is `known-findings.txt`.\n\n")
for l in open(os.path.join(root, "known-findings.txt")):
    l = l.strip()
    if l.startswith("fixed:"):
        _, pr, h, t = l.split(" ", 3)
        o.append("* %s, repaired by %s: %s\n" % (pr.replace("property=", ""), h, t))
    elif l.startswith("finding:"):
        o.append("* *finding* " + l[9:].replace("property=", "") + "\n")
o.append("\n" + rd("design_tail.md"))
open(os.path.join(root, "DESIGN.md"), "w").write("".join(o))
print(len(checks), "checks,", len(na), "not applicable")
