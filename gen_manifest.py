#!/usr/bin/env python3
# Generates MANIFEST.json from properties.jsonl and harness/meta.json.
import json, os
V = os.path.dirname(os.path.abspath(__file__))
meta = json.load(open(V + "/harness/meta.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
na = []
for i in ids:
    m = meta.get(i)
    if not m or "na" in m:
        na.append({"property": i, "reason": (m or {}).get("na", "check not finished")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.py " + i,
        "thorough_cmd": "./check.py " + i + " --thorough",
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the instrumented LLVM IR of the real code; every branch and "
                     "assertion decided by SMT (Z3, bit-vectors), counterexamples replayed on an uninstrumented build",
        "level": "model_checking",
        "level_note": "Bounded: " + m["bounds"] + " Outside: " + m["outside"]})
json.dump({"version": 1, "setup_cmd": "./check.py --setup",
           "hooks": {"guard": "ETHOS_VERIF", "enable": "-DETHOS_VERIF (no hook is needed: private members are reached with -fno-access-control)",
                     "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "known_findings.json lists findings and repairs; DESIGN.md describes engine, bounds and planted bugs"},
          open(V + "/MANIFEST.json", "w"), indent=1)
