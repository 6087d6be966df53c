#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl (a property is claimed when its harness exists)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = json.load(open(V + "/checks.json"))
TECH = json.load(open(V + "/tools/techniques.json"))
out = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
       "notes": "No hooks: every check uses only the public interface and builds the library from /repo with its own CMake files into /verif/build."}
for p in props:
    i = p["id"]
    c = checks.get(i)
    if c and all(os.path.exists(V + "/harness/" + s) for s in c["sources"]):
        t = TECH.get(i, {})
        out["checks"].append({
            "property": i,
            "quick_cmd": "python3 run.py %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": t.get("technique", "property-based testing: generated runs against an explicit oracle, with shrinking"),
            "level": "exploration",
            "level_note": t.get("note", "Holds on every generated case; nothing is claimed for cases outside the generator's domain, which is stated in the evidence and DESIGN.md. Trusts the harness's oracle, Eigen, the compiler and the C library.")})
    else:
        out["not_applicable"].append({"property": i, "reason": "no check built yet"})
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
