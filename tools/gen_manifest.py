#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks and the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import checks

NOT = getattr(checks, "NOT_APPLICABLE", {})
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
d = {
    "version": 1,
    "setup_cmd": "cargo +nightly build --offline --quiet --manifest-path extract/Cargo.toml",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks are static: /repo's current tree is compiled by a compiler driver (extract/) that exports typed MIR; "
             "engine/ decides the rules on it. No code of /repo is executed.",
}
for p in props:
    if p in checks.PROPS:
        s = checks.PROPS[p]
        d["checks"].append({
            "property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
            "evidence_file": f"evidence/{p}.json", "technique": s["technique"], "level": "other", "level_note": s["note"]})
    else:
        d["not_applicable"].append({"property": p, "reason": NOT[p]})
json.dump(d, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
