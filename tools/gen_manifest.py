#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the table below and the ids in properties.jsonl"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of rustc MIR (path-sensitive, interprocedural; value-numbering, interval and variant domains; no execution, no solver)"
CHECKS = {}
NOT_YET = "check not built yet"
NA = {}


def claim(p, technique, note):
    CHECKS[p] = (technique, note)


exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 sa/dump.py",
    "checks": [{"property": p, "quick_cmd": f"python3 sa/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 sa/check.py {p}",
                "evidence_file": f"evidence/{p}.json", "technique": CHECKS[p][0], "level": "other", "level_note": CHECKS[p][1]} for p in ids if p in CHECKS],
    "not_applicable": [{"property": p, "reason": NA.get(p, NOT_YET)} for p in ids if p not in CHECKS],
    "notes": "No hooks in /repo: the driver reads MIR of the unmodified crates. Fixes in /repo and the findings left open are listed in known-findings.txt.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
