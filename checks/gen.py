#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog as c
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def mech(l): return [{"name": n, "where": w} for n, w in l]

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in c.P:
        files = sorted(set(p["extra_files"]) | {c.SRC.get(c.key(u)) or c.SRC[u[4:]] for u in p["units"]} | (set(c.BASE) if p["id"][0] == "S" else set()))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"] + (" " + c.scope(p["units"]) if p.get("units") else ""),
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": files, "mechanism": mech(p["mech"])}}) + "\n")
    for p in c.NOT_APPLICABLE:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": mech(p["mech"])}}) + "\n")
checks = []
for p in c.P:
    checks.append({"property": p["id"], "quick_cmd": "python3 checks/check.py " + p["id"],
        "thorough_cmd": "python3 checks/check.py %s --thorough" % p["id"],
        "technique": p.get("technique") or "abstract interpretation of the compiled IR (polyhedral domain, typestate of resources)",
        "level": p.get("level") or "proof",
        "level_note": p["level_note"] or "holds for all inputs and call histories under the stated contracts of libc, libstdc++, the codecs and the source stream; see DESIGN.md, trusted base"})
m = {"version": 1, "setup_cmd": "make -s -C engine -j8", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in c.NOT_APPLICABLE]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
