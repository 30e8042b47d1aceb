#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAT = "src/bigint/nat.rs"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=False, note=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}
    if hook: a["hook_needed"] = "Float::verif_parts (cfg rmath_verif): raw form, sign, mantissa, exponent"
    P.append(({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}, note))
exec(open(os.path.join(R, "tools", "props_table.py"), encoding="utf-8").read())
with open(os.path.join(R, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p, _ in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks = [{"property": p["id"], "quick_cmd": f"node check.js {p['id']}", "thorough_cmd": f"node check.js {p['id']} thorough",
           "technique": TECH, "level": "model_checking", "level_note": n or NOTE, "evidence_file": f"evidence/{p['id']}.json"} for p, n in P]
m = {"version": 1, "setup_cmd": "node check.js --build",
     "hooks": HOOKS, "checks": checks, "not_applicable": [], "notes": NOTES}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w", encoding="utf-8"), indent=1, ensure_ascii=False)
