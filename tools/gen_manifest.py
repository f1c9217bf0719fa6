#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
NOTE = {}
exec((V / "tools/levels.py").read_text())
checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    if (V / "checks" / f"{p['id']}.py").exists():
        checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                       "technique": TECH.get(p["id"], TECH["*"]), "level": "model_checking", "level_note": NOTE.get(p["id"], NOTE["*"])})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "the check is not built yet")})
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in specs/, checked with TLC and bound to the code by trace validation and replay. "
              "No hooks in /repo: the drivers use the public interfaces. known_findings.jsonl lists fixed and known defects."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
