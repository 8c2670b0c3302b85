#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below (one check per existing checks/<id>.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py --tier quick" % i,
                       "thorough_cmd": "python3 checks/%s.py --tier thorough" % i,
                       "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("reason", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
           "hooks": {"guard": "CISTA_VERIF_HOOKS", "enable": "no hooks are needed: checks observe the public API", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Specifications in spec/, replay harnesses in harness/, one runner per property in checks/. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
