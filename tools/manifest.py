#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below."""
import json, subprocess, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
props = [json.loads(l) for l in open("properties.jsonl")]
EXP = "exploration"
checks = json.load(open("tools/checks.json"))
hooks = json.load(open("tools/hooks.json"))
claimed = {c["property"] for c in checks}
out = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": hooks,
    "checks": [dict(property=c["property"], quick_cmd=f"./run.sh {c['property']} quick",
                    thorough_cmd=f"./run.sh {c['property']} thorough",
                    technique=c["technique"], level=c["level"], level_note=c["note"]) for c in checks],
    "not_applicable": [dict(property=p["id"], reason=open("tools/na.json") and json.load(open("tools/na.json")).get(p["id"], "check not built yet"))
                       for p in props if p["id"] not in claimed],
}
json.dump(out, open("MANIFEST.json", "w"), indent=1)
