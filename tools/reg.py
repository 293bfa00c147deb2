#!/usr/bin/env python3
"""reg.py ID LEVEL TECHNIQUE NOTE -- register (or update) a check, then rewrite MANIFEST.json."""
import json, sys, subprocess, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
c = json.load(open("tools/checks.json"))
i, level, tech, note = sys.argv[1:5]
c = [x for x in c if x["property"] != i]
c.append(dict(property=i, technique=tech, level=level, note=note))
json.dump(c, open("tools/checks.json", "w"), indent=1)
subprocess.check_call(["python3", "tools/manifest.py"])
