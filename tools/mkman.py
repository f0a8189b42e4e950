#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks present."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NA = json.load(open(here + "/tools/not_applicable.json"))
TECH = json.load(open(here + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    f = glob.glob(f"{here}/checks/{i.lower()}_*.py")
    if f and i not in NA:
        t = TECH.get(i, TECH["*"])
        checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
                           technique=t["technique"], level="other", level_note=t["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check has been built for it yet.")))
import subprocess
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines()
hooks = dict(guard="SURFACE_SIM_VERIF", enable="environment variable SURFACE_SIM_VERIF=1 (set by lib/vk/env.py)",
             source_commits=[l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hook:")])
json.dump(dict(version=1, setup_cmd="./setup.sh", hooks=hooks, checks=checks, not_applicable=na),
          open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
