"""Writes MANIFEST.json from properties.jsonl and the checks that exist.  Run by hand."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
NOTE = {}
DEFAULT_TECH = "property-based testing: structured generation plus exhaustive small trees, explicit oracle, shrinking"
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "vf", "checks", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": f"/opt/venv/bin/python check.py {pid} quick",
                       "thorough_cmd": f"/opt/venv/bin/python check.py {pid} thorough", "evidence_file": f"evidence/{pid}.json",
                       "technique": TECH.get(pid, DEFAULT_TECH), "level": "exploration", "level_note": NOTE[pid]})
    else:
        na.append({"property": pid, "reason": "the check for it is still being written"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '.'); import vf.sut as s; s.mod('treeno.builder.convert')\"",
     "checks": checks, "not_applicable": na,
     "notes": "Checks import treeno from /repo's working tree; nothing is built. VERIF_SEED seeds every random choice. A replay file is run with "
              "check.py CXX --replay FILE. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
