"""Writes MANIFEST.json."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
PURE = ("function of its input alone: there is no schedule, fault, crash or history for a simulation to "
        "control; it would be input fuzzing")
LATER = "check not built yet"
NA = {"C22": PURE, "C23": PURE, "C24": PURE, "C25": PURE}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if not os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
        na.append(dict(property=pid, reason=NA.get(pid, LATER)))
        continue
    c = importlib.import_module("checks." + pid.lower()).CHECK
    cmd = f"/opt/venv/bin/python run_check.py {pid}"
    checks.append(dict(
        property=pid, quick_cmd=cmd, thorough_cmd=cmd, evidence_file=f"evidence/{pid}.json",
        technique=getattr(c, "technique", "deterministic simulation with fault injection"),
        level="exploration",
        level_note=c.note))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python run_check.py selftest", checks=checks,
               not_applicable=na,
               notes="No hooks in /repo: the simulator uses Python's import system and os/builtins seams."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
