#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from the check modules (run with python3-vt)."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
checks = []
for f in sorted(glob.glob(V + "/checks/c[0-9][0-9].py")):
    m = importlib.import_module(os.path.basename(f)[:-3])
    checks.append({
        "property": m.PROPERTY,
        "quick_cmd": "python3 checks/run.py %s --tier quick" % m.PROPERTY,
        "thorough_cmd": "python3 checks/run.py %s --tier thorough" % m.PROPERTY,
        "evidence_file": "evidence/%s.json" % m.PROPERTY,
        "technique": m.TECHNIQUE,
        "level": "exploration",
        "level_note": m.NOTE,
    })
json.dump({"version": 1,
           "setup_cmd": "python3 harness/build.py cli worker worker_san unit_sel unit_ps unit_stl unit_err fuzz_run",
           "hooks": {"guard": "none", "enable": "no hooks are needed: the harness links the real sources", "source_commits": []},
           "checks": checks, "not_applicable": []}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
