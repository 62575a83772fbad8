"""Write MANIFEST.json from the checks that exist (pkverif/checks/cNN.py)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
PY = "/opt/venv/bin/python"
TECH = "runtime monitoring: real library under generated and hostile workloads, deciding oracle = "
NOTE = ("Held on the executions observed only (counts in the evidence file). CPU only. Trusted: the numpy float64 reference in pkverif/ref.py, "
        "numpy/torch primitives, and where named MuJoCo, PyBullet and lxml.")

checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "pkverif", "checks", p.lower() + ".py")):
        m = importlib.import_module("pkverif.checks." + p.lower())
        cmd = f"{PY} run.py --property {p}"
        checks.append({"property": p, "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
                       "technique": TECH + m.ORACLE, "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": f"{PY} -c \"import sys; sys.path.insert(0, '.'); import pkverif.common, pkverif.gen\"",
           "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
