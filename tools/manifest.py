"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import env  # noqa: F401,E402
import runner  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    pid = p["id"]
    if not glob.glob(os.path.join(HERE, "props", pid.lower() + "_*.py")):
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
        continue
    pr = runner.load(pid)
    checks.append({
        "property": pid,
        "quick_cmd": "./check %s --tier quick" % pid,
        "thorough_cmd": "./check %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": getattr(pr, "technique", None) or "property-based testing with hypothesis: generated documents against an independent reference model",
        "level": pr.level,
        "level_note": "Generated search over %s; %d cases in the quick tier, %d in the thorough one, and a regression tier of saved minimal cases. "
                      "Not covered: inputs outside of these generators (see the assumptions in the evidence)." % (
                          "; ".join("%s (%s)" % (f.name, f.rule) for f in pr.facets if f.exhaustive is None or True),
                          sum(f.quick for f in pr.facets), sum(f.thorough for f in pr.facets)),
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
