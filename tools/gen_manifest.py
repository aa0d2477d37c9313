"""Write MANIFEST.json from the property modules."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

PY = "/opt/venv/bin/python"
checks = []
for line in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8"):
    pid = json.loads(line)["id"]
    m = importlib.import_module("props." + pid.lower())
    assert m.ID == pid
    checks.append({
        "property": pid,
        "quick_cmd": "%s run.py %s --tier quick" % (PY, pid),
        "thorough_cmd": "%s run.py %s --tier thorough" % (PY, pid),
        "evidence_file": "evidence/%s.json" % pid,
        "technique": m.TECHNIQUE,
        "level": m.LEVEL,
        "level_note": m.LEVEL_NOTE,
    })
out = {
    "version": 1,
    "setup_cmd": PY + " vlib/selftest.py",
    "checks": checks,
    "not_applicable": [],
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(out, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks")
