"""Write MANIFEST.json from the checks."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from simtal import checks  # noqa: E402

old = json.load(open(os.path.join(here, "MANIFEST.json")))
out = []
for prop in sorted(checks.WHERE):
    path = os.path.join(here, "simtal", "checks", checks.WHERE[prop] + ".py")
    if not os.path.exists(path):
        continue
    c = checks.find(prop)
    out.append({
        "property": prop,
        "quick_cmd": "bash /verif/check.sh %s" % prop,
        "thorough_cmd": "bash /verif/check.sh %s" % prop,
        "evidence_file": "evidence/%s.json" % prop,
        "technique": c.technique,
        "level": c.level,
        "level_note": c.note,
    })
old["checks"] = out
old["setup_cmd"] = "/opt/venv/bin/python -B -c 'import zope.i18nmessageid'"
json.dump(old, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
