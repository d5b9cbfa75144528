"""Print a replay file readably: templates, values, faults."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from simtal.model import Compiled, Model  # noqa: E402

d = json.load(open(sys.argv[1]))
case = d["case"]
print(d["property"], d["seed"], *d["violation"], sep="\n  ")
if "templates" in case:
    c = Compiled(case["templates"])
    for f, s in c.text.items():
        print("---", f, case["templates"][f]["mode"])
        print(s)
    if "render" in case:
        m = Model(c, case["render"], named=case.get("named", True)).run(case["main"])
        print("--- expected", m.outcome)
        print(m.out)
print("---", {k: v for k, v in case.items() if k != "templates"})
