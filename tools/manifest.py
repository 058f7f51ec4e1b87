#!/opt/venv/bin/python
"""Writes /verif/MANIFEST.json: one entry per property that has a module mc/cNN.py."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
SCHED = {"C02"}
NOTE = {
    "C02": "Every schedule of the scenarios within the preemption bound is executed on the real code under a controlled scheduler with virtual time; trusts the model of CPython's threading primitives and the line-level atomicity of the GIL.",
}
DEFAULT = ("Exhaustive within the stated bounds: every case of the bounded space is executed on the real code and compared with an "
           "independent reference model on every step; says nothing beyond the bounds or the alphabets, and trusts the reference model.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{HERE}/mc/{i.lower()}.py"):
        checks.append({"property": i,
            "quick_cmd": f"/opt/venv/bin/python check.py {i} quick",
            "thorough_cmd": f"/opt/venv/bin/python check.py {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "stateless model checking of thread interleavings, preemption-bounded" if i in SCHED
                         else "bounded exhaustive model checking of the real code against a reference model",
            "level": "model_checking",
            "level_note": NOTE.get(i, DEFAULT)})
    else:
        na.append({"property": i, "reason": "no check yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
