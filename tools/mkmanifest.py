"""writes MANIFEST.json for the checks that exist"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
checks = []
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf8"):
    p = json.loads(line)
    mod = os.path.join(HERE, "checks", p["id"].lower() + ".py")
    if not os.path.exists(mod):
        continue
    doc = open(mod, encoding="utf8").read()
    note = "Exhaustive within the bound stated in the evidence; trusts the reference model, the enumeration engine"
    note += " and the stand-ins for the optional libraries." if "standins" in doc or "lpx" in doc or "solvers" in doc else "."
    checks.append({
        "property": p["id"],
        "quick_cmd": f"{PY} run.py {p['id']}",
        "thorough_cmd": f"{PY} run.py {p['id']} --thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "bounded exhaustive enumeration of instances and behaviours on the real code against a reference model",
        "level": "model_checking",
        "level_note": note,
    })
m = {"version": 1, "setup_cmd": f"{PY} -c \"import numpy, pandas, odf\"", "checks": checks,
     "notes": "No hooks in the repository. Checks import the working tree of /repo at run time."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf8"), indent=1, ensure_ascii=False)
print(len(checks), "checks")
