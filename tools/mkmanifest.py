"""Writes /verif/MANIFEST.json: every property with a checks/<id>.py is claimed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("Trusts TLC, the projection of real objects to abstract states (vt/enc.py) and the harness; bounded to the "
        "small rasters, seeds and histories generated. The design model is exhaustive within its constants.")
NOTE = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
NA = NOTE.pop("not_applicable", {})
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(ROOT, "checks", p + ".py")) and p not in NA:
        n = NOTE[p]
        checks.append(dict(property=p, quick_cmd=f"./run.sh {p} --tier quick", thorough_cmd=f"./run.sh {p} --tier thorough",
                           evidence_file=f"evidence/{p}.json", technique="TLA+ specification (TLC): " + n["technique"],
                           level="model_checking", level_note=n["note"] + " " + BASE))
    else:
        na.append(dict(property=p, reason=NA.get(p, "Not claimed yet: its specification is still being built.")))
m = dict(version=1, setup_cmd="./tools/setup.sh", checks=checks, not_applicable=na,
         notes="Specifications in spec/ (TLA+, checked with TLC); drivers in checks/ and vt/; see DESIGN.md. "
               "No hooks in /repo are needed.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
