"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LVL = "Quint model checked by random simulation against its own theorems, then every recorded run of the real code is validated against the same model; bounded by the scenarios generated (seeded). Trusts the float32 tolerance of the validator and the recording hook (a Force)."
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, note=None, technique=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors=a, _note=note, _tech=technique))


SOLV = ["hydraxmpm/solvers/usl.py", "hydraxmpm/solvers/usl_asflip.py", "hydraxmpm/solvers/solver.py"]
exec(open(os.path.join(ROOT, "tools", "proplist.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(ROOT, "checks", p["id"] + ".py")):
        checks.append(dict(property=p["id"], quick_cmd="./check.sh %s" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                           technique=p["_tech"] or "Quint specification, simulated; generated behaviours replayed into the code and recorded traces validated against the specification",
                           level="model_checking", level_note=p["_note"] or LVL))
    else:
        na.append(dict(property=p["id"], reason=p["_note"] or "no check yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks: everything is observed through the public API (a recording Force is added by the harness)."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [n["property"] for n in na], "not claimed")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
