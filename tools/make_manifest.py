#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the check modules that exist."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, missing = [], []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    ids = [json.loads(line)["id"] for line in f if line.strip()]
for pid in ids:
    path = os.path.join(HERE, "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": pid, "reason": "the check is not built yet"})
        continue
    with open(path) as f:
        tree = ast.parse(f.read())
    values = {n.targets[0].id: n.value for n in tree.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
    oracle = ast.literal_eval(values["ORACLE"])
    assumptions = ast.literal_eval(values["ASSUMPTIONS"])
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 run.py {pid} --tier quick",
        "thorough_cmd": f"python3 run.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "property-based testing (Hypothesis generators with shrinking): " + oracle,
        "level": "exploration",
        "level_note": "Holds on every generated case; not a proof. Assumes: " + "; ".join(assumptions) + ".",
    })
doc = {"version": 1, "setup_cmd": "python3 tools/selfcheck.py", "checks": checks, "not_applicable": missing,
       "notes": "No hooks: every property is observed through the public interface, the files written and the "
                "matplotlib artists drawn. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(missing), "missing")
