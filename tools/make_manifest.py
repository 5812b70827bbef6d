"""Writes MANIFEST.json from the checks present in mc/checks."""
import ast, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "mc/checks", i.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    consts = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "LEVEL_NOTE"):
            consts[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        "property": i,
        "quick_cmd": "bin/check %s --tier quick" % i,
        "thorough_cmd": "bin/check %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": consts.get("TECHNIQUE", "explicit-state exploration of the real code's parameter/operation state graph against a reference model"),
        "level": "model_checking",
        "level_note": consts.get("LEVEL_NOTE", "Exhaustive over the finite alphabets and bounds recorded in the evidence file; says nothing about values outside them. Trusts the reference model in mc/ and numpy/scipy."),
    })
m = {"version": 1, "setup_cmd": "bin/check build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Findings: known_findings.txt. Design: DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
