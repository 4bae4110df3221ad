#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json
import os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for l in open(D + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    f = "%s/harness/%s.py" % (D, i.lower())
    if os.path.exists(f) and i not in NA:
        src = open(f).read()
        ns = {}
        note = None
        import ast
        for nd in ast.parse(src).body:
            if isinstance(nd, ast.Assign) and nd.targets[0].id == "NOTE":
                note = ast.literal_eval(nd.value)
        checks.append(dict(property=i, quick_cmd="python3-vt /verif/check.py %s --tier quick" % i,
                           thorough_cmd="python3-vt /verif/check.py %s --tier thorough" % i,
                           technique="symbolic execution of the LLVM IR of the C sources and of the Python sources; z3 decides each obligation",
                           level="model_checking",
                           level_note=note or "bounded: every real value of the symbolic inputs within the sizes listed in the harness; see DESIGN.md"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "harness not built yet")))
m = dict(version=1, setup_cmd="python3-vt /verif/tools/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(D + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
