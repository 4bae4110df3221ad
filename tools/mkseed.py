#!/usr/bin/env python3
"""mkseed.py SPECFILE: writes seeded/<id>/ from specifications (planted bugs used to test the checks).
SPECFILE defines SEEDS = [(id, property, [(file, old, new), ...], needs, breaks, demo python source)]"""
import json
import os
import sys
import subprocess
import tempfile
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for sid, prop, edits, needs, breaks, demo in ns["SEEDS"]:
    d = "%s/seeded/%s" % (D, sid)
    os.makedirs(d, exist_ok=True)
    patch = ""
    byf = {}
    for f, old, new in edits:
        s = byf.get(f) or open("/repo/" + f).read()
        if s.count(old) != 1:
            sys.exit("%s: %d occurrences of %r in %s" % (sid, s.count(old), old[:60], f))
        byf[f] = s.replace(old, new)
    for f, s in byf.items():
        with tempfile.NamedTemporaryFile("w", suffix=".x") as t:
            t.write(s)
            t.flush()
            p = subprocess.run(["git", "diff", "--no-index", "/repo/" + f, t.name], capture_output=True, text=True).stdout
        out = []
        for ln in p.splitlines():
            if ln.startswith("diff --git"):
                ln = "diff --git a/%s b/%s" % (f, f)
            elif ln.startswith("index"):
                continue
            elif ln.startswith("--- "):
                ln = "--- a/" + f
            elif ln.startswith("+++ "):
                ln = "+++ b/" + f
            out.append(ln)
        patch += "\n".join(out) + "\n"
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport OMP_NUM_THREADS=${DEMO_THREADS:-4} PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    open(d + "/demo.py", "w").write("import os\nimport sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nimport pymaster as nmt\n" + demo.strip() + "\n")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("wrote", sid)
