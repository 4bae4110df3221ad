#!/usr/bin/env python3
"""explore.py SPEC OUTDIR: quick planted bugs without demonstrations; SPEC defines EXP = [(id, "P19 P20", [(file, old, new), ...])]; writes OUTDIR/<id>/{patch.diff,meta.json}, to be run with SKIPTEST=1 tools/seedtest.sh"""
import json
import os
import subprocess
import sys
import tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
for sid, props, edits in ns["EXP"]:
    d = "%s/%s" % (sys.argv[2], sid)
    os.makedirs(d, exist_ok=True)
    byf = {}
    for f, old, new in edits:
        s = byf.get(f) or open("/repo/" + f).read()
        if s.count(old) != 1:
            sys.exit("%s: %d occurrences of %r in %s" % (sid, s.count(old), old[:60], f))
        byf[f] = s.replace(old, new)
    patch = ""
    for f, s in byf.items():
        with tempfile.NamedTemporaryFile("w", suffix=".x") as t:
            t.write(s)
            t.flush()
            p = subprocess.run(["git", "diff", "--no-index", "/repo/" + f, t.name], capture_output=True, text=True).stdout.splitlines()
        p = [x for x in p if not x.startswith("index")]
        p[0] = "diff --git a/%s b/%s" % (f, f)
        p[1], p[2] = "--- a/" + f, "+++ b/" + f
        patch += "\n".join(p) + "\n"
    open(d + "/patch.diff", "w").write(patch)
    json.dump(dict(property=props), open(d + "/meta.json", "w"))
    print(sid)
