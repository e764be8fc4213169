#!/usr/bin/env python3
"""mk.py ID PROPERTY < spec : plant a bug.  spec is python: EDITS=[(file, old, new)], DEMO=str, NEEDS, BREAKS"""
import json, os, shutil, subprocess, sys
bid, prop, spec = sys.argv[1:4]
ns = {}
exec(open(spec).read(), ns)
R = "/repo/src/acetone_nnet/"
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout
d = f"/verif/seeded/{bid}"
os.makedirs(d, exist_ok=True)
try:
    for f, old, new in ns["EDITS"]:
        s = open(R + f).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(R + f, "w").write(s.replace(old, new))
    p = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(p)
    shutil.copy("/verif/tools/seed/demolib.py", d)
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n" + ns["DEMO"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    bad = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    print("patched demo rc", bad.returncode, bad.stdout[-200:], "\n".join(l for l in bad.stderr.splitlines() if "placer" not in l and "0000" not in l)[-200:])
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
good = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
print("clean demo rc", good.returncode, good.stdout[-100:])
print("OK" if bad.returncode and not good.returncode else "BAD")
