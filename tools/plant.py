#!/usr/bin/env python3
"""plant.py ID PROP FILE "needs" "what" <spec on stdin>: make a seeded bug.

The spec holds one or more replacements and the demonstration:
<<<<
old
====
new
>>>>
@@@ demo
python code
"""
import json
import os
import re
import shutil
import subprocess
import sys

ID, PROP, FILE, NEEDS, WHAT = sys.argv[1:6]
spec = sys.stdin.read()
edits, demo = spec.split("@@@ demo\n")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded", ID)
out = os.path.normpath(out)
wt = "/tmp/wt_" + ID
subprocess.run(["rm", "-rf", wt])
subprocess.run(["cp", "-a", "/repo", wt], check=True)
try:
    path = os.path.join(wt, FILE)
    s = open(path).read()
    for m in re.finditer(r"<<<<\n(.*?)\n====\n(.*?)\n?>>>>", edits, re.S):
        old, new = m.group(1), m.group(2)
        if s.count(old) != 1:
            sys.exit("%s: %d matches of %r" % (ID, s.count(old), old))
        s = s.replace(old, new)
    open(path, "w").write(s)
    diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True,
                          text=True).stdout
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write(demo)
    open(out + "/demo.sh", "w").write(
        '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": WHAT},
              open(out + "/meta.json", "w"), indent=1)
    a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo",
                       capture_output=True, text=True)
    b = subprocess.run(["bash", out + "/demo.sh"], cwd=wt,
                       capture_output=True, text=True)
    print(ID, "demo clean rc", a.returncode, "patched rc", b.returncode,
          (b.stderr.strip().splitlines() or [""])[-1][:150])
    if a.returncode:
        print(a.stderr[-800:])
    if a.returncode or not b.returncode:
        shutil.rmtree(out)
        sys.exit("demo")
    sh = open("/opt/vp/test.sh").read().replace("/repo", wt)
    open(wt + "/t.sh", "w").write(sh)
    subprocess.run(["bash", wt + "/t.sh", wt + "/o.json"],
                   capture_output=True)
    o = json.load(open(wt + "/o.json"))
    ps = o.get("passed") or [k for k, v in o.get("tests", o).items()
                             if v in ("passed", "pass", True)]
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = [t for t in st if t not in ps]
    if bad:
        shutil.rmtree(out)
        sys.exit("%s: stable tests fail: %s" % (ID, bad[:3]))
    env = dict(os.environ, PYTHONPATH=wt + ":/verif",
               PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
               VERIF_EVIDENCE="/tmp/ev_" + ID)
    r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-m",
                        "symex", PROP, "--tier", "quick"], cwd="/verif",
                       env=env, capture_output=True, text=True)
    v = [x for x in r.stdout.splitlines()
         if x.startswith(("VIOLATION", "DEGRADED", "  harness"))]
    print(ID, "check rc", r.returncode, "\n".join(x[:160] for x in v[:3]))
finally:
    subprocess.run(["rm", "-rf", wt])
