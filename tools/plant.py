"""python tools/plant.py ID PROPERTY FILE 'needs' 'breaks' < edits+demo

stdin: blocks separated by lines '=====': old, new, [old, new, ...], demo.
Writes seeded/ID/{patch.diff,demo.sh,demo.py,meta.json}; the edit is made in
a scratch clone of /repo."""
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bid, prop, files, needs, breaks = sys.argv[1:6]
parts = [p.strip("\n") for p in sys.stdin.read().split("\n=====\n")]
demo = parts.pop()
files = files.split(",")
with tempfile.TemporaryDirectory() as d:
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    for old, new in zip(parts[::2], parts[1::2]):
        hit = [f for f in files if old in open(f"{d}/{f}").read()]
        assert len(hit) == 1, (hit, old)
        s = open(f"{d}/{hit[0]}").read()
        assert s.count(old) == 1, (s.count(old), old)
        open(f"{d}/{hit[0]}", "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=d, check=True,
                          capture_output=True, text=True).stdout
    # lines must be of the original repository
    for f in files:
        subprocess.run(["python3", "-m", "py_compile", f], cwd=d, check=True)
out = f"{ROOT}/seeded/{bid}"
os.makedirs(out, exist_ok=True)
open(f"{out}/patch.diff", "w").write(diff)
open(f"{out}/demo.py", "w").write(demo + "\n")
open(f"{out}/demo.sh", "w").write('''#!/bin/bash
# run with cwd /repo; exit 0 when the property holds
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PYTHONPATH="$PWD" exec "${PY:-/opt/venv/bin/python}" -W ignore "$(dirname "$0")/demo.py"
''')
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
          open(f"{out}/meta.json", "w"), indent=1)
print(diff)
