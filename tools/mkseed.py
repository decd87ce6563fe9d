#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE (reads a JSON spec on stdin: {"edits":[[file,old,new],...],"needs":..,"breaks":..,"demo":"rust source"})
Writes /verif/seeded/ID from edits applied to /repo's HEAD (and undone at once)."""
import json, subprocess, sys, os
REPO, VERIF = os.environ.get("SEED_REPO", "/repo"), os.environ.get("SEED_VERIF", "/verif")
saved = {}
ID, PROP = sys.argv[1], sys.argv[2]
spec = json.load(sys.stdin) if not sys.argv[3:] else eval(open(sys.argv[3]).read())
d = f"{VERIF}/seeded/{ID}"; os.makedirs(d, exist_ok=True)
try:
    for f, old, new in spec["edits"]:
        p = REPO + "/nyx-core/src/" + f
        s = open(p).read()
        saved.setdefault(p, s)
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
finally:
    for p, s in saved.items():
        open(p, "w").write(s)
assert diff
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.rs", "w").write(spec["demo"])
open(d + "/demo.sh", "w").write('''#!/bin/bash
# Runs in /repo after the build: compiles demo.rs against it as a throw-away example and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
name=nyxdemo_$$
trap 'rm -f "$PWD/nyx-core/examples/$name.rs" "$PWD/target/debug/examples/$name" "$PWD/target/debug/examples/$name.d"' EXIT
cp "$here/demo.rs" "nyx-core/examples/$name.rs" || exit 3
timeout 250 cargo build $CORE --example "$name" >/tmp/$name.log 2>&1 || { tail -30 /tmp/$name.log; rm -f /tmp/$name.log; exit 3; }
rm -f /tmp/$name.log
timeout 40 target/debug/examples/$name
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": PROP, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
print(diff)
