#!/usr/bin/env python3
"""newseed.py ID PROPERTY 'needs' 'breaks' [DIFF] < demo : saves a change (DIFF, or the one made in /repo's working tree,
which is undone) as /verif/seeded/ID/patch.diff and writes the demo beside it."""
import json, os, shutil, subprocess, sys
id_, prop, needs, breaks = sys.argv[1:5]
d = f"/verif/seeded/{id_}"
os.makedirs(d, exist_ok=True)
if len(sys.argv) > 5:
    diff = open(sys.argv[5]).read()
else:
    diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
assert diff.strip(), "no change"
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
text = sys.stdin.read()
if "fn check" in text:  # a Rust program using the library
    open(d + "/check.rs", "w").write(text)
    shutil.copytree("/verif/tools/demo/lib", d + "/lib", dirs_exist_ok=True)
    shutil.copy("/verif/tools/demo/lib.sh", d + "/demo.sh")
elif 'require("./host.cjs")' in text:  # a schedule for the editor extension
    open(d + "/demo.cjs", "w").write(text)
    for f in ("host.cjs", "bundle.cjs", "demo.sh"):
        shutil.copy("/verif/tools/demo/node/" + f, d)
else:
    open(d + "/demo.py", "w").write(text)
    shutil.copy("/verif/tools/demo/focus.py", d + "/focus.py")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
print(d)
