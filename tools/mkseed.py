#!/usr/bin/env python3
"""mkseed.py ID PROP FILE 'needs' 'breaks' < text of the form OLD\n====\nNEW\n====\nDEMO (rust): makes seeded/ID.
Several edits: separate (OLD, NEW) pairs by ==== too, a line `@@ path` before OLD names another file."""
import json, os, shutil, subprocess, sys

ID, PROP, FILE, NEEDS, BREAKS = sys.argv[1:6]
parts = sys.stdin.read().split("\n====\n")
demo = parts.pop()
d = f"/verif/seeded/{ID}"
os.makedirs(d, exist_ok=True)
assert not subprocess.run(["git", "-C", "/repo", "status", "--short"], capture_output=True, text=True).stdout
try:
    for old, new in zip(parts[::2], parts[1::2]):
        f = FILE
        if old.startswith("@@ "):
            f, old = old[3:].split("\n", 1)
        t = open(f"/repo/{f}").read()
        assert t.count(old) == 1, (t.count(old), old)
        open(f"/repo/{f}", "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(f"{d}/patch.diff", "w").write(diff)
open(f"{d}/demo.rs", "w").write(demo.lstrip("\n"))
json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": BREAKS}, open(f"{d}/meta.json", "w"), indent=1)
shutil.copy("/verif/tools/demo.sh", f"{d}/demo.sh")
os.chmod(f"{d}/demo.sh", 0o755)
print(diff)
