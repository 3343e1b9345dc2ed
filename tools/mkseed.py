#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: takes /repo's uncommitted change as the planted bug, undoes it, and
makes /verif/seeded/ID with the demo kit; cases are added by hand (case*/cmd, expect, inputs)."""
import sys, os, json, subprocess, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id, prop, needs, what = sys.argv[1:5]
d = os.path.join(ROOT, "seeded", id)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True, check=True).stdout
if diff.strip():
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, "meta.json"), "w"), indent=1)
shutil.copy(os.path.join(ROOT, "tools/seedkit/demo.sh"), d)
subprocess.run(["tar", "czf", os.path.join(d, "kit.tgz"), "-C", ROOT, "standins", "cmake"], check=True)
