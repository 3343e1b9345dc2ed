#!/usr/bin/env python3
"""mkcase.py ID replay.json [name]: a demo case from a recorded violation (right answer = expected)"""
import sys, os, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(sys.argv[2]))
c = os.path.join(ROOT, "seeded", sys.argv[1], sys.argv[3] if len(sys.argv) > 3 else "case1")
os.makedirs(c, exist_ok=True)
open(os.path.join(c, "net.pnml"), "w").write(d["pnml"])
open(os.path.join(c, "q.xml"), "w").write(d["queries"])
open(os.path.join(c, "cmd"), "w").write('"$1" net.pnml q.xml %s\n' % " ".join(map(str, d["argv"])))
q = d["argv"][d["argv"].index("-x") + 1]
e = d.get("expected")
open(os.path.join(c, "expect"), "w").write("^FORMULA q%s %s( |$)\n" % (q, e if not isinstance(e, bool) else str(e).upper()))
