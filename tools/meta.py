#!/usr/bin/env python3
"""The property table; writes properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, state=None, observe=None,
      technique="TLA+ specification + conformance: TLC judges recorded runs of the real program", level="model_checking", na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      note=note, state=state or [], observe=observe or ["answers printed on stdout"], technique=technique, level=level, na=na))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="python3 -m vp.build",
         checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                      thorough_cmd="python3 check.py %s thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level=p["level"], level_note=p["note"])
                 for p in PROPS if not p["na"]],
         not_applicable=[dict(property=p["id"], reason=p["na"]) for p in PROPS if p["na"]],
         notes="No hooks in /repo: everything is observed through the program's public interface. The checks build all of verifypn from /repo's working tree under /verif/_build, with stand-ins for the two libraries missing here (ptrie, spot).")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(ROOT, "properties.jsonl")):
    jsonschema.validate(json.loads(l), sch)
print(len(PROPS), "properties,", len(m["checks"]), "claimed")
# DESIGN.md: the generated sections
import re, glob
src = open(os.path.join(ROOT, "tools", "DESIGN.in.md")).read()
ps = "## Properties and how each is decided\n\n"
for p in PROPS:
    ps += "### %s %s\n%s\n\n" % (p["id"], p["title"], p.get("design") or p["note"])
fx = "".join("* %s `%s`: %s\n" % (f["property"], f["commit"], f["what"]) for f in json.load(open(os.path.join(ROOT, "known-findings.json")))["findings"] if f["status"] == "fixed")
sd = ""
res = json.load(open(os.path.join(ROOT, "tools", "seedresults.json"))) if os.path.exists(os.path.join(ROOT, "tools", "seedresults.json")) else {}
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d)); o = json.load(open(d))
    sd += "* %s (%s) %s — %s\n" % (i, o["property"], o["what_it_breaks"], res.get(i, "caught by %s quick" % o["property"]))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(src.replace("@@PROPS@@", ps).replace("@@FIXES@@", fx).replace("@@SEEDS@@", sd))
