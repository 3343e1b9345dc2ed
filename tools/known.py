#!/usr/bin/env python3
"""Adds 'fixed' entries for the fix: commits of /repo to known-findings.json (run by hand, never by a check)."""
import json, subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("path-scoped", "C24"), ("Hyper-LTL", "C24"), ("transport arcs", "C26"), ("synthesis", "C22"), ("control queries", "C22"), ("safety controller", "C22"), ("given to the controller", "C22"), ("enable the environment", "C22"), ("printed strategies", "C22"), ("&& is accepted", "C14"), ("global properties", "C15"), ("shared constant", "C21"), ("empty sums", "C20"), ("0 <= p", "C20"), ("guided by solved", "C04"), ("<place-bound>", "C20"), ("negative limits were merged", "C20"), ("taken for symmetric", "C11"), ("TAR", "C10"), ("place-less", "C07"), ("traces", "C07"), ("net without places", "C07"), ("explicit engine", "C12"), ("written coloured", "C12"), ("colour-ignorant", "C12"), ("coloured reductions", "C13"), ("coloured pre-agg", "C13"), ("coloured relevance", "C13"), ("position that became diagonal", "C11"), ("rule S", "C06"), ("NEXT when the user", "C06"), ("rule E (user", "C06"), ("deadlock propositions", "C04"), ("rule H", "C03"),
       ("classic LTL stubborn sets aborted", "C04"), ("rule C", "C06"), ("upper bounds as integers", "C05"), ("potency init", "C01"),
       ("colour guards", "C11"), ("cycle proviso", "C04"), ("automaton-guided", "C04"), ("shallow", "C01"), ("products over", "C01"), ("nets without places", "C01"),
       ("over product", "C11"), ("<all>", "C11"), ("unfold", "C11"), ("odifiers", "C11"), ("colour", "C11"), ("color", "C11"), ("constants", "C11"), ("ariables", "C11"), ("guards", "C11"),
       ("preemptive", "C11"), ("LP combinations", "C01")]
p = os.path.join(ROOT, "known-findings.json")
old = json.load(open(p))["findings"]
out = [f for f in old if f.get("status") != "fixed"]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
for l in log.split("\n"):
    h, _, s = l.partition(" ")
    if not s.startswith("fix: "):
        continue
    prop = next((c for k, c in MAP if k in s), None) or next((f["property"] for f in old if f.get("commit") == h), "C01")
    out.append(dict(status="fixed", property=prop, commit=h, what=s[5:], line="fixed: property=%s %s %s" % (prop, h, s[5:])))
json.dump(dict(findings=out), open(p, "w"), indent=1)
open(p, "a").write("\n")
