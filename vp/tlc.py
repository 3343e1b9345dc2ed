"""Batch judging of cases by TLC."""
import json, os, subprocess, re, threading
from . import build, runner

JAR = "/opt/veriftools/tla/tla2tools.jar"
SPEC = os.path.join(build.VERIF, "spec")


class TLCError(Exception):
    pass


def find_cp():
    cp = [JAR]
    d = os.path.dirname(JAR)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and os.path.join(d, f) != JAR:
            cp.append(os.path.join(d, f))
    return ":".join(cp)


def run_one(cases, scratch, module="Conform", timeout=600, cfg=None, heap="3g"):
    f = scratch.file(".cases.json")
    with open(f, "w") as o:
        json.dump(cases, o)
    meta = scratch.file(".meta")
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", find_cp(), "tlc2.TLC",
           "-workers", "1", "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module) + ".cfg", module + ".tla"]
    env = dict(os.environ, VP_CASES=f)
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=env, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TLCError("TLC timed out")
    out = r.stdout.decode("utf8", "replace")
    res = {}
    for line in out.split("\n"):
        line = line.strip()
        if line.startswith('"@J'):
            s = json.loads(line)       # TLC prints a quoted, escaped string
            d = json.loads(s[2:])
            res[d["case"]] = d["r"]
    if len(res) != len(cases) or "No error has been found" not in out:
        raise TLCError("TLC judged %d of %d cases\n%s\n%s" % (len(res), len(cases), out[-3000:], r.stderr.decode()[-1000:]))
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    return [res[i + 1] for i in range(len(cases))]


def judge(cases, scratch, shards=None, weight=None, **kw):
    """Judge all cases, sharded over several TLC processes; results in order."""
    if not cases:
        return []
    shards = min(shards or 6, len(cases))
    w = weight or (lambda c: 1)
    order = sorted(range(len(cases)), key=lambda i: -w(cases[i]))
    groups = [[] for _ in range(shards)]
    for k, i in enumerate(order):
        groups[k % shards].append(i)
    res = [None] * len(cases)

    def go(g):
        rs = run_one([cases[i] for i in g], scratch, **kw)
        for i, r in zip(g, rs):
            res[i] = r
    runner.pmap(go, groups, workers=shards)
    return res
