"""State-space exploration (-e) reports the exact size and bounds of the marking graph."""
import re, json
from vp import net as N, cpn, diff, runner, tlc

LEVEL = "model_checking"


def config(rnd):
    a = ["-e"]
    if rnd.random() < 0.7:
        a += ["-s", rnd.choice(["DFS", "BFS", "RDFS", "RPFS"])]
    if rnd.random() < 0.3:
        a += ["--seed-offset", str(rnd.randint(0, 99))]
    if rnd.random() < 0.3:
        a += rnd.choice([["-p"], ["-r", "1"], ["-r", "2"], ["-q", "5"], ["-d", "3"], ["-a", "5"]])
    if rnd.random() < 0.15:
        a += ["-t"]
    return a


def claims(out, n, full):
    """what the program printed, by the names of the specification; None when a line is missing"""
    d = {}
    for key, name in (("states", "STATES"), ("tokens", "MAX_TOKEN_PER_MARKING"), ("place", "MAX_TOKEN_IN_PLACE")):
        m = re.search(r"^STATE_SPACE %s (\d+) " % name, out, re.M)
        if not m:
            return None
        d[key] = int(m.group(1))
    if not full:
        return dict(states=d["states"])
    m = re.search(r"^TRANSITION STATISTICS\n(.*)$", out, re.M)
    t = dict((a, b) for a, b in re.findall(r"<([^:<>]*):(\d+)>", m.group(1))) if m else {}
    m = re.search(r"^PLACE-BOUND STATISTICS\n(.*)$", out, re.M)
    p = dict((a, b) for a, b in re.findall(r"<([^;<>]*);(\d+)>", m.group(1))) if m else {}
    if set(t) != set(n.tnames) or set(p) != set(n.pnames):
        return None
    d["enabled"] = [int(t[x]) for x in n.tnames]
    d["bound"] = [int(p[x]) for x in n.pnames]
    return d


def check(c):
    c.rules.append("random bounded nets (up to a few hundred markings, wide and narrow token counts) and small coloured nets; every reported number compared; "
                   "non-trivial: more than one reachable marking")
    items = []

    def go(k):
        rnd = c.sub("e", k)
        col = k % 6 == 5
        if col:
            n = cpn.gen_cpn(rnd, cap=90)
            if n is None:
                return None
        else:
            n = N.padded(rnd) if k % 30 == 4 else N.gen_any(rnd, cap=400)
        p = c.scratch.file(".pnml", n.pnml())
        obs = []
        for _ in range(2 if col else 4):
            a = config(rnd)
            if col:
                a += ["-R", "0", "--disable-cfp", "--disable-partitioning", "--disable-symmetry-vars"]
            o = diff.run_confirm([p] + a)
            c.count("runs")
            rep = dict(pnml=n.pnml(), argv=a, net=n.json())
            if o.crashed() or o.rc != 0:
                c.fail("state-space exploration %s: status %s %s" % (a, o.rc, o.err[-200:]), rep)
                continue
            d = claims(o.out, n, not col)
            if d is None:
                c.fail("state-space exploration %s reports incompletely: %s" % (a, o.out[-600:]), rep)
                continue
            obs.append((a, d))
        return n, obs
    items = [x for x in runner.pmap(go, range(c.n(900))) if x is not None]
    res = tlc.judge([{"kind": "space", "qs": [dict(obs=[d]) for _, d in obs], ("cpn" if hasattr(n, "types") else "net"): n.json()} for n, obs in items],
                    c.scratch)
    for (n, obs), r in zip(items, res):
        c.states += r["n"]
        c.traces += len(obs)
        c.transitions += getattr(n, "edges", 0)
        for a, d in obs:
            c.seen(n.json(), a, nontrivial=r["n"] > 1)
        for b in r["bad"]:
            a, d = obs[b - 1]
            c.fail("state-space exploration %s reports %s, the specification says %s; net %s" % (" ".join(a), d, r["exp"][b - 1], json.dumps(n.json())),
                   dict(pnml=n.pnml(), argv=a, net=n.json(), expected=r["exp"][b - 1]))
        if r["n"] > 3 and obs:
            c.add_sample(dict(states=r["n"], net=n.json(), argv=obs[0][0], reported=obs[0][1]))
