"""Reachability / safety verdicts agree with the specification under every option."""
from vp import net as N, query as Q, diff

LEVEL = "model_checking"


def strat(rnd):
    s = rnd.choice(["BFS", "DFS", "RDFS", "RPFS", "BestFS"])
    a = ["-s", s]
    if s in ("RDFS", "RPFS"):
        a += ["--seed-offset", str(rnd.randint(0, 9))]
    if s == "RPFS" and rnd.random() < 0.5:
        a += ["--init-potency-timeout", "0"]
    return a


def config(rnd):
    a = strat(rnd)
    if rnd.random() < 0.5:
        a += ["-p"]
    r = rnd.random()
    if r < 0.45:
        a += ["-r", "0"]
    elif r < 0.6:
        a += ["-r", "2"]
    if rnd.random() < 0.55:
        a += ["-q", "0"]
    if rnd.random() < 0.5:
        a += ["-n"]
    if rnd.random() < 0.1:
        a += ["-a", "10"]
    return a, {}


def walk(rnd):
    # random walks may miss, never lie: nets here are small, so they end
    return ["-s", "OverApprox", "-n"], dict(unknown=True)


def ctl_engine(rnd):
    return ["--noreach", "-n", "-r", "0"] + (["-q", "0"] if rnd.random() < 0.5 else []), {}


def make(rnd):
    n = N.gen_any(rnd, cap=110)
    return diff.Item(n, [Q.gen_reach(rnd, n) for _ in range(5)], "ctl")


def check(c):
    c.rules.append("random bounded nets (general, chain, fork/join, classical families, disjoint unions, token counts scaled up to 10^6) "
                   "with random EF/AG queries over arithmetic, fireability and deadlock; non-trivial: more than one reachable marking")
    diff.campaign(c, make, [config] * 8 + [walk, ctl_engine], c.n(420), per_query=4,
                  baseline=[(["-n"], {}), (["-n", "-r", "0", "-q", "0", "-p", "-s", "BFS"], {})])
