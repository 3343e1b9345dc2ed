"""Trace abstraction refinement (-tar) answers as the token game."""
from vp import net as N, query as Q, diff

LEVEL = "model_checking"
OPT = dict(limit=1.5, refusal="Unsupported query type for TAR")


def config(rnd):
    a = ["-n", "-tar"]
    r = rnd.random()
    if r < 0.6:
        a += ["-r", "0"]
    elif r < 0.75:
        a += ["-r", "2"]
    if rnd.random() < 0.75:
        a += ["-q", "0"]
    if rnd.random() < 0.3:
        a += ["-p"]
    if rnd.random() < 0.2:
        a += ["-t"]
    return a, OPT


def make(rnd):
    while True:
        n = N.gen_any(rnd, cap=rnd.choice([12, 30]), inh=False, big=rnd.random() < 0.1)
        if not any(n.json()["inh"]):
            break
    return diff.Item(n, [Q.gen_reach(rnd, n) for _ in range(2)], "ctl")


def check(c):
    c.rules.append("random bounded nets without inhibitor arcs (the engine refuses them) with EF/AG queries, decided by trace abstraction refinement; "
                   "runs over 1.5 s are not counted; non-trivial: more than one reachable marking")
    diff.campaign(c, make, [config], c.n(int(__import__("os").environ.get("N10", "600"))), per_query=1,
                  baseline=[(["-n", "-tar", "-r", "0", "-q", "0"], OPT)])
