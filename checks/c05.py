"""Upper-bounds answers are the exact maxima."""
from vp import net as N, query as Q, diff

LEVEL = "model_checking"


def config(rnd):
    a = ["-n", "-l", "1"]
    r = rnd.random()
    if r < 0.4:
        a += ["-s", rnd.choice(["DFS", "BFS", "BestFS", "RDFS", "RPFS"])]
    r = rnd.random()
    if r < 0.45:
        a += ["-r", "0"]
    elif r < 0.6:
        a += ["-r", "2"]
    if rnd.random() < 0.55:
        a += ["-q", "0"]
    if rnd.random() < 0.4:
        a += ["-p"]
    return a, {}


def make(rnd):
    n = N.gen_any(rnd, cap=150)
    fs = []
    for _ in range(5):
        k = rnd.choice([1, 1, 2, 2, 3, n.np])
        ps = [p + 1 for p in rnd.sample(range(n.np), min(k, n.np))]
        fs.append(ps)
    return diff.Item(n, fs, "bounds")


def check(c):
    c.rules.append("random bounded nets with place-bound queries over 1..all places; non-trivial: more than one reachable marking")
    diff.campaign(c, make, [config], c.n(500), per_query=3,
                  baseline=[(["-n", "-l", "1"], {}), (["-n", "-r", "0", "-q", "0", "-p"], {})])
