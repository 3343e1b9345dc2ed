"""CTL verdicts agree with the specification."""
from vp import net as N, query as Q, diff

LEVEL = "model_checking"


def config(rnd):
    a = ["-n"]
    r = rnd.random()
    if r < 0.4:
        a += ["-ctl", "local"]
    elif r < 0.7:
        a += ["-ctl", "czero"]
    r = rnd.random()
    if r < 0.3:
        a += ["-s", rnd.choice(["DFS", "BFS", "BestFS", "RDFS"])]
    r = rnd.random()
    if r < 0.45:
        a += ["-r", "0"]
    elif r < 0.6:
        a += ["-r", "2"]
    if rnd.random() < 0.55:
        a += ["-q", "0"]
    if rnd.random() < 0.3:
        a += ["-p"]
    if rnd.random() < 0.3:
        a += ["--noreach"]
    return a, {}


def make(rnd):
    n = N.gen_any(rnd, cap=70)
    fs = []
    for _ in range(5):
        f = Q.gen_ctl(rnd, n, depth=rnd.choice([2, 3, 3, 4]))
        if not Q.is_temporal(f):
            f = Q.Un(rnd.choice(["EF", "AF", "EG", "AG", "EX", "AX"]), f)
        fs.append(f)
    return diff.Item(n, fs, "ctl")


def check(c):
    c.rules.append("random bounded nets with random nested CTL formulas (EX AX EF AF EG AG EU AU, boolean structure); non-trivial: more than one reachable marking")
    diff.campaign(c, make, [config], c.n(330), per_query=3,
                  baseline=[(["-n"], {}), (["-n", "-r", "0", "-q", "0"], {})])
