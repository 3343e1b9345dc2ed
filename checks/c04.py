"""LTL verdicts agree with the specification."""
from vp import net as N, query as Q, diff

LEVEL = "model_checking"


def has_x(it, i):
    return Q.has(it.fs[i], ("X",))


def config(rnd):
    a = ["-n"]
    a += ["-ltl"] + rnd.choice([[], ["tarjan"], ["ndfs"]])
    o = {}
    r = rnd.random()
    if r < 0.2:
        a += ["-p"]
    elif r < 0.4:
        a += ["--ltl-por", "liebke"]
    elif r < 0.6:
        a += ["--ltl-por", "automaton"]
    elif r < 0.8:
        a += ["--ltl-por", "classic"]
    elif r < 0.85:
        a += ["--ltl-por", "none"]
    r = rnd.random()
    if r < 0.45:
        a += ["-r", "0"]
    elif r < 0.6:
        a += ["-r", "2"]
    if rnd.random() < 0.5:
        a += ["-q", "0"]
    if rnd.random() < 0.25:
        a += ["--noweak"]
    if rnd.random() < 0.25:
        a += ["--compress-aps"]
    if rnd.random() < 0.3:
        a += ["--ltl-heur", rnd.choice(["dist", "aut", "fire-count"])]
    if rnd.random() < 0.4:
        a += ["-s", rnd.choice(["DFS", "BestFS", "RDFS"])]
    if rnd.random() < 0.2:
        a += ["--spot-optimization", rnd.choice("123")]
    if rnd.random() < 0.2:
        a += ["--noreach"]
    return a, o


def make(rnd):
    # partial order reduction for LTL is switched off by inhibitor arcs: mostly without
    n = N.gen_any(rnd, cap=45, inh=rnd.random() < 0.25)
    fs = []
    for _ in range(5):
        f = Q.gen_ltl_body(rnd, n, dead=rnd.random() < 0.5)
        if not Q.is_temporal(f):
            f = Q.Un(rnd.choice("FG"), f)
        fs.append(Q.Un("A" if rnd.random() < 0.6 else "E", f))
    return diff.Item(n, fs, "ltl")


def check(c):
    c.rules.append("random bounded nets with random LTL formulas (X F G U nested, boolean structure, A or E); non-trivial: more than one reachable marking")
    diff.campaign(c, make, [config], c.n(380), per_query=5,
                  baseline=[(["-n", "-ltl"], {}), (["-n", "-ltl", "-p", "-r", "0", "-q", "0"], {})])
