"""Coloured structural reductions preserve the answers."""
from vp import cpn, query as Q, diff
from checks import c12

LEVEL = "model_checking"
KINDS = ["ctl"] * 6 + ["ltl"] * 2 + ["bounds"]


def config(rnd):
    a = ["-n", "-r", "0", "-q", rnd.choice(["0", "0", "0", "2"])]
    if rnd.random() < 0.6:
        rules = list(range(7))
        rnd.shuffle(rules)
        a += ["-R", "2", ",".join(map(str, rules[:rnd.choice([1, 1, 2, 3, 7])]))]
    if rnd.random() < 0.6:
        a += ["-p"]
    if rnd.random() < 0.3:
        a += ["-s", rnd.choice(["DFS", "DFS", "BestFS"])]
    return a, {}


def make(rnd, kind=None):
    n = cpn.gen_cpn(rnd, cap=90, grown=0.85, maxp=4, maxt=3)
    if n is None:
        return None
    kind = kind or rnd.choice(KINDS)
    if kind == "ctl":
        fs = [Q.Un(rnd.choice(["EF", "AG"]), c12.simple(rnd, n, rnd.choice([0, 0, 1, 2]))) for _ in range(3)] + [Q.gen_ctl(rnd, n)]
    elif kind == "ltl":
        fs = [dict(o=rnd.choice("AE"), a=[Q.gen_ltl_body(rnd, n, depth=2)]) for _ in range(3)]
    else:
        fs = [[rnd.randrange(n.np) + 1] for _ in range(3)]
    return diff.Item(n, fs, kind)


def check(c):
    c.rules.append("random coloured nets with parts the coloured reductions look for (pass-through places, parallel places and transitions, loop "
                   "places, marked places with one consumer, unmarkable places); non-trivial: more than one reachable marking")
    n = c.n(int(__import__("os").environ.get("N13", "700")))
    diff.campaign(c, make, [config], n, per_query=2,
                  baseline=[(["-n", "-r", "0", "-q", "0", "-p"], {}), (["-n", "-R", "0", "-r", "0", "-q", "0", "-p"], {})],
                  tweak=lambda it, a: a + (["-ltl"] if it.kind == "ltl" else ["-l", "1"] if it.kind == "bounds" else []))
