"""Answers on coloured nets are the answers of the coloured token game (unfolding)."""
from vp import cpn, query as Q, diff

LEVEL = "model_checking"
KINDS = ["ctl", "ctl", "ctl", "ltl", "bounds"]


def config(rnd):
    a = ["-n"]
    for o in ("--disable-cfp", "--disable-partitioning", "--disable-symmetry-vars"):
        if rnd.random() < 0.35:
            a.append(o)
    r = rnd.random()
    if r < 0.3:
        a += ["-R", "0"]
    if rnd.random() < 0.25:
        a += ["--max-intervals", str(rnd.choice([1, 2, 3, 5])), str(rnd.choice([1, 2]))]
    if rnd.random() < 0.5:
        a += ["-r", "0"]
    if rnd.random() < 0.5:
        a += ["-q", "0"]
    if rnd.random() < 0.5:
        a += ["-p"]
    if rnd.random() < 0.4:
        a += ["-s", rnd.choice(["DFS", "DFS", "BestFS"])]
    return a, {}


def make(rnd, kind=None):
    n = cpn.gen_cpn(rnd, cap=90, summed=float(__import__("os").environ.get("SUMMED","0.2")))
    if n is None:
        return None
    kind = kind or rnd.choice(KINDS)
    if kind == "ctl":
        fs = [Q.gen_reach(rnd, n) for _ in range(3)] + [Q.gen_ctl(rnd, n)]
    elif kind == "ltl":
        fs = [dict(o=rnd.choice("AE"), a=[Q.gen_ltl_body(rnd, n, depth=2)]) for _ in range(3)]
    else:
        fs = [[p + 1 for p in rnd.sample(range(n.np), rnd.randint(1, n.np))] for _ in range(3)]
    return diff.Item(n, fs, kind)


def check(c):
    c.rules.append("random coloured nets (enumerations, integer ranges, dot, products, guards, arc expressions with all/add/subtract/"
                   "scalar/successor/predecessor/tuples, inhibitor arcs); non-trivial: more than one reachable marking")

    def conf(rnd):
        return config(rnd)
    n = c.n(int(__import__("os").environ.get("N11","900")))
    diff.campaign(c, make, [conf], n, per_query=2, baseline=[(["-n"], {}), (["-n", "-R", "0", "-r", "0", "-q", "0", "-p", "--disable-cfp", "--disable-partitioning", "--disable-symmetry-vars"], {})],
                  tweak=lambda it, a: a + (["-ltl"] if it.kind == "ltl" else ["-l", "1"] if it.kind == "bounds" else []))
