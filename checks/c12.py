"""The explicit coloured engine (-C) gives the answers of the coloured token game."""
from vp import cpn, query as Q, diff

LEVEL = "model_checking"


def small_const_in_guard(it):
    """The engine refuses (CANNOT_COMPUTE) guards that mention the dot constant."""
    def walk(e):
        if isinstance(e, dict):
            return (e.get("o") == "con" and it.net.types[e["t"] - 1].get("n") == 1) or any(walk(x) for x in e.values())
        return isinstance(e, list) and any(walk(x) for x in e)
    return any(walk(t["g"]) for t in it.net.json()["trans"])


OPT = dict(refuse=small_const_in_guard)


def config(rnd):
    a = ["-n", "-C"]
    if rnd.random() < 0.6:
        a += ["-s", rnd.choice(["BFS", "DFS", "RDFS", "BestFS"])]
    if rnd.random() < 0.5:
        a += ["--colored-successor-generator", rnd.choice(["fixed", "even"])]
    if rnd.random() < 0.4:
        a += ["-R", "0"]
    a += ["-q", rnd.choice(["0", "1", "1"])]
    if rnd.random() < 0.3:
        a += ["--seed-offset", str(rnd.randint(0, 99))]
    return a, OPT


def simple(rnd, n, depth=2):
    """What the explicit engine accepts: comparisons of places and constants, fireability, deadlock, and/or/not."""
    r = rnd.random()
    if depth == 0 or r < 0.4:
        r = rnd.random()
        if r < 0.3 and n.nt:
            return Q.Fireable([rnd.randrange(n.nt) + 1])
        if r < 0.38:
            return Q.Dead()
        p = rnd.randrange(n.np)
        a = Q.P(p + 1)
        b = Q.C(max(0, rnd.choice(Q.markings(n))[p] + rnd.choice([0, 0, 1, -1]))) if rnd.random() < 0.75 else Q.P(rnd.randrange(n.np) + 1)
        if rnd.random() < 0.3:
            a, b = b, a
        return Q.Cmp(rnd.choice(["<=", "<=", "<", ">=", ">=", ">", "=", "!="]), a, b)
    if r < 0.55:
        return Q.Not(simple(rnd, n, depth - 1))
    k = [simple(rnd, n, depth - 1) for _ in range(rnd.choice([2, 2, 3]))]
    return Q.And(*k) if r < 0.8 else Q.Or(*k)


def make(rnd):
    n = cpn.gen_cpn(rnd, cap=90)
    if n is None:
        return None
    return diff.Item(n, [Q.Un(rnd.choice(["EF", "AG"]), simple(rnd, n, rnd.choice([0, 1, 2, 2]))) for _ in range(4)], "ctl")


def check(c):
    c.rules.append("random coloured nets (enumerations, integer ranges, dot, products, guards, arc expressions, inhibitor arcs) explored by the "
                   "explicit coloured engine; non-trivial: more than one reachable marking")
    n = c.n(int(__import__("os").environ.get("N12", "900")))
    diff.campaign(c, make, [config], n, per_query=2, baseline=[(["-n", "-C", "-q", "1"], OPT), (["-n", "-C", "-R", "0", "-q", "0"], OPT)])
