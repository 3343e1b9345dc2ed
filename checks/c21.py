"""Queries asked together are answered as if asked alone: batches of related, equal and complementary queries."""
import os
from vp import net as N, query as Q, cpn, diff, runner
from . import c01

LEVEL = "model_checking"


def relate(rnd, f, kind):
    r = rnd.random()
    if r < 0.35:
        if kind == "ltl":
            return Q.Un("A" if f["o"] == "E" else "E", Q.Not(f["a"][0]))
        return Q.Not(f)
    if r < 0.5:
        return f
    if kind != "ltl" and f["o"] in ("EF", "AG"):
        g = f["a"][0]
        if r < 0.7:
            return Q.Un("AG" if f["o"] == "EF" else "EF", Q.Not(g))
        if r < 0.85:
            return Q.Un("AG" if f["o"] == "EF" else "EF", g)
        return Q.Un(f["o"], Q.Not(g))
    if kind == "ltl":
        return Q.Un(f["o"], Q.Un(rnd.choice("XFG"), f["a"][0]))
    return Q.Un(rnd.choice(["EF", "AG", "AF", "EG", "EX", "AX"]), f)


def make(rnd, k):
    n = cpn.gen_cpn(rnd, cap=50) if k % 5 == 4 else N.gen_any(rnd, cap=80, big=False)
    if n is None:
        return None
    kind = rnd.choice(["ctl", "reach", "reach", "mixed", "mixed", "ltl", "bounds"])
    if kind == "bounds":
        fs = [[p + 1 for p in rnd.sample(range(n.np), rnd.randint(1, n.np))] for _ in range(4)]
        fs += [[p + 1] for p in range(min(n.np, 3))]
        fs.append(list(range(1, n.np + 1)))
        return diff.Item(n, fs, kind)
    fs = []
    for _ in range(rnd.randint(3, 5)):
        if kind == "ltl":
            f = Q.Un(rnd.choice("AE"), Q.gen_ltl_body(rnd, n, depth=rnd.choice([1, 2, 3])))
        elif kind == "ctl" or kind == "mixed" and rnd.random() < 0.4:
            f = Q.gen_ctl(rnd, n)
        else:
            f = Q.gen_reach(rnd, n)
            if rnd.random() < 0.25:
                f = Q.Un(rnd.choice(["EF", "AG"]), rnd.choice([Q.Dead(), Q.Not(Q.Dead()), Q.T(), Q.F()]))
        fs.append(f)
    for _ in range(rnd.randint(3, 5)):
        fs.append(relate(rnd, rnd.choice(fs), kind))
    rnd.shuffle(fs)
    return diff.Item(n, fs, "ltl" if kind == "ltl" else "ctl")


def config(rnd, it):
    if it.kind == "ltl":
        a = ["-ltl"] + rnd.choice([[], ["ndfs"], ["tarjan"]])
    elif it.kind == "bounds":
        a = []
    else:
        a = c01.strat(rnd) if rnd.random() < 0.6 else []
    r = rnd.random()
    if r < 0.45:
        a += ["-r", "0"]
    if rnd.random() < 0.5:
        a += ["-q", "0"]
    if rnd.random() < 0.3:
        a += ["-p"]
    if rnd.random() < 0.15 and it.kind == "ctl":
        a += ["--noreach"]
    if rnd.random() < 0.3:
        a += ["-n"]
    return a


def check(c):
    c.rules.append("random nets and coloured nets with batches of up to 10 related queries (equal, negated, dual, nested; reachability, CTL, LTL, bounds mixed) "
                   "asked together in various subsets; non-trivial: more than one reachable marking")

    def go(k):
        rnd = c.sub("b", k)
        it = make(rnd, k)
        if it is None:
            return None
        every = list(range(len(it.fs)))
        jobs = [(every, config(rnd, it), {}) for _ in range(3)]
        jobs += [(sorted(rnd.sample(every, rnd.randint(2, len(every)))), config(rnd, it), {}) for _ in range(3)]
        diff.ask(c, it, jobs)
        return it
    items = runner.pmap(go, range(c.n(int(os.environ.get("N21", "500")))))
    diff.judge(c, items)
