"""With a token bound (-k) verifypn explores exactly the markings reached within the bound."""
from vp import net as N, query as Q, diff, runner

LEVEL = "model_checking"


class KItem(diff.Item):
    def case(self):
        d = super().case()
        d["k"] = self.k
        return d


def knet(rnd, cap):
    """nets that need not be bounded, with a bound that mostly cuts something off"""
    while True:
        n = N.raw_net(rnd, tokmax=rnd.choice([2, 3, 5]))
        k = max(1, sum(n.m0) + rnd.choice([0, 1, 1, 2, 3, 4, 6, 9]))
        R = n.explore_k(k, cap)
        if R is None or len(R) < 3 or (not n.cut and rnd.random() < 0.8):
            continue
        n.R = R
        return n, k


def config(k):
    def f(rnd):
        a = ["-n", "-k", str(k), "-p", "-q", "0", "-r", "0", "-s", rnd.choice(["BFS", "DFS", "RDFS", "RPFS", "BestFS"])]
        if rnd.random() < 0.3:
            a += ["--seed-offset", str(rnd.randint(0, 9))]
        return a
    return f


def check(c):
    c.rules.append("random nets, mostly unbounded or exceeding the bound; EF/AG queries and place bounds under -k; non-trivial: the bound cuts off a reachable marking")

    def go(j):
        rnd = c.sub("k", j)
        n, k = knet(rnd, 90)
        kind = "bounds" if j % 4 == 3 else "ctl"
        if kind == "bounds":
            fs = [[p + 1 for p in rnd.sample(range(n.np), rnd.randint(1, min(3, n.np)))] for _ in range(3)]
        else:
            fs = [Q.gen_reach(rnd, n) for _ in range(4)]
        it = KItem(n, fs, kind)
        it.k = k
        cf = config(k)
        diff.ask(c, it, [([i], cf(rnd), {}) for i in range(len(fs)) for _ in range(3)])
        if n.cut:
            c.count("bound_cuts")
        return it
    diff.judge(c, runner.pmap(go, range(c.n(400))))
