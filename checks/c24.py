"""HyperLTL verdicts agree with the specification."""
import random
from vp import net as N, query as Q, diff

LEVEL = "model_checking"


class Copies:
    """k copies of a net, for generating formulas over k path variables."""

    def __init__(self, net, k, rnd):
        self.np, self.nt = net.np * k, net.nt * k
        R = Q.markings(net)
        self.Rlist = [sum((tuple(rnd.choice(R)) for _ in range(k)), ()) for _ in range(40)]


def refs(f, n):
    """the path variables (0-based) an expression or predicate speaks about"""
    if "p" in f and f["o"] == "p":
        return {(f["p"] - 1) // n.np}
    if f["o"] == "fire":
        return {(t - 1) // n.nt for t in f["t"]}
    if f["o"] == "deadp":
        return {f["j"]}
    s = set()
    for x in list(f.get("a", [])) + [f[k] for k in ("l", "r") if k in f]:
        s |= refs(x, n)
    return s


def strip(f, n):
    """the formula as the single-path formula it is inside a scope"""
    g = dict(f)
    if f["o"] == "p":
        g["p"] = (f["p"] - 1) % n.np + 1
    elif f["o"] == "fire":
        g["t"] = [(t - 1) % n.nt + 1 for t in f["t"]]
    elif f["o"] == "deadp":
        g = Q.Dead()
    for k in ("l", "r"):
        if k in f:
            g[k] = strip(f[k], n)
    if "a" in f:
        g["a"] = [strip(x, n) for x in f["a"]]
    return g


def spec(f, n):
    """a deadlock of path j is: no transition of copy j is enabled"""
    if f["o"] == "deadp":
        return Q.Not(Q.Fireable(range(f["j"] * n.nt + 1, (f["j"] + 1) * n.nt + 1))) if n.nt else Q.T()
    g = dict(f)
    if "a" in f and f["o"] not in ("+", "-", "*"):
        g["a"] = [spec(x, n) for x in f["a"]]
    return g


NAMES = "ab", "T1", "xy"


def scope(j, x):
    return '<path-scope name="%s">%s</path-scope>' % (NAMES[j], x)


def expr(e, n, rnd):
    r = refs(e, n)
    if not r:
        return Q.expr_xml(e, n)
    if len(r) == 1 and (e["o"] == "p" or rnd.random() < 0.5):
        return scope(r.pop(), Q.expr_xml(strip(e, n), n))
    tag = {"+": "integer-sum", "*": "integer-product", "-": "integer-difference"}[e["o"]]
    return "<%s>%s</%s>" % (tag, "".join(expr(x, n, rnd) for x in e["a"]), tag)


def xml(f, n, rnd):
    r = refs(f, n)
    if len(r) == 1 and rnd.random() < (0.5 if f["o"] in Q.CMP else 0.9 if f["o"] in ("fire", "deadp") else 0.25):
        return scope(r.pop(), Q.xml(strip(f, n), n))
    o = f["o"]
    if o in Q.CMP:
        return "<%s>%s%s</%s>" % (Q.CMP[o], expr(f["l"], n, rnd), expr(f["r"], n, rnd), Q.CMP[o])
    if o == "deadp":
        return scope(f["j"], "<deadlock/>")
    if o == "fire":
        k = [scope((t - 1) // n.nt, Q.xml(Q.Fireable([(t - 1) % n.nt + 1]), n)) for t in f["t"]]
        return k[0] if len(k) == 1 else "<disjunction>%s</disjunction>" % "".join(k)
    k = [xml(x, n, rnd) for x in f.get("a", [])]
    tags = dict(Q_BOOL)
    if o in tags:
        return "<%s>%s</%s>" % (tags[o], "".join(k), tags[o])
    if o == "U":
        return "<until><before>%s</before><reach>%s</reach></until>" % (k[0], k[1])
    return Q.xml(f, n)


Q_BOOL = {"not": "negation", "and": "conjunction", "or": "disjunction", "xor": "exclusive-disjunction", "imp": "implication",
          "iff": "equivalence", "X": "next", "F": "finally", "G": "globally"}


def deads(f, rnd, k):
    """deadlock atoms get a path"""
    if f["o"] == "dead":
        return dict(o="deadp", j=rnd.randrange(k))
    g = dict(f)
    if "a" in f and f["o"] not in ("+", "-", "*"):
        g["a"] = [deads(x, rnd, k) for x in f["a"]]
    return g


class HyperItem(diff.Item):
    def __init__(self, net, fs, k, seed):
        super().__init__(net, fs, "hyper")
        self.k, self.seed = k, seed

    def xmls(self):
        rnd = random.Random(self.seed)
        out = []
        for f in self.fs:
            x = xml(f["a"][0], self.net, rnd)
            for j in reversed(range(self.k)):
                tag = "all-paths" if f["o"] == "A" else "exists-path"
                x = '<%s name="%s">%s</%s>' % (tag, NAMES[j], x, tag)
            out.append(x)
        return out

    def show(self, i):
        return "%d paths: %s" % (self.k, Q.show(spec(self.fs[i], self.net)))

    def case(self):
        return dict(kind="hyper", paths=self.k, net=self.net.json(),
                    qs=[dict(f=Q.number_temporal(spec(f, self.net)), obs=[bool(v) for v in sorted(set(v for _, v in self.obs[i]))])
                        for i, f in enumerate(self.fs)])


def make(rnd):
    k = rnd.choice([2, 2, 2, 2, 3, 1])
    n = N.gen_any(rnd, cap={1: 20, 2: 12, 3: 5}[k], inh=rnd.random() < 0.3)
    cs = Copies(n, k, rnd)
    fs = []
    for _ in range(4):
        f = deads(Q.gen_ltl_body(rnd, cs, budget=[rnd.choice([1, 2, 2, 3 if k < 2 else 2])]), rnd, k)
        if not Q.is_temporal(f):
            f = Q.Un(rnd.choice("FG"), f)
        if k > 1 and rnd.random() < 0.5:     # the typical relation between paths
            e = rnd.randrange(n.np) + 1
            j = rnd.randrange(1, k)
            g = Q.Cmp(rnd.choice(["=", "=", "<=", ">=", "!="]), Q.P(e), Q.P(j * n.np + e))
            f = rnd.choice([Q.Un("G", g), Q.Un("F", Q.Not(g)), Q.And(Q.Un("G", g), f), Q.Or(f, Q.Un("G", g)), Q.Bin("U", g, f)])
        fs.append(Q.Un(rnd.choice("AE"), f))
    return HyperItem(n, fs, k, rnd.random())


def config(rnd):
    a = ["-n", "-ltl", "ndfs", "-p", "-s", "DFS"]
    r = rnd.random()
    if r < 0.3:
        a += ["-r", "0"]
    if rnd.random() < 0.5:
        a += ["-q", "0"]
    if rnd.random() < 0.25:
        a += ["--noweak"]
    if rnd.random() < 0.25:
        a += ["--compress-aps"]
    if rnd.random() < 0.2:
        a += ["--spot-optimization", rnd.choice("123")]
    return a, {}


def check(c):
    c.rules.append("random bounded nets with random HyperLTL formulas over 1 to 3 path variables (all universal or all existential), atoms scoped to paths; non-trivial: more than one reachable tuple")
    diff.campaign(c, make, [config], c.n(300), per_query=3,
                  baseline=[(["-n", "-ltl", "ndfs", "-p", "-s", "DFS", "-r", "0", "-q", "0"], {})])
