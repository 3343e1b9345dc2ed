"""A query means the same however it is written: XML alternatives, text, binary.  (And, for C15, global properties.)"""
import os
from vp import net as N, query as Q, cpn, diff, runner, surface as S

LEVEL = "model_checking"


class Item(diff.Item):
    def xmls(self):
        return self.raw


def globals_(rnd, n):
    r = rnd.random()
    if r < 0.3:
        k = rnd.randint(0, 4)
        return Q.Un("AG", Q.And(*[Q.Cmp("<=", Q.P(p + 1), Q.C(k)) for p in range(n.np)])), "<k-safe><integer-constant>%d</integer-constant></k-safe>" % k
    if r < 0.5:
        return Q.And(*[Q.Un("EF", Q.Fireable([t + 1])) for t in range(n.nt)]), "<quasi-liveness/>"
    if r < 0.75:
        m0 = n.m0 if not hasattr(n, "types") else None
        if m0 is None:
            m0 = n.counts0()
        return Q.Or(*[Q.Un("AG", Q.Cmp("=", Q.P(p + 1), Q.C(m0[p]))) for p in range(n.np)]), "<stable-marking/>"
    return Q.And(*[Q.Un("AG", Q.Un("EF", Q.Fireable([t + 1]))) for t in range(n.nt)]), "<liveness/>"


def make(rnd, k, glob):
    col = k % 4 == 3
    n = cpn.gen_cpn(rnd, cap=60) if col else N.gen_any(rnd, cap=80, big=False)
    if n is None:
        return None
    kind = "global" if glob else rnd.choice(["ctl", "ctl", "reach", "ltl"])
    fs, raw = [], []
    for _ in range(4):
        if kind == "global":
            f, x = globals_(rnd, n)
        else:
            f = Q.gen_reach(rnd, n) if kind == "reach" else Q.gen_ctl(rnd, n) if kind == "ctl" else Q.Un(rnd.choice("AE"), Q.gen_ltl_body(rnd, n))
            x = S.xml(rnd, f, n, kind == "ltl")
        fs.append(f)
        raw.append(x)
    it = Item(n, fs, "ltl" if kind == "ltl" else "ctl")
    it.raw = raw
    it.sub = kind
    return it


def config(rnd, it):
    a = ["-ltl"] if it.kind == "ltl" else []
    r = rnd.random()
    if r < 0.5:
        a += ["-n", "-r", "0", "-q", "0"]
    elif r < 0.7:
        a += ["-n"]
    return a


def check(c, glob=False):
    c.rules.append("random nets and coloured nets with the global properties; non-trivial: more than one reachable marking" if glob else
                   "random nets and coloured nets with random queries, each written as XML in one of many equivalent ways, as text and in the "
                   "binary format; non-trivial: more than one reachable marking")

    def go(k):
        rnd = c.sub("s", k)
        it = make(rnd, k, glob)
        if it is None:
            return None
        diff.ask(c, it, [([i], config(rnd, it), {}) for i in range(len(it.fs))] + [(list(range(len(it.fs))), config(rnd, it), {})])
        if it.sub != "global":
            for i, f in enumerate(it.fs):
                t = S.text(rnd, f, it.net)
                q = c.scratch.file(".q", t)
                a = config(rnd, it)
                o = diff.run_confirm([it.p, q] + a)
                c.count("text_runs")
                got = [x for v in runner.formulas(o.out).values() for x in v if x in ("TRUE", "FALSE")]
                if o.crashed() or len(got) != 1:
                    c.fail("text query %r with %s is not answered: status %s %s %s" % (t, " ".join(a), o.rc, o.out[-200:], o.err[-200:]), dict(diff.replay_of(it, a), text=t))
                else:
                    it.obs[i].append((["(text %r)" % t] + a, int(got[0] == "TRUE")))
        # through the binary format
        b = c.scratch.file(".bin")
        a = (["-ltl"] if it.kind == "ltl" else [])
        al = ",".join(str(i + 1) for i in range(len(it.fs)))
        o = diff.run_confirm([it.p, it.q, "-x", al, "-n", "-r", "0", "-q", "0", "--noverify", "--write-simplified", b, "--binary-query-io", "2"] + a)
        if not hasattr(it.net, "types"):
            o = diff.run_confirm([it.p, b, "-x", "1", "--binary-query-io", "1"] + config(rnd, it)) if count(b) else None
            if o is not None:
                got = runner.formulas(o.out)
                c.count("binary_runs")
                got = {n: [x for x in v if x in ("TRUE", "FALSE")] for n, v in got.items()}
                if o.crashed() or len(got) != 1 or len(list(got.values())[0]) != 1:
                    c.fail("binary query is not answered: status %s %s %s" % (o.rc, o.out[-200:], o.err[-200:]), diff.replay_of(it, a))
                else:
                    nme, v = list(got.items())[0]
                    it.obs[int(nme[1:]) - 1].append((["(binary)"] + a, int(v[0] == "TRUE")))
        return it
    items = runner.pmap(go, range(c.n(int(os.environ.get("N14", "400")))))
    diff.judge(c, items)


def count(b):
    try:
        return int.from_bytes(open(b, "rb").read(4), "little")
    except OSError:
        return 0
