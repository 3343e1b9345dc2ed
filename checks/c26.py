"""A net means the same however it is written in PNML."""
import re
from vp import net as N, query as Q, cpn, diff, runner, tlc, writing as W

LEVEL = "model_checking"


class WItem(diff.Item):
    def xmls(self):
        if hasattr(self.net, "types"):
            return super().xmls()
        # names may need escaping
        raw_p, raw_t = self.net.pnames, self.net.tnames
        self.net.pnames, self.net.tnames = [W.esc(x) for x in raw_p], [W.esc(x) for x in raw_t]
        try:
            return super().xmls()
        finally:
            self.net.pnames, self.net.tnames = raw_p, raw_t


def check(c):
    c.rules.append("random nets and coloured nets, each written in several ways (order and nesting of nodes, ways of giving weights and markings, kinds of arcs, split arcs, "
                   "annotations, odd names); non-trivial: more than one reachable marking")
    spaces = []

    def go(k):
        rnd = c.sub("w", k)
        col = k % 3 == 2
        n = cpn.gen_cpn(rnd, cap=60) if col else N.gen_any(rnd, cap=90)
        if n is None:
            return None
        if not col:
            W.odd_names(rnd, n)
        fs = [Q.gen_ctl(rnd, n) if rnd.random() < 0.5 else Q.gen_reach(rnd, n) for _ in range(3)]
        it = WItem(n, fs, "ctl")
        it.space = []
        for v in range(3):
            it.pnml = W.rewrite_coloured(rnd, n.pnml()) if col else W.write(rnd, n)
            diff.ask(c, it, [(list(range(len(fs))), ["-n"] + rnd.choice([[], ["-r", "0", "-q", "0"]]), {})])
            a = ["-e"] + (["-R", "0", "--disable-cfp", "--disable-partitioning", "--disable-symmetry-vars"] if col else [])
            o = diff.run_confirm([it.p] + a)
            c.count("runs")
            m = re.search(r"^STATE_SPACE STATES (\d+) ", o.out, re.M)
            if o.crashed() or o.rc or not m:
                c.fail("state-space exploration of a net written differently: status %s %s" % (o.rc, o.err[-200:]), dict(pnml=it.pnml, argv=a, net=n.json()))
            else:
                it.space.append((it.pnml, a, int(m.group(1))))
        return it
    items = [x for x in runner.pmap(go, range(c.n(330))) if x is not None]
    res = diff.judge(c, items)
    for it, r in zip(items, res):
        if hasattr(it.net, "types"):
            continue
        for pnml, a, v in it.space:
            if v != r["n"]:
                c.fail("%d reachable markings reported, the specification says %d; net %s" % (v, r["n"], it.net.json()), dict(pnml=pnml, argv=a, expected=r["n"], net=it.net.json()))
