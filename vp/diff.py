"""Asking the real program and comparing with the specification (judged by TLC)."""
import json
from . import net as N, query as Q, runner, tlc


class Item:
    """A net with its queries; .obs[i] collects (argv, answer) per query."""

    def __init__(self, net, fs, kind, pnml=None):
        self.net, self.fs, self.kind = net, fs, kind
        self.pnml = pnml
        self.obs = [[] for _ in fs]

    def xmls(self):
        if self.kind == "bounds":
            return [Q.bounds_xml(ps, self.net) for ps in self.fs]
        return [Q.xml(f, self.net) for f in self.fs]

    def files(self, sc):
        self.p = sc.file(".pnml", self.pnml or self.net.pnml())
        self.q = sc.file(".xml", Q.property_set([("q%d" % (i + 1), x) for i, x in enumerate(self.xmls())]))

    def show(self, i):
        return Q.show(self.fs[i]) if self.kind != "bounds" else "bounds(%s)" % self.fs[i]

    def case(self):
        qs = []
        for i, f in enumerate(self.fs):
            obs = sorted(set(v for _, v in self.obs[i]))
            if self.kind == "ctl":
                qs.append(dict(f=f, obs=[bool(x) for x in obs]))
            elif self.kind == "ltl":
                qs.append(dict(f=Q.number_temporal(f), obs=[bool(x) for x in obs]))
            else:
                qs.append(dict(ps=f, obs=obs))
        return {"kind": self.kind, "qs": qs, ("cpn" if hasattr(self.net, "types") else "net"): self.net.json()}

    def describe(self):
        return dict(net=self.net.json(), pnames=self.net.pnames, tnames=self.net.tnames)


def replay_of(it, argv, extra=None):
    d = dict(pnml=it.pnml or it.net.pnml(), queries=Q.property_set([("q%d" % (i + 1), x) for i, x in enumerate(it.xmls())]),
             argv=argv, net=it.net.json())
    d.update(extra or {})
    return d


def run_confirm(argv, timeout=runner.TIMEOUT, **kw):
    """Run; a crash or time-out must repeat (with more time) to count."""
    o = runner.run(argv, timeout=timeout, **kw)
    if o.crashed():
        o = runner.run(argv, timeout=timeout * 2, **kw)
    return o


def ask(ctx, it, jobs):
    """jobs: list of (query numbers (0-based), argv, opts).  opts: unknown=True allows no answer.
    The net and query files of it are written first."""
    it.files(ctx.scratch)
    for idx, argv, opts in jobs:
        full = [it.p, it.q, "-x", ",".join(str(i + 1) for i in idx)] + argv
        if opts.get("limit"):       # an engine that may take arbitrarily long
            o = runner.run(full, timeout=opts["limit"])
            if o.timeout:
                ctx.count("runs_out_of_time")
                continue
        if not opts.get("limit") or o.crashed():
            o = run_confirm(full)
        ctx.count("runs")
        if opts.get("refusal") and o.rc == 255 and opts["refusal"] in o.err:
            ctx.count("refused")
            continue
        if opts.get("refuse") and o.rc == 255 and "CANNOT_COMPUTE" in o.err and opts["refuse"](it):
            ctx.count("refused")
            continue
        if o.crashed():
            ctx.fail("%s on %s queries %s: %s" % ("no answer in time" if o.timeout else "crash (status %s)" % o.rc,
                                                   " ".join(argv), [it.show(i) for i in idx], (o.err or "")[-300:]),
                     replay_of(it, full[2:]))
            continue
        fm = runner.formulas(o.out)
        for i in idx:
            ans = fm.get("q%d" % (i + 1), [])
            got = [a for a in ans if a != "CANNOT_COMPUTE"]
            if not got and not opts.get("unknown"):
                ctx.fail("no answer (status %s) for %s with %s: %s %s" % (o.rc, it.show(i), " ".join(argv), o.out[-200:], o.err[-200:]),
                         replay_of(it, full[2:]))
            for a in got:
                if it.kind == "bounds":
                    if a.isdigit():
                        it.obs[i].append((argv, int(a)))
                    else:
                        ctx.fail("bounds query answered %s (%s)" % (a, argv), replay_of(it, full[2:]))
                else:
                    if a in ("TRUE", "FALSE"):
                        it.obs[i].append((argv, 1 if a == "TRUE" else 0))
                    else:
                        ctx.fail("query %s answered %s (%s)" % (it.show(i), a, argv), replay_of(it, full[2:]))


def judge(ctx, items, label=None, weight=None):
    """TLC judges everything observed; disagreements become violations."""
    items = [it for it in items if it is not None]
    res = tlc.judge([it.case() for it in items], ctx.scratch, weight=weight)
    for it, r in zip(items, res):
        ctx.states += r["n"]
        ctx.traces += sum(len(o) for o in it.obs)
        ctx.transitions += getattr(it.net, "edges", 0)
        for i in range(len(it.fs)):
            for argv, v in it.obs[i]:
                ctx.seen(it.net.json(), it.show(i), argv, nontrivial=r["n"] > 1)
        for b in r["bad"]:
            i = b - 1
            exp = r["exp"][i]
            wrong = [(a, v) for a, v in it.obs[i] if v != (int(exp) if it.kind != "bounds" else exp)]
            ok = [a for a, v in it.obs[i] if v == exp]
            a, v = wrong[0]
            ctx.fail("%s: the specification says %s, verifypn %s answers %s (%d runs wrong, %d right); net %s"
                     % (it.show(i), exp, " ".join(a), v if it.kind == "bounds" else bool(v), len(wrong), len(ok), json.dumps(it.net.json())),
                     replay_of(it, ["-x", str(i + 1)] + a, dict(expected=exp, query=it.show(i))))
        if r["n"] > 3:
            ctx.add_sample(dict(states=r["n"], net=it.net.json(), query=it.show(0), expected=r["exp"][0],
                                runs=[(" ".join(a), v) for a, v in it.obs[0]]))
    return res


def campaign(ctx, make, configs, n, per_query=3, baseline=None, tweak=None):
    """make(rnd) -> Item; configs: list of (argv, opts); each query is run under
    `baseline` and per_query randomly chosen configurations."""
    items = []

    def go(k):
        rnd = ctx.sub("c", k)
        it = make(rnd)
        if it is None:
            return None
        jobs = []
        for i in range(len(it.fs)):
            cs = list(baseline or [])
            for _ in range(per_query):
                c = rnd.choice(configs)
                c = c(rnd) if callable(c) else c
                cs.append(c)
            for argv, opts in cs:
                if opts.get("ok") and not opts["ok"](it, i):
                    continue
                jobs.append(([i], list(argv) if tweak is None else tweak(it, list(argv)), opts))
        ask(ctx, it, jobs)
        return it
    items = runner.pmap(go, range(n))
    return judge(ctx, items), items
