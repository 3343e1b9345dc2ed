"""Reported traces are runs of the net that decide the query."""
import json
from vp import net as N, query as Q, cpn, diff, runner, tlc, trace
from checks import c12

LEVEL = "model_checking"
STRAT = ["DFS", "BFS", "RDFS", "RPFS", "BestFS"]
RULES = [r for r in range(19) if r not in (10, 16)]


def reach_conf(rnd):
    a = ["-n", "-t"]
    if rnd.random() < 0.5:
        a += ["-s", rnd.choice(STRAT)]
    r = rnd.random()
    if r < 0.25:
        a += ["-r", "0"]
    elif r < 0.4:
        a += ["-r", "2"]
    elif r < 0.7:
        a += ["-d", "1", "-r", "3", ",".join(map(str, rnd.sample(RULES, rnd.choice([1, 2, 3, 5]))))]
    if rnd.random() < 0.3:
        a += ["-p"]
    a += ["-q", "0"] if rnd.random() < 0.6 else []
    if "-s" not in a and rnd.random() < 0.3:
        a += ["-tar"]
    return a


def ltl_conf(rnd):
    a = ["-n", "-t", "-ltl"]
    r = rnd.random()
    if r < 0.8:
        a += [rnd.choice(["ndfs", "tarjan"])]
    if rnd.random() < 0.4:
        a += ["-s", rnd.choice(["DFS", "BestFS", "RDFS"])]
    if rnd.random() < 0.6:
        a += ["--ltl-por", rnd.choice(["none", "classic", "automaton", "liebke"])]
    if rnd.random() < 0.3:
        a += ["--noweak"]
    r = rnd.random()
    if r < 0.3:
        a += ["-r", "0"]
    elif r < 0.5:
        a += ["-r", "2"]
    if rnd.random() < 0.6:
        a += ["-q", "0"]
    if rnd.random() < 0.3:
        a += ["--noreach"]
    return a


def col_conf(rnd):
    a = ["-n", "-t", "-R", "0"]
    if rnd.random() < 0.6:
        a += ["-C", "-q", "1"]
        if rnd.random() < 0.7:
            a += ["-s", rnd.choice(["DFS", "BFS", "RDFS", "BestFS"])]
        if rnd.random() < 0.5:
            a += ["--colored-successor-generator", rnd.choice(["fixed", "even"])]
    else:
        a += ["-r", rnd.choice(["0", "0", "1"])]
        for o in ("--disable-cfp", "--disable-partitioning", "--disable-symmetry-vars"):
            if rnd.random() < 0.2:
                a.append(o)
    return a


def make(rnd, k):
    if k % 5 == 4:
        n = cpn.gen_cpn(rnd, cap=90)
        if n is None:
            return None
        fs = [Q.Un(rnd.choice(["EF", "AG"]), c12.simple(rnd, n, rnd.choice([0, 1, 2, 2]))) for _ in range(4)]
        return diff.Item(n, fs, "ctl"), col_conf
    if k % 5 in (2, 3):
        n = N.gen_any(rnd, cap=60, big=False)
        return diff.Item(n, [Q.Un(rnd.choice("AE"), Q.gen_ltl_body(rnd, n)) for _ in range(4)], "ltl"), ltl_conf
    n = N.gen_any(rnd, cap=150, big=False)
    return diff.Item(n, [Q.gen_reach(rnd, n) for _ in range(5)], "ctl"), reach_conf


def positive(f):
    """does a TRUE answer come with a witness?"""
    return (not positive(f["a"][0])) if f["o"] == "not" else f["o"] in ("EF", "E")


def check(c):
    c.rules.append("random nets and coloured nets with EF/AG and LTL queries under -t: every printed trace is fired by the specification and its run judged; "
                   "non-trivial: traces with at least one step")

    def go(k):
        rnd = c.sub("t", k)
        x = make(rnd, k)
        if x is None:
            return None
        it, conf = x
        it.files(c.scratch)
        it.tr = [[] for _ in it.fs]
        for i, f in enumerate(it.fs):
            for _ in range(3):
                a = ["-x", str(i + 1)] + conf(rnd)
                if "-tar" in a:
                    if has_inh(it.net):
                        continue
                    o = runner.run([it.p, it.q] + a, timeout=4)
                    if o.timeout:
                        continue
                else:
                    o = diff.run_confirm([it.p, it.q] + a)
                c.count("runs")
                if "-C" in a and o.rc == 255 and "CANNOT_COMPUTE" in o.err:
                    continue
                if "-tar" in a and o.rc == 255 and "Unsupported query type for TAR" in o.err:
                    continue
                if o.crashed():
                    c.fail("%s on %s with %s: %s" % ("no answer in time" if o.timeout else "crash (status %s)" % o.rc, it.show(i), " ".join(a), o.err[-300:]),
                           diff.replay_of(it, a))
                    continue
                bs = trace.blocks(o.err)
                ans = runner.formulas(o.out).get("q%d" % (i + 1), ["?"])[0]
                if not bs:
                    c.count("runs_without_trace")
                    continue
                if len(bs) > 1 or ans not in ("TRUE", "FALSE") or (ans == "TRUE") != positive(f):
                    c.fail("%s answered %s with %s prints %d trace(s)" % (it.show(i), ans, " ".join(a), len(bs)), diff.replay_of(it, a))
                    continue
                try:
                    if "-C" in a:
                        t, m = trace.coloured(bs[0], it.net)
                        if not same(m, it.net):
                            raise trace.Bad("the first marking is not the initial one")
                    elif hasattr(it.net, "types"):
                        t = trace.unfolded(bs[0], it.net)
                    else:
                        t = trace.plain(bs[0], it.net)
                except trace.Bad as e:
                    c.fail("trace of %s with %s: %s" % (it.show(i), " ".join(a), e), diff.replay_of(it, a, dict(trace=bs[0])))
                    continue
                it.tr[i].append((a, t, bs[0]))
        return it
    items = [x for x in runner.pmap(go, range(c.n(int(__import__("os").environ.get("N07","700"))))) if x is not None]
    cases = []
    for it in items:
        qs = [dict(f=Q.number_temporal(f) if it.kind == "ltl" else f, obs=[t for _, t, _ in it.tr[i]]) for i, f in enumerate(it.fs)]
        cases.append({"kind": "trace", "qs": qs, ("cpn" if hasattr(it.net, "types") else "net"): it.net.json()})
    res = tlc.judge(cases, c.scratch)
    for it, r in zip(items, res):
        for i in range(len(it.fs)):
            for j, (a, t, text) in enumerate(it.tr[i]):
                c.seen(it.net.json(), it.show(i), t, nontrivial=bool(t["steps"]))
                c.traces += 1
                c.states += len(t["steps"]) + 1
                c.transitions += len(t["steps"])
                if t["steps"]:
                    c.count("traces_with_steps")
                    c.add_sample(dict(net=it.net.json(), query=it.show(i), argv=a, trace=t))
                v = r["exp"][i][j]
                if v:
                    c.fail("trace of %s with %s: %s; trace %s; net %s" % (it.show(i), " ".join(a), v, json.dumps(t), json.dumps(it.net.json())),
                           diff.replay_of(it, a, dict(trace=text, verdict=v)))


def has_inh(net):
    return any(net.json()["inh"])


def same(m, net):
    for p, (e, x) in enumerate(zip(net.m0, m)):
        want = {k: v for k, v in net.mval(e, {}, net.places[p][1]).items() if v}
        got = {tuple(cc): k for cc, k in x if k}
        if want != got:
            return False
    return True
