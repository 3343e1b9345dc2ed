"""Nets and queries that verifypn writes (simplified, unfolded, reduced) mean what the originals mean."""
import json
from vp import net as N, query as Q, cpn, diff, parse, runner, tlc

LEVEL = "model_checking"
CAP = 400


def make(rnd, k):
    if k % 3 == 2:
        n = cpn.gen_cpn(rnd, cap=60)
        if n is None:
            return None
    else:
        n = N.gen_any(rnd, cap=60, big=False)
    kind = rnd.choice(["ctl", "ctl", "reach", "reach", "ltl", "bounds"])
    if kind == "reach":
        fs = [Q.gen_reach(rnd, n) for _ in range(4)]
    elif kind == "ctl":
        fs = [Q.gen_ctl(rnd, n) for _ in range(4)]
    elif kind == "ltl":
        fs = [Q.Un(rnd.choice("AE"), Q.gen_ltl_body(rnd, n)) for _ in range(3)]
    else:
        fs = [[p + 1 for p in rnd.sample(range(n.np), rnd.randint(1, n.np))] for _ in range(3)]
    return diff.Item(n, fs, "ctl" if kind == "reach" else kind)


def logic_args(it):
    return ["-ltl"] if it.kind == "ltl" else []


def config(rnd, col):
    a = ["-n"]
    r = rnd.random()
    if r < 0.3:
        a += ["-r", "0"]
    elif r < 0.5:
        a += ["-r", "2"]
    elif r < 0.6:
        a += ["-r", "3", ",".join(str(x) for x in rnd.sample([i for i in range(19) if i not in (10, 16)], rnd.randint(1, 6))), "-d", "1"]
    if rnd.random() < 0.3:
        a += ["-q", "0"]
    if rnd.random() < 0.3:
        a += ["--noreach"]
    if col:
        if rnd.random() < 0.3:
            a += ["-R", "0"]
        for o in ("--disable-cfp", "--disable-partitioning", "--disable-symmetry-vars"):
            if rnd.random() < 0.25:
                a.append(o)
    return a


def read(name):
    try:
        return open(name, encoding="utf-8", errors="replace").read()
    except OSError:
        return ""


class Missing(Exception):
    pass


def check(c):
    c.rules.append("random nets and coloured nets with CTL, LTL, reachability and bounds queries: simplified and unfolded queries, "
                   "unfolded, reduced and colour-reduced nets are written, read back and judged, also through the binary query format and by asking again; "
                   "non-trivial: more than one reachable marking")

    finding(c)

    def go(k):
        rnd = c.sub("w", k)
        it = make(rnd, k)
        if it is None:
            return None
        it.files(c.scratch)
        it.w = [[] for _ in it.fs]
        col = hasattr(it.net, "types")
        for _ in range(3):
            idx = sorted(rnd.sample(range(len(it.fs)), rnd.randint(1, len(it.fs))))
            conf = config(rnd, col) + logic_args(it)
            a = ["-x", ",".join(str(i + 1) for i in idx)] + conf
            keep = rnd.random() < 0.5
            f = {}
            binary = rnd.random() < 0.3
            if binary and it.kind == "ltl":
                keep = False                    # a constant is not an LTL query
            what = rnd.choice(["simple", "reduced", "reduced", "unfolded", "unfolded"] if col else ["simple", "simple", "reduced", "reduced", "again"])
            if what == "unfolded":
                f["un"], f["uq"] = c.scratch.file(".pnml"), c.scratch.file(".xml")
                a += ["--write-unfolded-net", f["un"], "--write-unfolded-queries", f["uq"]]
                if rnd.random() < 0.5:
                    a += ["--noverify"]
            else:
                f["sq"] = c.scratch.file(".xml")
                if it.kind == "bounds" and not binary:
                    a += ["-q", "0"]            # see finding()
                a += ["--write-simplified", f["sq"]]
                if col and what != "reduced":
                    f["un"] = c.scratch.file(".pnml")
                    a += ["--write-unfolded-net", f["un"]]
                if what == "reduced":
                    f["rn"] = c.scratch.file(".pnml")
                    a += ["--write-reduced", f["rn"]]
                if rnd.random() < 0.3:
                    a += ["--noverify"]
            if keep:
                a += ["--keep-solved"]
            binary = binary and "sq" in f           # unfolded queries are always written as XML
            if binary:
                a += ["--binary-query-io", "2"]
            o = diff.run_confirm([it.p, it.q] + a)
            c.count("runs")
            ctx = "%s of %s" % (" ".join(x for x in a if not x.startswith("/")), [it.show(i) for i in idx])
            if o.crashed() or o.rc == 255:
                c.fail("crash (status %s) on %s: %s" % (o.rc, ctx, o.err[-300:]), diff.replay_of(it, a))
                continue
            qf = f.get("uq") or f.get("sq")
            nf = f.get("rn") or f.get("un")
            if nf and "rn" in f and not read(nf) and not keep:
                c.count("all_solved")
                continue
            try:
                if nf and not read(nf):
                    if "rn" in f:
                        c.count("no_reduced_net")     # everything was solved before reductions
                        continue
                    raise Missing("no net written")
                wn = parse.read_net(read(nf)) if nf else it.net
                if nf and wn.explore(CAP) is None:
                    c.count("written_net_too_large")
                    continue
                if binary:
                    # back to XML with the program itself (no simplification)
                    q2 = c.scratch.file(".xml")
                    b = [nf or it.p, qf, "-x", "1", "-n", "-r", "0", "-q", "0", "--binary-query-io", "1", "--keep-solved", "--noverify", "--write-unfolded-queries", q2]
                    cnt = int.from_bytes(open(qf, "rb").read(4), "little")
                    if cnt > len(idx):
                        raise Missing("%d queries written" % cnt)
                    if cnt == 0:
                        qs = []
                    else:
                        b[3] = ",".join(str(i + 1) for i in range(cnt))
                        o2 = diff.run_confirm(b + logic_args(it))
                        if o2.crashed() or o2.rc == 255:
                            raise Missing("the binary queries cannot be read again: status %s %s" % (o2.rc, o2.err[-200:]))
                        qs = parse.read_queries(read(q2), wn, it.kind)
                else:
                    qs = parse.read_queries(read(qf), wn, it.kind)
                got = {}
                for n_, w in qs:
                    if n_ in got:
                        raise Missing("query %s written twice" % n_)
                    got[n_] = w
                fm = runner.formulas(o.out)
                for i in idx:
                    if "q%d" % (i + 1) not in got:
                        if keep:
                            raise Missing("query %d not written" % (i + 1))
                        continue
                    w = got.pop("q%d" % (i + 1))
                    if w is None:
                        c.count("solved_bounds")
                        continue
                    if it.kind == "bounds" and binary:
                        continue                # XML cannot hold what was read
                    d = dict(ps=w) if it.kind == "bounds" else dict(f=Q.number_temporal(ltl_form(w)) if it.kind == "ltl" else w)
                    if nf:
                        d["net"] = wn.json()
                    it.w[i].append((a, d, ctx))
                if got:
                    raise Missing("queries %s written, not asked for" % sorted(got))
            except (Missing, ValueError, KeyError, SyntaxError, IndexError) as e:
                c.fail("%s: what was written is not right: %s: %s" % (ctx, type(e).__name__, e), diff.replay_of(it, a))
                continue
            # ask the program about what it wrote
            if rnd.random() < 0.6 and qs:
                j = rnd.randrange(len(qs))
                if it.kind == "ltl" and qs[j][1]["o"] in ("true", "false") or qs[j][1] is None:
                    continue
                b = [nf or it.p, qf, "-x", str(j + 1), "-n"] + logic_args(it)
                if it.kind == "bounds":
                    b += ["-l", "1"]
                if binary:
                    b += ["--binary-query-io", "1"]
                if rnd.random() < 0.6:
                    b += ["-r", "0", "-q", "0"]
                o = diff.run_confirm(b)
                name = qs[j][0]
                ans = [x for x in runner.formulas(o.out).get(name, []) if x != "CANNOT_COMPUTE"]
                i = int(name[1:]) - 1
                if o.crashed() or not ans:
                    c.fail("written query %s (%s) is not answered: status %s %s %s" % (name, ctx, o.rc, o.out[-150:], o.err[-150:]), diff.replay_of(it, a))
                else:
                    v = int(ans[0]) if ans[0].isdigit() else ans[0] == "TRUE"
                    it.w[i].append((a, dict(value=v), ctx + " and asking again with " + " ".join(b[2:])))
        return it
    items = [x for x in runner.pmap(go, range(c.n(int(__import__("os").environ.get("N20", "600"))))) if x is not None]
    cases = []
    for it in items:
        qs = []
        for i, f in enumerate(it.fs):
            d = dict(obs=[d for _, d, _ in it.w[i]])
            d["ps" if it.kind == "bounds" else "f"] = Q.number_temporal(f) if it.kind == "ltl" else f
            qs.append(d)
        cases.append({"kind": "written", "logic": it.kind, "qs": qs, ("cpn" if hasattr(it.net, "types") else "net"): it.net.json()})
    res = tlc.judge(cases, c.scratch)
    for it, r in zip(items, res):
        c.states += r["n"]
        for i in range(len(it.fs)):
            for j, (a, d, ctx) in enumerate(it.w[i]):
                c.seen(it.net.json(), it.show(i), d, nontrivial=r["n"] > 1)
                c.traces += 1
                if r["n"] > 3:
                    c.add_sample(dict(net=it.net.json(), query=it.show(i), written=d, expected=r["exp"][i]))
                if (j + 1) in r["wrong"][i]:
                    c.fail("%s (value %s): %s wrote %s; net %s" % (it.show(i), r["exp"][i], ctx, json.dumps(d), json.dumps(it.net.json())),
                           diff.replay_of(it, a, dict(query=it.show(i), expected=r["exp"][i], written=d)))


# XML has no way to write the constant part of a bounds query that query reduction has (partly) solved
FINDING = N.Net(3, [0, 0, 1], [([(2, 1), (0, 1)], [(1, 1)], [])])


def finding(c):
    """a bounds query whose places are all solved by query reduction is written as an empty place-bound"""
    it = diff.Item(FINDING, [[3, 2]], "bounds")
    it.files(c.scratch)
    sq = c.scratch.file(".xml")
    a = ["-x", "1", "-n", "--keep-solved", "--noverify", "--write-simplified", sq]
    o = diff.run_confirm([it.p, it.q] + a)
    qs = parse.read_queries(read(sq), it.net, "bounds")
    if o.crashed() or len(qs) != 1 or sorted(qs[0][1]) != [2, 3]:
        c.fail("bounds([3, 2]) (value 1) is written as %s" % qs, diff.replay_of(it, a, dict(fingerprint="c20-xml-bounds-constant:%s" % [x[1] for x in qs])))


def ltl_form(w):
    if w["o"] in ("true", "false", "A", "E"):
        return w
    if w["o"] == "not" and w["a"][0]["o"] in ("A", "E"):
        b = w["a"][0]
        return Q.Un("A" if b["o"] == "E" else "E", Q.Not(b["a"][0]))
    if not Q.is_temporal(w):
        return w
    raise ValueError("not an LTL query: %s" % w)
