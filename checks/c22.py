"""Controller synthesis: who wins the game, and the strategies printed."""
import json, os
from vp import net as N, query as Q, diff, runner, tlc, surface as S

LEVEL = "model_checking"


def race_net(rnd):
    """Tokens are used up: what is fired first decides what is possible later."""
    while True:
        a, b = rnd.randint(3, 5), rnd.randint(1, 4)
        np = a + b
        m0 = [1 if i < a and rnd.random() < 0.9 else 0 for i in range(np)]
        tr, pl = [], []
        for _ in range(rnd.randint(3, 7)):
            pre = rnd.sample(range(np), rnd.choice([1, 1, 2, 2]))
            lo = max(pre) + 1
            post = [rnd.randrange(max(lo, a), np)] if max(lo, a) < np and rnd.random() < 0.85 else []
            inh = [q for q in range(np) if q not in pre and rnd.random() < 0.04]
            tr.append(([(p, 1) for p in pre], [(p, 1) for p in post], [(p, 1) for p in inh]))
        n = N.permute(N.Net(np, m0, tr), rnd)
        n.R = n.explore(70)
        if n.R is None or len(n.R) < 3:
            continue
        k = rnd.choice([0.2, 0.35, 0.6, 0.8])
        n.players = [1 if rnd.random() < k else 0 for _ in range(n.nt)]
        return n


def guard_net(rnd):
    """The controller should take something away from the environment before it makes something available."""
    while True:
        np = rnd.randint(7, 9)
        A, P, Qp, Np, G, Z, D = range(7)
        m0 = [1, 0, 1, 1, 0, 0, 0] + [rnd.randint(0, 1) for _ in range(np - 7)]
        one = lambda ps: [(p, 1) for p in ps]
        tr = [(one([Z]), one([P]), []), (one([A]), one([P]), []), (one([Np, Qp]), [], []), (one([P]), one([G]), []), (one([P, Qp]), one([D]), [])]
        pl = [0, 0, 0, 0, 1]
        if rnd.random() < 0.5:
            tr.append((one([A]), one([P]), [])), pl.append(0)
        if rnd.random() < 0.3:          # the other way round: the environment waits for a place to become empty
            tr[1] = (one([A, P]), [], [])
            m0[P] = 1
            tr[3] = (one([A if rnd.random() < 0.3 else D]), one([G]), [])
            tr[4] = (one([Qp]), one([D]), [(P, 1)])
            tr[0] = (one([Z, P]), [], [])
        for _ in range(rnd.randint(0, 3)):
            pre = rnd.sample(range(np), rnd.choice([1, 1, 2]))
            post = [rnd.randrange(np)] if rnd.random() < 0.7 else []
            tr.append((one(pre), one(post), [])), pl.append(int(rnd.random() < 0.3))
        ix = list(range(len(tr)))
        rnd.shuffle(ix)
        pp = list(range(np))
        rnd.shuffle(pp)
        f = lambda l: [(pp[p], w) for p, w in l]
        m = [0] * np
        for p in range(np):
            m[pp[p]] = m0[p]
        n = N.Net(np, m, [tuple(f(x) for x in tr[i]) for i in ix], players=[pl[i] for i in ix])
        n.R = n.explore(70)
        if n.R is not None:
            n.goal = pp[G]
            return n


def game_net(rnd):
    if rnd.random() < 0.15:
        return guard_net(rnd)
    if rnd.random() < 0.4:
        return race_net(rnd)
    for _ in range(200):
        n = N.gen_any(rnd, cap=70, big=False, wide=False)
        if n is None or not n.nt:
            continue
        k = rnd.random()
        n.players = [0 if rnd.random() < (0.3 + 0.4 * k) else 1 for _ in range(n.nt)]
        if rnd.random() < 0.1:
            n.players = [rnd.randint(0, 1)] * n.nt
        return n


def make(rnd, k):
    n = game_net(rnd)
    if n is None:
        return None
    fs = []
    for _ in range(4):
        fs.append(Q.Un(rnd.choice(["AG", "AF", "AF"]), Q.gen_pred(rnd, n, depth=rnd.choice([0, 0, 1, 2]))))
    if hasattr(n, "goal"):
        fs[0] = Q.Un("AF", Q.Cmp("<=", Q.C(1), Q.P(n.goal + 1)))
    it = Item(n, fs, "game")
    it.raw = []
    for f in fs:
        x = Q.xml(f, n)
        if rnd.random() < 0.3:
            x = "<negation>%s</negation>" % Q.xml(Q.Un("EF" if f["o"] == "AG" else "EG", Q.Not(f["a"][0])), n)
        it.raw.append("<control>%s</control>" % x)
    it.strat = [[] for _ in fs]
    return it


class Item(diff.Item):
    def xmls(self):
        return self.raw

    def case(self):
        d = dict(kind="game", net=self.net.json(), ctrl=[t + 1 for t in range(self.net.nt) if self.net.players[t] == 0])
        d["qs"] = [dict(f=f, obs=[bool(x) for x in sorted(set(v for _, v in self.obs[i]))], strat=[s for _, s in self.strat[i]]) for i, f in enumerate(self.fs)]
        return d


def config(rnd):
    a = []
    r = rnd.random()
    if r < 0.6:
        a += ["-s", rnd.choice(["BFS", "DFS", "RDFS", "BestFS"])]
    if rnd.random() < 0.4:
        a += ["-p"]
    a += ["-r", "0"]        # reductions are refused
    if rnd.random() < 0.4:
        a += ["-q", "0"]
    if rnd.random() < 0.5:
        a += ["-n"]
    return a


REF = dict(refusal="Only AF and AG propositions supported for synthesis")     # objectives that simplify to a constant


def strategy(s, net):
    try:
        d = json.loads(s, object_pairs_hook=lambda l: l)
    except ValueError as e:
        return None
    pi = {p: i for i, p in enumerate(net.pnames)}
    ti = {t: i for i, t in enumerate(net.tnames)}
    out = []
    for k, v in d:
        m = [0] * net.np
        for x in k.split(","):
            if x:
                p, _, w = x.rpartition(":")
                m[pi[p]] = int(w)
        out.append(dict(m=m, ts=[ti[t] + 1 for t in v]))
    return out


def check(c):
    c.rules.append("random nets whose transitions belong to the controller or the environment, with random AG and AF objectives over state predicates; "
                   "non-trivial: more than one reachable marking")

    def go(k):
        rnd = c.sub("g", k)
        it = make(rnd, k)
        if it is None:
            return None
        every = list(range(len(it.fs)))
        jobs = [([i], config(rnd), REF) for i in every for _ in range(2)]
        jobs += [(every, config(rnd), REF) for _ in range(2)]
        diff.ask(c, it, jobs)
        for i in every:
            if os.environ.get("NOSTRAT"):
                break
            # strategies: without reductions (names and markings of the net itself)
            sf = c.scratch.file(".json")
            a = ["-x", str(i + 1), "-r", "0", "-q", "0", "--strategy-output", sf] + rnd.choice([[], ["-p"], ["-s", "BFS"], ["-s", "RDFS"], ["-p", "-s", "BFS"]])
            o = diff.run_confirm([it.p, it.q] + a)
            ans = [x for x in runner.formulas(o.out).get("q%d" % (i + 1), []) if x in ("TRUE", "FALSE")]
            if o.rc == 255 and REF["refusal"] in o.err:
                continue
            if o.crashed() or not ans:
                c.fail("%s with %s is not answered: status %s %s" % (it.show(i), " ".join(a), o.rc, o.err[-200:]), diff.replay_of(it, a))
                continue
            it.obs[i].append((a, int(ans[0] == "TRUE")))
            if ans[0] == "TRUE":
                try:
                    t = open(sf).read()
                except OSError:
                    continue
                s = strategy(t, it.net)
                if s is None:
                    c.fail("%s with %s: the strategy is not JSON: %s" % (it.show(i), " ".join(a), t[:300]), diff.replay_of(it, a))
                else:
                    it.strat[i].append((a, s))
                    c.count("strategies")
        return it
    items = [x for x in runner.pmap(go, range(c.n(int(os.environ.get("N22", "700"))))) if x is not None]
    for it, r in zip(items, tlc.judge([it.case() for it in items], c.scratch)):
        c.states += r["n"]
        c.transitions += it.net.edges
        for i in range(len(it.fs)):
            for a, v in it.obs[i]:
                c.traces += 1
                c.seen(it.net.json(), it.net.players, it.show(i), a, nontrivial=r["n"] > 1)
            c.traces += len(it.strat[i])
            desc = "control %s, environment %s, net %s" % (it.show(i), ["t%d" % t for t in range(it.net.nt) if it.net.players[t]], json.dumps(it.net.json()))
            for a, v in it.obs[i]:
                if bool(v) != r["exp"][i]:
                    c.fail("%s: the controller %s, verifypn %s answers %s" % (desc, "wins" if r["exp"][i] else "does not win", " ".join(a), bool(v)), diff.replay_of(it, a if a[0] == "-x" else ["-x", str(i + 1)] + a))
                    break
            for (a, s), v in zip(it.strat[i], r["strat"][i]):
                if v:
                    c.fail("%s: %s (%s): %s" % (desc, v, " ".join(a), s), diff.replay_of(it, a))
                    break
        if r["n"] > 3:
            c.add_sample(dict(states=r["n"], net=it.net.json(), players=it.net.players, query=it.show(0), expected=r["exp"][0], runs=[(" ".join(a), v) for a, v in it.obs[0]]))
