"""Structural reductions never change an answer."""
from vp import net as N, query as Q, diff

LEVEL = "model_checking"

# rule K is not part of any reduction mode verifypn selects itself, and its
# authors mark it as unproved: it is not covered by the property
RULES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18]


def red(rnd):
    r = rnd.random()
    if r < 0.35:
        return ["-r", "1"]
    if r < 0.45:
        return ["-r", "2"]
    k = rnd.choice([1, 1, 2, 4, len(RULES)])
    # rule Q on its own may fire forever: it ends at the reduction time limit
    return ["-r", "3", ",".join(map(str, rnd.sample(RULES, k))), "-d", "1"]


def config_for(kind):
    def config(rnd):
        a = red(rnd) + ["-n"]
        if kind == "ltl":
            a += ["-ltl"] + (["-p"] if rnd.random() < 0.7 else [])
        else:
            if rnd.random() < 0.6:
                a += ["-p"]
        if rnd.random() < 0.75:
            a += ["-q", "0"]
        elif kind == "bounds":
            a += ["-l", "1"]
        if kind == "ctl" and rnd.random() < 0.1:
            a += ["--noreach"]
        return a, {}
    return config


def chain_net(rnd, cap):
    """Nets with pieces every rule can bite on: chains, parallel places and
    transitions, dead ends, sinks, sources, read arcs, free-standing parts."""
    while True:
        if rnd.random() < 0.4:
            n = N.process_net(rnd, inh=rnd.random() < 0.4)
        else:
            n = N.raw_net(rnd, maxp=6, maxt=7, inh=rnd.random() < 0.35)
        trans = [[list(a), list(b), list(c)] for a, b, c in n.trans]
        np, m0 = n.np, list(n.m0)

        def fresh(tok=0):
            nonlocal np
            np += 1
            m0.append(tok)
            return np - 1
        for _ in range(rnd.randint(0, 4)):
            k = rnd.randrange(9)
            t = rnd.choice(trans)
            if k == 0 and t[1]:            # split an output arc by a fresh place + transition
                i = rnd.randrange(len(t[1]))
                p, w = t[1][i]
                q = fresh(rnd.choice([0, 0, 0, 1, 2]))
                v = rnd.choice([w, 1, w])
                t[1][i] = (q, v)
                trans.append([[(q, v if rnd.random() < 0.8 else 1)], [(p, w)], []])
            elif k == 1 and t[0]:          # split an input arc
                i = rnd.randrange(len(t[0]))
                p, w = t[0][i]
                q = fresh(rnd.choice([0, 0, 1]))
                t[0][i] = (q, w)
                trans.append([[(p, w)], [(q, w)], []])
            elif k == 2:                   # parallel place
                src = rnd.randrange(np)
                q = fresh(m0[src] + rnd.choice([0, 0, 1, 2]))
                f = rnd.choice([1, 1, 2])
                m0[q] *= f
                for u in trans:
                    for s in (0, 1):
                        for p, w in list(u[s]):
                            if p == src:
                                u[s].append((q, w * f))
            elif k == 3:                   # parallel transition (multiple)
                f = rnd.choice([1, 1, 2, 3])
                trans.append([[(p, w * f) for p, w in t[0]], [(p, w * f) for p, w in t[1]], list(t[2])])
            elif k == 4:                   # sink place
                q = fresh()
                t[1].append((q, rnd.randint(1, 2)))
            elif k == 5:                   # read arc
                p = rnd.randrange(np)
                if all(p not in [x for x, _ in t[s]] for s in (0, 1, 2)):
                    w = rnd.randint(1, 2)
                    t[0].append((p, w))
                    t[1].append((p, w))
            elif k == 6:                   # transition doing nothing / loop
                p = rnd.randrange(np)
                w = rnd.randint(1, 2)
                trans.append([[(p, w)], [(p, w)], []])
            elif k == 7:                   # consuming only
                p = rnd.randrange(np)
                trans.append([[(p, rnd.randint(1, 2))], [], []])
            else:                          # circle of two fresh places
                q, r = fresh(rnd.randint(0, 1)), fresh()
                trans.append([[(q, 1)], [(r, 1)], []])
                trans.append([[(r, 1)], [(q, 1)], []])
        m = N.Net(np, m0, [tuple(t) for t in trans])
        # an inhibitor and a normal arc on the same pair is not valid input
        if any(set(p for p, _ in a) & set(p for p, _ in c) for a, b, c in m.trans):
            continue
        if rnd.random() < 0.3:
            m = N.permute(m, rnd)
        R = m.explore(cap)
        if R is None or len(R) < 2:
            continue
        m.R = R
        return m


def make_for(kind):
    def make(rnd):
        if kind == "ltl":
            n = chain_net(rnd, 45)
            fs = []
            for _ in range(4):
                f = Q.gen_ltl_body(rnd, n, dead=rnd.random() < 0.5)
                if not Q.is_temporal(f):
                    f = Q.Un(rnd.choice("FG"), f)
                fs.append(Q.Un("A" if rnd.random() < 0.6 else "E", f))
            return diff.Item(n, fs, "ltl")
        if kind == "bounds":
            n = chain_net(rnd, 100)
            return diff.Item(n, [[p + 1 for p in rnd.sample(range(n.np), min(n.np, rnd.choice([1, 1, 2, 3])))] for _ in range(4)], "bounds")
        n = chain_net(rnd, 90 if kind == "reach" else 55)
        if kind == "reach":
            return diff.Item(n, [Q.gen_reach(rnd, n) if rnd.random() < 0.7 else Q.Un("EF", Q.Dead()) for _ in range(4)], "ctl")
        fs = []
        for _ in range(3):
            f = Q.gen_ctl(rnd, n, depth=rnd.choice([2, 3]))
            if not Q.is_temporal(f):
                f = Q.Un(rnd.choice(["EF", "AF", "EG", "AG"]), f)
            fs.append(f)
        return diff.Item(n, fs, "ctl")
    return make


def check(c):
    c.rules.append("random nets containing reducible pieces, all query classes, reduction modes 1, 2 and user-chosen rule lists; non-trivial: more than one reachable marking")
    for kind, q in (("reach", 330), ("ctl", 120), ("ltl", 260), ("bounds", 200)):
        diff.campaign(c, make_for(kind), [config_for(kind)], c.n(q), per_query=4,
                      baseline=[((["-ltl"] if kind == "ltl" else []) + ["-n", "-q", "0", "-p", "-r", "1"], {})])
