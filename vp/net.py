"""Place/transition nets: Python representation, random generation, PNML output.

This explorer is used only to *choose* inputs (keep state spaces small); the
oracle is the TLA+ specification.
"""
from xml.sax.saxutils import escape
import random


class Net:
    def __init__(self, np, m0, trans, pnames=None, tnames=None, players=None):
        # trans: list of (pre, post, inh), each list of (place0, w)
        self.np = np
        self.m0 = list(m0)
        self.trans = trans
        self.pnames = pnames or ["p%d" % i for i in range(np)]
        self.tnames = tnames or ["t%d" % i for i in range(len(trans))]
        self.players = players or [0] * len(trans)   # 0 controllable, 1 environment

    @property
    def nt(self):
        return len(self.trans)

    def json(self):
        f = lambda l: [[p + 1, w] for p, w in l]
        return dict(np=self.np, nt=self.nt, m0=self.m0,
                    pre=[f(t[0]) for t in self.trans],
                    post=[f(t[1]) for t in self.trans],
                    inh=[f(t[2]) for t in self.trans])

    def enabled(self, m, t):
        pre, post, inh = self.trans[t]
        need = {}
        for p, w in pre:
            need[p] = need.get(p, 0) + w
        return all(m[p] >= w for p, w in need.items()) and all(m[p] < w for p, w in inh)

    def fire(self, m, t):
        m = list(m)
        for p, w in self.trans[t][0]:
            m[p] -= w
        for p, w in self.trans[t][1]:
            m[p] += w
        return tuple(m)

    def explore(self, cap, tokcap=2**28):
        seen = {tuple(self.m0)}
        todo = [tuple(self.m0)]
        edges = 0
        while todo:
            m = todo.pop()
            for t in range(self.nt):
                if self.enabled(m, t):
                    n = self.fire(m, t)
                    edges += 1
                    if n not in seen:
                        if len(seen) >= cap or sum(n) > tokcap:
                            return None
                        seen.add(n)
                        todo.append(n)
        self.edges = edges
        return seen

    def explore_k(self, k, cap):
        """markings reached without entering one with more than k tokens"""
        seen = {tuple(self.m0)}
        todo = [tuple(self.m0)]
        self.edges, self.cut = 0, False
        while todo:
            m = todo.pop()
            for t in range(self.nt):
                if self.enabled(m, t):
                    n = self.fire(m, t)
                    if sum(n) > k:
                        self.cut = True
                        continue
                    self.edges += 1
                    if n not in seen:
                        if len(seen) >= cap:
                            return None
                        seen.add(n)
                        todo.append(n)
        return seen

    def pnml(self, rnd=None):
        out = ['<?xml version="1.0" encoding="UTF-8"?>',
               '<pnml xmlns="http://www.pnml.org/version-2009/grammar/pnml">',
               '<net id="n" type="http://www.pnml.org/version-2009/grammar/ptnet"><page id="pg"><name><text>n</text></name>']
        for i in range(self.np):
            s = '<place id="%s">' % escape(self.pnames[i])
            s += '<name><text>%s</text></name>' % escape(self.pnames[i])
            if self.m0[i]:
                s += '<initialMarking><text>%d</text></initialMarking>' % self.m0[i]
            out.append(s + '</place>')
        for i in range(self.nt):
            pl = '' if self.players[i] == 0 else ' player="1"'
            out.append('<transition id="%s"%s><name><text>%s</text></name></transition>' % (self.tnames[i], pl, self.tnames[i]))
        k = 0
        arcs = []
        for i, (pre, post, inh) in enumerate(self.trans):
            for p, w in pre:
                arcs.append((self.pnames[p], self.tnames[i], w, 0))
            for p, w in post:
                arcs.append((self.tnames[i], self.pnames[p], w, 0))
            for p, w in inh:
                arcs.append((self.pnames[p], self.tnames[i], w, 1))
        for s, t, w, inh in arcs:
            k += 1
            if inh:
                out.append('<arc id="a%d" source="%s" target="%s" type="inhibitor"><inscription><text>%d</text></inscription></arc>' % (k, s, t, w))
            elif w == 1:
                out.append('<arc id="a%d" source="%s" target="%s"/>' % (k, s, t))
            else:
                out.append('<arc id="a%d" source="%s" target="%s"><inscription><text>%d</text></inscription></arc>' % (k, s, t, w))
        out.append('</page></net></pnml>')
        return "\n".join(out)


def _arcs(rnd, np, k, wmax):
    ps = rnd.sample(range(np), min(k, np))
    return [(p, 1 if rnd.random() < 0.65 else rnd.randint(1, wmax)) for p in ps]


def raw_net(rnd, maxp=6, maxt=7, wmax=3, tokmax=3, inh=True, sources=True):
    """One random net; several shapes, so that the structural reductions,
    stubborn sets and over-approximations all find something to bite on."""
    shape = rnd.random()
    np = rnd.randint(1, maxp)
    nt = rnd.randint(1, maxt)
    trans = []
    if shape < 0.45:
        # general, biased to conservative so it is often bounded
        for _ in range(nt):
            pre = _arcs(rnd, np, rnd.choice([1, 1, 1, 2, 2, 3]), wmax)
            s = sum(w for _, w in pre)
            if rnd.random() < 0.75:
                post, left = [], s
                ps = rnd.sample(range(np), min(np, rnd.choice([1, 1, 2, 2, 3])))
                for j, p in enumerate(ps):
                    if left <= 0:
                        break
                    w = left if j == len(ps) - 1 and rnd.random() < 0.7 else rnd.randint(1, left)
                    post.append((p, w))
                    left -= w
                if rnd.random() < 0.12:
                    post = []
            else:
                post = _arcs(rnd, np, rnd.choice([0, 1, 1, 2]), wmax)
            trans.append([pre, post, []])
    elif shape < 0.75:
        # chains and merges: agglomeration-friendly
        np = max(np, 3)
        for _ in range(nt):
            a = rnd.randrange(np)
            b = rnd.randrange(np)
            w = 1 if rnd.random() < 0.8 else rnd.randint(1, wmax)
            v = w if rnd.random() < 0.8 else rnd.randint(1, wmax)
            pre, post = [(a, w)], [(b, v)]
            if rnd.random() < 0.2:
                c = rnd.randrange(np)
                if c != a:
                    pre.append((c, 1))
                    if rnd.random() < 0.6:
                        if c != b:
                            post.append((c, 1))
                        else:
                            post = [(b, v + 1)]
            if rnd.random() < 0.15:
                c = rnd.randrange(np)
                if c not in [p for p, _ in post]:
                    post.append((c, 1))
            trans.append([pre, post, []])
    else:
        # fork/join over disjoint chains
        np = max(np, 4)
        order = list(range(np))
        rnd.shuffle(order)
        for j in range(nt):
            k = rnd.choice([1, 1, 2])
            src = rnd.sample(order, k)
            dst = rnd.sample(order, rnd.choice([1, 1, 2]))
            trans.append([[(p, 1) for p in src], [(p, 1) for p in dst], []])
    if sources and rnd.random() < 0.12:
        # a source transition kept bounded by an inhibitor or a budget place
        p = rnd.randrange(np)
        if inh and rnd.random() < 0.6:
            trans.append([[], [(p, 1)], [(p, rnd.randint(1, 3))]])
        else:
            q = rnd.randrange(np)
            trans.append([[(q, 1)], [(p, 1), (q, 1)] if p != q else [(p, 1)], [(p, rnd.randint(1, 3))] if inh and p != q else []])
    if inh and rnd.random() < 0.35:
        for _ in range(rnd.randint(1, 2)):
            t = rnd.choice(trans)
            p = rnd.randrange(np)
            if p not in [q for q, _ in t[2]] and p not in [q for q, _ in t[0]]:
                t[2].append((p, rnd.randint(1, 3)))
    if rnd.random() < 0.12:   # duplicate transition
        t = rnd.choice(trans)
        f = rnd.choice([1, 1, 2])
        trans.append([[(p, w * f) for p, w in t[0]], [(p, w * f) for p, w in t[1]], list(t[2])])
    if rnd.random() < 0.1:   # self-loop / test arc
        t = rnd.choice(trans)
        p = rnd.randrange(np)
        if all(p not in [q for q, _ in t[s]] for s in (0, 1, 2)):
            w = rnd.randint(1, 2)
            t[0].append((p, w))
            t[1].append((p, w))
    if rnd.random() < 0.1:   # parallel place
        src = rnd.randrange(np)
        for t in trans:
            for s in (0, 1):
                for p, w in list(t[s]):
                    if p == src:
                        t[s].append((np, w))
        np += 1
    m0 = [0] * np
    for _ in range(rnd.randint(1, max(1, tokmax))):
        m0[rnd.randrange(np)] += rnd.choice([1, 1, 1, 2, 3])
    if rnd.random() < 0.3:
        for _ in range(2):
            m0[rnd.randrange(np)] += 1
    return Net(np, m0, [tuple(t) for t in trans])


def gen_net(rnd, cap=120, minstates=1, **kw):
    while True:
        n = raw_net(rnd, **kw)
        R = n.explore(cap)
        if R is None or len(R) < minstates:
            continue
        if len(R) <= 2 and rnd.random() < 0.9:
            continue
        if len(R) <= 8 and rnd.random() < 0.6:
            continue
        n.R = R
        return n


def scale(net, f):
    g = lambda l: [(p, w * f) for p, w in l]
    n = Net(net.np, [x * f for x in net.m0], [(g(a), g(b), g(c)) for a, b, c in net.trans],
            list(net.pnames), list(net.tnames), list(net.players))
    n.R = {tuple(x * f for x in m) for m in net.R}
    return n


# ------------------------------------------------------------ further families

def union(nets, rnd=None):
    """Disjoint union (places and transitions renumbered, names made unique)."""
    m0, trans = [], []
    for n in nets:
        off = len(m0)
        sh = lambda l: [(p + off, w) for p, w in l]
        m0 += n.m0
        trans += [(sh(a), sh(b), sh(c)) for a, b, c in n.trans]
    return Net(len(m0), m0, trans)


def permute(net, rnd):
    """Same net with places and transitions in a random order."""
    perm = list(range(net.np))
    rnd.shuffle(perm)              # old -> new
    m0 = [0] * net.np
    for o, n in enumerate(perm):
        m0[n] = net.m0[o]
    sh = lambda l: [(perm[p], w) for p, w in l]
    trans = [(sh(a), sh(b), sh(c)) for a, b, c in net.trans]
    rnd.shuffle(trans)
    return Net(net.np, m0, trans)


def padded(rnd, cap=40):
    """a net among hundreds of places that never change: place numbers need two bytes"""
    while True:
        n = gen_net(rnd, cap=cap) if rnd.random() < 0.7 else scale(gen_net(rnd, cap=cap), rnd.choice([100, 300, 70000]))
        total = rnd.choice([254, 255, 256, 257, 258, 300, 511, 512, 513, 600])
        k = total - n.np
        r = rnd.random()
        if r < 0.45:
            pad = [0] * k
        elif r < 0.6:
            pad = [1] * k
        elif r < 0.8:
            pad = [rnd.choice([0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 300]) for _ in range(k)]
        else:
            pad = [rnd.choice([0, 1]) for _ in range(k)]
        u = permute(union([n, Net(k, pad, [])]), rnd)
        R = u.explore(cap)
        if R is not None:
            u.R = R
            return u


def family(rnd):
    """Small instances of classical nets."""
    k = rnd.randrange(6)
    if k == 0:      # dining philosophers
        n = rnd.randint(2, 4)
        # fork i = i, think i = n+i, left i = 2n+i, eat i = 3n+i
        m0 = [1] * (2 * n) + [0] * (2 * n)
        tr = []
        for i in range(n):
            r = (i + 1) % n
            tr.append(([(n + i, 1), (i, 1)], [(2 * n + i, 1)], []))
            tr.append(([(2 * n + i, 1), (r, 1)], [(3 * n + i, 1)], []))
            tr.append(([(3 * n + i, 1)], [(n + i, 1), (i, 1), (r, 1)], []))
        if rnd.random() < 0.5:
            tr[-3], tr[-2] = ([(n + n - 1, 1), (0, 1)], [(3 * n - 1, 1)], []), ([(3 * n - 1, 1), (n - 1, 1)], [(4 * n - 1, 1)], [])
        net = Net(4 * n, m0, tr)
    elif k == 1:    # producer / consumer with bounded buffer
        cap = rnd.randint(1, 4)
        m0 = [1, 0, 0, cap, 1, 0]
        w = rnd.randint(1, 2)
        tr = [([(0, 1)], [(1, 1)], []), ([(1, 1), (3, w)], [(0, 1), (2, w)], []),
              ([(4, 1), (2, 1)], [(5, 1), (3, 1)], []), ([(5, 1)], [(4, 1)], [])]
        net = Net(6, m0, tr)
    elif k == 2:    # token ring with resource
        n = rnd.randint(3, 6)
        m0 = [0] * (2 * n)
        m0[0] = rnd.randint(1, 2)
        tr = []
        for i in range(n):
            tr.append(([(i, 1)], [((i + 1) % n, 1)], []))
            tr.append(([(i, 1)], [(n + i, 1)], []))
            if rnd.random() < 0.8:
                tr.append(([(n + i, 1)], [(i, 1)], []))
        net = Net(2 * n, m0, tr)
    elif k == 3:    # counter pipeline
        n = rnd.randint(2, 4)
        m0 = [rnd.randint(2, 5)] + [0] * n
        tr = []
        for i in range(n):
            a, b = rnd.choice([(1, 1), (1, 1), (2, 1), (1, 2)])
            tr.append(([(i, a)], [(i + 1, b)], []))
        if rnd.random() < 0.5:
            tr.append(([(n, 1)], [(0, 1)], []))
        net = Net(n + 1, m0, tr)
    elif k == 4:    # readers / writers, inhibitor variant
        r = rnd.randint(1, 4)
        m0 = [r, 0, 1, 0]
        tr = [([(0, 1)], [(1, 1)], [(3, 1)]), ([(1, 1)], [(0, 1)], []),
              ([(2, 1)], [(3, 1)], [(1, 1)]), ([(3, 1)], [(2, 1)], [])]
        net = Net(4, m0, tr)
    else:           # fork/join workflow with choice
        n = rnd.randint(2, 4)
        np = 2 + 2 * n
        m0 = [rnd.randint(1, 2)] + [0] * (np - 1)
        tr = [([(0, 1)], [(2 + i, 1) for i in range(n)], [])]
        for i in range(n):
            tr.append(([(2 + i, 1)], [(2 + n + i, 1)], []))
        tr.append(([(2 + n + i, 1) for i in range(n)], [(1, 1)], []))
        if rnd.random() < 0.5:
            tr.append(([(1, 1)], [(0, 1)], []))
        net = Net(np, m0, tr)
    return net


def process_net(rnd, inh=True):
    """Sequential processes (one token walking through locations each) that share
    buffers and resources and sometimes synchronise: the shape of most models."""
    m0, trans, procs = [], [], []
    for _ in range(rnd.choice([1, 2, 2, 2, 3, 3])):
        k = rnd.randint(2, 4)
        locs = list(range(len(m0), len(m0) + k))
        m0 += [1] + [0] * (k - 1)
        procs.append(locs)
    nb = rnd.randint(0, 3)
    bufs = list(range(len(m0), len(m0) + nb))
    m0 += [rnd.choice([0, 0, 1, 2]) for _ in range(nb)]
    for locs in procs:
        k = len(locs)
        for i in range(k):
            for _ in range(rnd.choice([1, 1, 1, 2])):
                j = (i + 1) % k if rnd.random() < 0.65 else rnd.randrange(k)
                pre, post, ih = [(locs[i], 1)], [(locs[j], 1)], []
                r = rnd.random()
                if bufs and r < 0.3:
                    pre.append((rnd.choice(bufs), rnd.choice([1, 1, 1, 2])))
                elif bufs and r < 0.6:
                    post.append((rnd.choice(bufs), rnd.choice([1, 1, 1, 2])))
                elif inh and bufs and r < 0.68:
                    ih.append((rnd.choice(bufs), rnd.choice([1, 1, 2])))
                elif r < 0.74:
                    post = post[1:]          # the process ends
                trans.append([pre, post, ih])
        if rnd.random() < 0.3 and k > 2:     # a location without a way on
            l = rnd.choice(locs[1:])
            trans = [t for t in trans if t[0][0][0] != l]
    if len(procs) > 1 and rnd.random() < 0.5 and len(trans) > 1:   # synchronisation
        a, b = rnd.sample(trans, 2)
        if a[0][0][0] != b[0][0][0]:
            merged = [dict(), dict(), dict()]
            for t in (a, b):
                for s in range(3):
                    for p, w in t[s]:
                        merged[s][p] = merged[s].get(p, 0) + w
            c = [list(x.items()) for x in merged]
            if not set(merged[2]) & (set(merged[0]) | set(merged[1])):
                trans.append(c)
                if rnd.random() < 0.7:
                    trans.remove(a)
                    trans.remove(b)
    if rnd.random() < 0.3:
        for t in rnd.sample(trans, min(len(trans), 2)):  # a middle step
            q = len(m0)
            m0.append(0)
            trans.append([[(q, 1)], t[1], []])
            t[1] = [(q, 1)]
    if rnd.random() < 0.2:
        m0[rnd.randrange(len(m0))] += 1
    if not trans:
        return process_net(rnd, inh)
    return Net(len(m0), m0, [tuple(t) for t in trans])


SCALES = [3, 10, 100, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 70000, 1000000]


def gen_any(rnd, cap=100, big=True, wide=True, **kw):
    """A net from one of the families; .R holds its reachable markings."""
    r = rnd.random()
    if r < 0.12:
        while True:
            n = family(rnd)
            R = n.explore(cap)
            if R is not None:
                n.R = R
                if rnd.random() < 0.5:
                    n = permute(n, rnd)
                    n.R = n.explore(cap)
                return n
    if wide and r < 0.22:
        while True:
            k = rnd.choice([2, 2, 3, 3, 5, 9])
            parts = [gen_net(rnd, cap=max(3, int(cap ** (1.0 / min(k, 3)))), minstates=1, **kw) for _ in range(k)]
            if rnd.random() < 0.4:   # many empty places in between
                parts.append(Net(rnd.randint(1, 40), [0] * 41, [((), (), ())][:0]))
                parts[-1].m0 = [0] * parts[-1].np
            n = union(parts)
            if rnd.random() < 0.6:
                n = permute(n, rnd)
            R = n.explore(cap)
            if R is not None and n.nt:
                n.R = R
                return n
    if r < 0.42:
        while True:
            n = process_net(rnd, inh=kw.get("inh", True) and rnd.random() < 0.4)
            R = n.explore(cap)
            if R is not None and len(R) > 2:
                if rnd.random() < 0.4:
                    n = permute(n, rnd)
                    R = n.explore(cap)
                n.R = R
                return n
    n = gen_net(rnd, cap=cap, **kw)
    if big and rnd.random() < 0.12:
        n = scale(n, rnd.choice(SCALES))
        if max(max(m) for m in n.R) * n.np > 2 ** 27:
            return gen_net(rnd, cap=cap, **kw)
        n.big = True
    return n
