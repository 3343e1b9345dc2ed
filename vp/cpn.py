"""Coloured nets: representation (see spec/CPN.tla), random generation, PNML output.

The Python unfolding below only *chooses* inputs with small state spaces; the oracle is spec/CPN.tla.
"""
import itertools
from . import net as N


class CPN:
    """types: list of dict(k,n|c, name, kind, cols); vars: list of (name, type); places: (name, type);
    m0: arc expressions; trans: dict(name, vs, g, pre, post, inh) – all indexes 1-based in expressions"""

    def __init__(self):
        self.types, self.vars, self.places, self.m0, self.trans = [], [], [], [], []

    @property
    def np(self): return len(self.places)
    @property
    def nt(self): return len(self.trans)
    @property
    def pnames(self): return [p[0] for p in self.places]
    @property
    def tnames(self): return [t["name"] for t in self.trans]

    def json(self):
        ty = [dict(k="s", n=t["n"]) if t["k"] == "s" else dict(k="p", c=t["c"]) for t in self.types]
        return dict(types=ty, vars=[v[1] for v in self.vars], places=[p[1] for p in self.places], m0=self.m0,
                    trans=[dict(vs=t["vs"], g=t["g"], pre=[dict(p=p, e=e) for p, e in t["pre"]],
                                post=[dict(p=p, e=e) for p, e in t["post"]], inh=[list(x) for x in t["inh"]]) for t in self.trans])

    # ---- choosing: a plain unfolding
    def colors(self, t):
        T = self.types[t - 1]
        if T["k"] == "s":
            return [(i,) for i in range(T["n"])]
        return list(itertools.product(*[range(self.types[c - 1]["n"]) for c in T["c"]]))

    def cval(self, e, b):
        o = e["o"]
        if o == "var": return b[e["v"]]
        if o == "con": return tuple(e["c"])
        if o == "tup": return tuple(self.cval(x, b)[0] for x in e["a"])
        n = self.types[e["t"] - 1]["n"]
        return ((self.cval(e["a"], b)[0] + (1 if o == "succ" else n - 1)) % n,)

    def guard(self, g, b):
        o = g["o"]
        if o == "true": return True
        if o == "and": return all(self.guard(x, b) for x in g["a"])
        if o == "or": return any(self.guard(x, b) for x in g["a"])
        if o == "not": return not self.guard(g["a"][0], b)
        l, r = self.cval(g["l"], b), self.cval(g["r"], b)
        return dict(eq=l == r, ne=l != r, lt=l < r, le=l <= r, gt=l > r, ge=l >= r)[o]

    def mval(self, e, b, t):
        o = e["o"]
        if o == "none": return {}
        if o == "num": return {self.cval(e["c"], b): e["k"]}
        if o == "all": return {c: e["k"] for c in self.colors(t)}
        if o == "tall":
            cs = [[c[0] for c in self.colors(x["t"])] if x["o"] == "all" else [self.cval(x, b)[0]] for x in e["a"]]
            return {c: e["k"] for c in itertools.product(*cs)}
        if o == "add":
            r = {}
            for x in e["a"]:
                for c, k in self.mval(x, b, t).items():
                    r[c] = r.get(c, 0) + k
            return r
        if o == "sub":
            l, r = self.mval(e["a"][0], b, t), self.mval(e["a"][1], b, t)
            return {c: max(0, k - r.get(c, 0)) for c, k in l.items()}
        return {c: k * e["k"] for c, k in self.mval(e["a"][0], b, t).items()}

    def unfold(self, maxmodes=3000):
        ix = {}
        m0 = []
        for p, (name, t) in enumerate(self.places, 1):
            ms = self.mval(self.m0[p - 1], {}, t)
            for c in self.colors(t):
                ix[p, c] = len(m0); m0.append(ms.get(c, 0))
        tot = {}
        for t in self.trans:
            for p, w in t["inh"]:
                if p not in tot:
                    tot[p] = len(m0); m0.append(sum(self.mval(self.m0[p - 1], {}, self.places[p - 1][1]).values()))
        out = []
        self.modes = []
        for ti, t in enumerate(self.trans):
            dom = [self.colors(self.vars[v - 1][1]) for v in t["vs"]]
            k = 1
            for d in dom: k *= len(d)
            if k + len(out) > maxmodes: return None
            for cs in itertools.product(*dom):
                b = dict(zip(t["vs"], cs))
                if not self.guard(t["g"], b): continue

                def arcs(l):
                    r = {}
                    for p, e in l:
                        for c, k in self.mval(e, b, self.places[p - 1][1]).items():
                            if k:
                                r[ix[p, c]] = r.get(ix[p, c], 0) + k
                                if p in tot: r[tot[p]] = r.get(tot[p], 0) + k
                    return sorted(r.items())
                out.append((arcs(t["pre"]), arcs(t["post"]), [(tot[p], w) for p, w in t["inh"]]))
                self.modes.append((ti + 1, b))
        self.ix = ix
        u = N.Net(len(m0), m0, out)
        u.groups = {p: [ix[p, c] for c in self.colors(t)] for p, (_, t) in enumerate(self.places, 1)}
        return u

    def counts0(self):
        return [sum(self.mval(e, {}, t).values()) for e, (_, t) in zip(self.m0, self.places)]

    # ---- PNML
    def cxml(self, e):
        o = e["o"]
        if o == "var": return '<variable refvariable="%s"/>' % self.vars[e["v"] - 1][0]
        if o == "con": return self.conxml(e["t"], e["c"])
        if o == "succ": return "<successor><subterm>%s</subterm></successor>" % self.cxml(e["a"])
        if o == "pred": return "<predecessor><subterm>%s</subterm></predecessor>" % self.cxml(e["a"])
        if o == "all": return '<all><usersort declaration="%s"/></all>' % self.types[e["t"] - 1]["name"]
        return "<tuple>%s</tuple>" % "".join("<subterm>%s</subterm>" % self.cxml(x) for x in e["a"])

    def conxml(self, t, c):
        T = self.types[t - 1]
        if T["k"] == "p":
            return "<tuple>%s</tuple>" % "".join("<subterm>%s</subterm>" % self.conxml(x, (v,)) for x, v in zip(T["c"], c))
        if T["kind"] == "dot": return "<dotconstant/>"
        if T["kind"] == "range":
            return '<finiteintrangeconstant value="%d"><finiteintrange start="%d" end="%d"/></finiteintrangeconstant>' % (T["start"] + c[0], T["start"], T["start"] + T["n"] - 1)
        return '<useroperator declaration="%s"/>' % T["cols"][c[0]]

    def gxml(self, g, alt=False):
        o = g["o"]
        st = lambda x: "<subterm>%s</subterm>" % x
        if o in ("and", "or", "not"):
            return "<%s>%s</%s>" % (o, "".join(st(self.gxml(x)) for x in g["a"]), o)
        n = dict(eq="equality", ne="inequality", lt="lessthan", le="lessthanorequal", gt="greaterthan", ge="greaterthanorequal")[o]
        return "<%s>%s%s</%s>" % (n, st(self.cxml(g["l"])), st(self.cxml(g["r"])), n)

    def mxml(self, e):
        o = e["o"]
        num = lambda k: '<subterm><numberconstant value="%d"><positive/></numberconstant></subterm>' % k
        st = lambda x: "<subterm>%s</subterm>" % x
        if o == "num": 
            if e["k"] == 1 and e.get("bare") and e["c"]["o"] == "tup":
                return self.cxml(e["c"])
            return "<numberof>%s%s</numberof>" % (num(e["k"]), st(self.cxml(e["c"])))
        if o == "all":
            a = '<all><usersort declaration="%s"/></all>' % self.types[e["t"] - 1]["name"]
            if e["k"] == 1 and e.get("bare"): return a
            return "<numberof>%s%s</numberof>" % (num(e["k"]), st(a))
        if o == "tall":
            if e["k"] == 1 and e.get("bare"): return self.cxml(dict(o="tup", a=e["a"]))
            return "<numberof>%s%s</numberof>" % (num(e["k"]), st(self.cxml(dict(o="tup", a=e["a"]))))
        if o == "add": return "<add>%s</add>" % "".join(st(self.mxml(x)) for x in e["a"])
        if o == "sub": return "<subtract>%s</subtract>" % "".join(st(self.mxml(x)) for x in e["a"])
        return "<scalarproduct>%s%s</scalarproduct>" % (num(e["k"]), st(self.mxml(e["a"][0])))

    def pnml(self, rnd=None):
        d = []
        for T in self.types:
            if T["k"] == "p":
                b = "<productsort>%s</productsort>" % "".join('<usersort declaration="%s"/>' % self.types[c - 1]["name"] for c in T["c"])
            elif T["kind"] == "dot": b = "<dot/>"
            elif T["kind"] == "range": b = '<finiteintrange start="%d" end="%d"/>' % (T["start"], T["start"] + T["n"] - 1)
            else:
                el = T["kind"]
                b = "<%s>%s</%s>" % (el, "".join('<feconstant id="%s" name="%s"/>' % (c, c) for c in T["cols"]), el)
            d.append('<namedsort id="%s" name="%s">%s</namedsort>' % (T["name"], T["name"], b))
        for n, t in self.vars:
            d.append('<variabledecl id="%s" name="%s"><usersort declaration="%s"/></variabledecl>' % (n, n, self.types[t - 1]["name"]))
        o = []
        for (n, t), m in zip(self.places, self.m0):
            mk = "" if m["o"] == "none" else "<hlinitialMarking><text>x</text><structure>%s</structure></hlinitialMarking>" % self.mxml(m)
            o.append('<place id="%s"><name><text>%s</text></name><type><text>x</text><structure><usersort declaration="%s"/></structure></type>%s</place>' % (n, n, self.types[t - 1]["name"], mk))
        for t in self.trans:
            g = "" if t["g"]["o"] == "true" else "<condition><text>x</text><structure>%s</structure></condition>" % self.gxml(t["g"])
            o.append('<transition id="%s"><name><text>%s</text></name>%s</transition>' % (t["name"], t["name"], g))
        k = 0
        for t in self.trans:
            for l, inp in ((t["pre"], True), (t["post"], False)):
                for p, e in l:
                    k += 1
                    s, u = (self.places[p - 1][0], t["name"]) if inp else (t["name"], self.places[p - 1][0])
                    o.append('<arc id="a%d" source="%s" target="%s"><hlinscription><text>x</text><structure>%s</structure></hlinscription></arc>' % (k, s, u, self.mxml(e)))
            for p, w in t["inh"]:
                k += 1
                o.append('<arc id="a%d" source="%s" target="%s" type="inhibitor"><inscription><text>%d</text></inscription></arc>' % (k, self.places[p - 1][0], t["name"], w))
        return ('<?xml version="1.0"?>\n<pnml xmlns="http://www.pnml.org/version-2009/grammar/pnml">'
                '<net id="n" type="http://www.pnml.org/version-2009/grammar/symmetricnet"><name><text>n</text></name>'
                '<declaration><structure><declarations>%s</declarations></structure></declaration><page id="page">\n%s\n</page></net></pnml>\n'
                % ("\n".join(d), "\n".join(o)))


# ------------------------------------------------------------------ generation
def gen_color(rnd, C, t, vs, depth=1):
    """colour expression of type t using variables vs (indexes)"""
    T = C.types[t - 1]
    mine = [v for v in vs if C.vars[v - 1][1] == t]
    if T["k"] == "p":
        if mine and rnd.random() < 0.6:
            return dict(o="var", v=rnd.choice(mine))
        if rnd.random() < 0.15:
            return dict(o="con", t=t, c=list(rnd.choice(C.colors(t))))
        return dict(o="tup", a=[gen_color(rnd, C, c, vs) for c in T["c"]])
    r = rnd.random()
    if mine and r < 0.65:
        return dict(o="var", v=rnd.choice(mine))
    if mine and r < 0.85 and depth and T["kind"] != "dot":
        return dict(o=rnd.choice(["succ", "pred"]), t=t, a=gen_color(rnd, C, t, mine, depth - (rnd.random() < 0.7)))
    return dict(o="con", t=t, c=[rnd.randrange(T["n"])])


def gen_ms(rnd, C, t, vs, depth=1, big=False):
    T = C.types[t - 1]
    r = rnd.random()
    if depth and r < 0.14:
        return dict(o="add", a=[gen_ms(rnd, C, t, vs, depth - 1) for _ in range(rnd.choice([2, 2, 3]))])
    if depth and r < 0.19:
        nc = len(C.colors(t))  # an arc never evaluates to the empty multiset
        base = dict(o="all", t=t, k=2 if nc < 2 else rnd.choice([1, 2]) if nc < 7 else 1)
        return dict(o="sub", a=[base, dict(o="num", k=1, c=gen_color(rnd, C, t, vs))])
    if depth and r < 0.22:
        return dict(o="scal", k=rnd.choice([1, 2]), a=[gen_ms(rnd, C, t, vs, 0)])
    if r < (0.28 if T["n"] <= 4 else 0.23) or (big and r < 0.5):
        if T["k"] == "p" and rnd.random() < 0.6:
            a = [dict(o="all", t=c) if rnd.random() < 0.5 else gen_color(rnd, C, c, vs) for c in T["c"]]
            if any(x["o"] == "all" for x in a):
                return dict(o="tall", k=1, a=a, bare=rnd.random() < 0.5)
        return dict(o="all", t=t, k=1, bare=rnd.random() < 0.5)
    return dict(o="num", k=rnd.choice([1, 1, 1, 1, 1, 2]), c=gen_color(rnd, C, t, vs), bare=rnd.random() < 0.3)


def gen_guard(rnd, C, vs, depth=2):
    r = rnd.random()
    if depth and r < 0.45:
        o = rnd.choice(["and", "or", "and", "or", "not"])
        return dict(o=o, a=[gen_guard(rnd, C, vs, depth - 1) for _ in range(1 if o == "not" else rnd.choice([2, 2, 3]))])
    v = rnd.choice(vs)
    t = C.vars[v - 1][1]
    T = C.types[t - 1]
    l = dict(o="var", v=v)
    if T["k"] == "p":
        return dict(o=rnd.choice(["eq", "ne"]), l=l, r=gen_color(rnd, C, t, vs))
    if rnd.random() < 0.25 and T["kind"] != "dot":
        l = dict(o=rnd.choice(["succ", "pred"]), t=t, a=l)
    rr = gen_color(rnd, C, t, vs)
    if rnd.random() < 0.3:
        l, rr = rr, l
    return dict(o=rnd.choice(["eq", "ne", "lt", "le", "gt", "ge"]), l=l, r=rr)


def used_vars(e, acc):
    if isinstance(e, dict):
        if e.get("o") == "var": acc.add(e["v"])
        for x in e.values(): used_vars(x, acc)
    elif isinstance(e, (list, tuple)):
        for x in e: used_vars(x, acc)
    return acc


def raw_cpn(rnd, inh=True, prods=True, maxp=5, maxt=5, kwprodguard=False):
    C = CPN()
    ns = rnd.choice([1, 1, 2, 2, 3])
    for i in range(ns):
        kind = rnd.choice(["cyclicenumeration"] * 5 + ["finiteenumeration"] + ["range"] * 2 + (["dot"] if i else []))
        if kind == "dot":
            if any(t["kind"] == "dot" for t in C.types): kind = "cyclicenumeration"
        n = 1 if kind == "dot" else rnd.choice([1, 2, 2, 3, 3, 4, 5, 6])
        T = dict(k="s", n=n, kind=kind, name="dot" if kind == "dot" else "T%d" % i)
        if kind == "range": T["start"] = rnd.choice([0, 1, 3]) + 10 * i
        T["cols"] = ["c%d_%d" % (i, j) for j in range(n)]
        C.types.append(T)
    if prods and rnd.random() < 0.45:
        seen = set()
        for j in range(rnd.choice([1, 1, 2])):
            c = [rnd.randrange(ns) + 1 for _ in range(rnd.choice([2, 2, 2, 3]))]
            n = 1
            for x in c: n *= C.types[x - 1]["n"]
            if tuple(c) in seen or n > 16: continue
            seen.add(tuple(c))
            C.types.append(dict(k="p", c=c, name="P%d" % j, kind="prod", n=n, cols=[]))
    for t, T in enumerate(C.types, 1):
        k = rnd.choice([1, 2, 2, 3]) if T["k"] == "s" else rnd.choice([0, 0, 0, 1])
        for j in range(k):
            C.vars.append(("v%d_%d" % (t, j), t))
    np = rnd.randint(2, maxp)
    for p in range(np):
        t = rnd.randrange(len(C.types)) + 1
        C.places.append(("p%d" % p, t))
        if rnd.random() < 0.62 or p == 0:
            C.m0.append(gen_ms(rnd, C, t, [], depth=2, big=True))
        else:
            C.m0.append(dict(o="none"))
    for i in range(rnd.randint(1, maxt)):
        allv = list(range(1, len(C.vars) + 1))
        vs = rnd.sample(allv, min(len(allv), rnd.choice([1, 2, 2, 3])))
        pre, post, inhb = [], [], []
        ps = list(range(1, np + 1))
        for p in rnd.sample(ps, rnd.choice([1, 1, 2, 2, min(3, np)]) if np > 1 else 1):
            pre.append((p, gen_ms(rnd, C, C.places[p - 1][1], vs)))
        outv = sorted(used_vars([e for _, e in pre], set())) or vs
        if rnd.random() < 0.2: outv = vs
        for p in rnd.sample(ps, min(np, max(0, len(pre) + rnd.choice([-1, 0, 0, 0, 1])))):
            post.append((p, gen_ms(rnd, C, C.places[p - 1][1], outv)))
        if rnd.random() < 0.12 and pre:                                   # read arc
            p, e = rnd.choice(pre)
            if all(q != p for q, _ in post): post.append((p, e))
        if inh and rnd.random() < 0.12:
            cand = [p for p in ps if all(q != p for q, _ in pre)]
            if cand: inhb.append((rnd.choice(cand), rnd.choice([1, 1, 2, 3])))
        gv = sorted(used_vars([e for _, e in pre + post], set()))
        if rnd.random() < 0.1: gv = sorted(set(gv) | set(vs))
        if not kwprodguard:
            gv = [v for v in gv if C.types[C.vars[v - 1][1] - 1]["k"] == "s"]
        g = gen_guard(rnd, C, gv) if gv and rnd.random() < 0.5 else dict(o="true")
        used = sorted(used_vars([[e for _, e in pre + post], g], set()))
        C.trans.append(dict(name="t%d" % i, vs=used, g=g, pre=pre, post=post, inh=inhb))
    return C


def grow(rnd, C):
    """adds parts that the coloured structural reductions look for"""
    import copy
    for _ in range(rnd.choice([1, 2, 2, 3])):
        if len(C.places) >= 8 or len(C.trans) >= 8:
            return
        r = rnd.random()
        p = rnd.randrange(len(C.places)) + 1
        t = C.places[p - 1][1]
        n = len(C.places) + 1
        mine = [i for i, (_, vt) in enumerate(C.vars, 1) if vt == t]
        if r < 0.35 and mine:                                   # a pass-through place in front of p
            C.places.append(("p%d" % (n - 1), t))
            C.m0.append(dict(o="none") if rnd.random() < 0.7 else gen_ms(rnd, C, t, [], depth=1))
            moved = False
            for tr in C.trans:
                for i, (q, e) in enumerate(tr["post"]):
                    if q == p and not moved and rnd.random() < 0.8:
                        if rnd.random() < 0.6:
                            vs = sorted(used_vars([x for _, x in tr["pre"]], set()) & set(mine)) or mine
                            e = dict(o="num", k=rnd.choice([1, 1, 2, 2, 3]), c=dict(o="var", v=rnd.choice(vs)))
                            tr["vs"] = sorted(set(tr["vs"]) | used_vars(e, set()))
                        tr["post"][i] = (n, e)
                        moved = rnd.random() < 0.6
            v = dict(o="var", v=rnd.choice(mine))
            k = rnd.choice([1, 1, 1, 1, 2])
            out = dict(o="num", k=k, c=v) if rnd.random() < 0.7 else gen_ms(rnd, C, t, [v["v"]])
            C.trans.append(dict(name="t%d" % len(C.trans), vs=[v["v"]], g=dict(o="true") if rnd.random() < 0.8 else gen_guard(rnd, C, [v["v"]]) if C.types[t - 1]["k"] == "s" else dict(o="true"),
                                pre=[(n, dict(o="num", k=k, c=v))], post=[(p, out)], inh=[]))
        elif r < 0.5:                                           # a parallel place
            C.places.append(("p%d" % (n - 1), t))
            C.m0.append(copy.deepcopy(C.m0[p - 1]) if rnd.random() < 0.7 else gen_ms(rnd, C, t, [], depth=1, big=True))
            for tr in C.trans:
                for l in (tr["pre"], tr["post"]):
                    for q, e in list(l):
                        if q == p and rnd.random() < 0.95:
                            l.append((n, e))
        elif r < 0.65 and C.trans:                              # a parallel transition
            tr = copy.deepcopy(rnd.choice(C.trans))
            tr["name"] = "t%d" % len(C.trans)
            C.trans.append(tr)
        elif r < 0.8:                                           # a loop place
            C.places.append(("p%d" % (n - 1), t))
            C.m0.append(dict(o="all", t=t, k=rnd.choice([1, 2])) if rnd.random() < 0.8 else dict(o="none"))
            for tr in C.trans:
                if rnd.random() < 0.6:
                    e = gen_ms(rnd, C, t, tr["vs"], depth=0)
                    if not used_vars(e, set()) <= set(tr["vs"]): continue
                    tr["pre"].append((n, e))
                    tr["post"].append((n, e if rnd.random() < 0.85 else dict(o="add", a=[e, e])))
        elif r < 0.9 and mine:                                  # a marked place with one plain consumer
            C.places.append(("p%d" % (n - 1), t))
            C.m0.append(gen_ms(rnd, C, t, [], depth=1, big=True))
            e = dict(o="num", k=1, c=dict(o="var", v=rnd.choice(mine)))
            C.trans.append(dict(name="t%d" % len(C.trans), vs=[e["c"]["v"]], g=dict(o="true"), pre=[(n, e)], post=[(p, e)], inh=[]))
        elif mine:                                              # an unmarked place with consumers (dead transitions)
            C.places.append(("p%d" % (n - 1), t))
            C.m0.append(dict(o="none"))
            e = dict(o="num", k=1, c=dict(o="var", v=rnd.choice(mine)))
            C.trans.append(dict(name="t%d" % len(C.trans), vs=[e["c"]["v"]], g=dict(o="true"), pre=[(n, e), (p, e)], post=[(p, e)] if rnd.random() < 0.5 else [(n, e)], inh=[]))


def sums(rnd, C):
    """adds a transition that takes a sum of variables of one sort from a place and puts them
    back as a sum, as tuples, or otherwise (what variable symmetry is about)"""
    for _ in range(rnd.choice([1, 1, 2])):
        cand = [p for p, (_, t) in enumerate(C.places, 1) if C.types[t - 1]["k"] == "s" and C.types[t - 1]["n"] > 1]
        if not cand or len(C.trans) > 7:
            return
        p = rnd.choice(cand)
        t = C.places[p - 1][1]
        mine = [i for i, (_, vt) in enumerate(C.vars, 1) if vt == t]
        while len(mine) < 2:
            C.vars.append(("w%d" % len(C.vars), t))
            mine.append(len(C.vars))
        vs = rnd.sample(mine, rnd.choice([2, 2, min(3, len(mine))]))
        k = rnd.choice([1, 1, 1, 2])

        def total(l, twist):
            e = [dict(o="num", k=k, c=dict(o="var", v=v), bare=rnd.random() < 0.3) for v in l]
            if rnd.random() < twist:
                x = rnd.choice(e)
                r = rnd.random()
                if r < 0.4:
                    x["c"] = dict(o=rnd.choice(["succ", "pred"]), t=t, a=x["c"])
                elif r < 0.7:
                    x["k"] += 1
                else:
                    e.append(dict(x))
            return dict(o="add", a=e)
        pre, post = [(p, total(vs, 0.2))], []
        prod = [q for q, (_, u) in enumerate(C.places, 1) if C.types[u - 1]["k"] == "p" and t in C.types[u - 1]["c"]]
        prodt = [i for i, u in enumerate(C.types, 1) if u["k"] == "p" and t in u["c"]]
        same = [q for q in cand if C.places[q - 1][1] == t]
        r = rnd.random()
        if r < 0.4 and not prod and len(C.places) < 8:
            if not prodt and C.types[t - 1]["n"] <= 4:
                C.types.append(dict(k="p", c=[t, t], name="P%d" % len(C.types), kind="prod", n=C.types[t - 1]["n"] ** 2, cols=[]))
                prodt = [len(C.types)]
            if prodt:
                C.places.append(("p%d" % len(C.places), rnd.choice(prodt)))
                C.m0.append(dict(o="none"))
                prod = [len(C.places)]
        if r < 0.4 and prod:
            q = rnd.choice(prod)
            e = [dict(o="num", k=1, c=dict(o="tup", t=C.places[q - 1][1], a=[dict(o="var", v=rnd.choice(vs)) if c == t else gen_color(rnd, C, c, []) for c in C.types[C.places[q - 1][1] - 1]["c"]])) for _ in range(rnd.choice([1, 1, 2]))]
            post.append((q, e[0] if len(e) == 1 else dict(o="add", a=e)))
            if rnd.random() < 0.7:                    # something that tells the tuples apart
                C.trans.append(dict(name="t%d" % len(C.trans), vs=[], g=dict(o="true"), pre=[(q, dict(o="num", k=1, c=gen_color(rnd, C, C.places[q - 1][1], [])))],
                                    post=[] if rnd.random() < 0.6 else [(p, dict(o="num", k=1, c=gen_color(rnd, C, t, [])))], inh=[]))
        elif r < 0.9:
            post.append((rnd.choice(same), total(vs if rnd.random() < 0.8 else vs[1:] or vs, 0.4)))
        if rnd.random() < 0.3:
            q = rnd.choice(same)
            if all(q != x for x, _ in pre):
                pre.append((q, total(rnd.sample(mine, 2), 0)))
        if rnd.random() < 0.3:
            q = rnd.choice(same)
            if all(q != x for x, _ in post):
                post.append((q, gen_ms(rnd, C, t, vs)))
        used = sorted(used_vars([e for _, e in pre + post], set()))
        C.trans.append(dict(name="t%d" % len(C.trans), vs=used, g=dict(o="true") if rnd.random() < 0.9 else gen_guard(rnd, C, vs), pre=pre, post=post, inh=[]))


def gen_cpn(rnd, cap=150, minstates=2, grown=0, summed=0.15, **kw):
    for _ in range(400):
        C = raw_cpn(rnd, **kw)
        if rnd.random() < summed:
            sums(rnd, C)
        if grown and rnd.random() < grown:
            grow(rnd, C)
        u = C.unfold(maxmodes=400)
        if u is None or u.np > 60: continue
        R = u.explore(cap, 60)
        if R is None or len(R) < minstates: continue
        if len(R) < 5 and rnd.random() < 0.8: continue
        C.u, C.edges = u, u.edges
        C.R = set(tuple(sum(m[i] for i in u.groups[p]) for p in range(1, C.np + 1)) for m in R)
        C.nstates = len(R)
        return C
    return None
