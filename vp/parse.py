"""Reading nets and queries that verifypn wrote."""
import xml.etree.ElementTree as ET
from . import net as N, query as Q


def tag(e):
    return e.tag.rsplit("}", 1)[-1]


def text(e, *path):
    for p in path:
        e = next((x for x in e if tag(x) == p), None)
        if e is None:
            return None
    return (e.text or "").strip()


def read_net(s):
    """A P/T net (as in net.Net) from PNML."""
    root = ET.fromstring(s)
    ps, ts, arcs = {}, {}, []
    m0, players = [], []
    for e in root.iter():
        k = tag(e)
        if k == "place":
            ps[e.get("id")] = len(ps)
            m0.append(int(text(e, "initialMarking", "text") or 0))
        elif k == "transition":
            ts[e.get("id")] = len(ts)
            players.append(1 if e.get("player") == "1" or (text(e, "player", "value") == "1") else 0)
        elif k == "arc":
            arcs.append((e.get("source"), e.get("target"), int(text(e, "inscription", "text") or 1), e.get("type") == "inhibitor"))
        elif k == "inhibitorArc":
            arcs.append((e.get("source"), e.get("target"), int(text(e, "inscription", "text") or 1), True))
    tr = [([], [], []) for _ in ts]

    def add(l, p, w):
        for i, (q, v) in enumerate(l):
            if q == p:
                l[i] = (p, v + w)
                return
        l.append((p, w))
    for a, b, w, inh in arcs:
        if a in ps:
            add(tr[ts[b]][2 if inh else 0], ps[a], w)
        else:
            if inh or a not in ts:
                raise ValueError("bad arc %s -> %s" % (a, b))
            add(tr[ts[a]][1], ps[b], w)
    n = N.Net(len(ps), m0, tr, pnames=list(ps), tnames=list(ts), players=players)
    return n


CMP = {v: k for k, v in Q.CMP.items()}


def read_expr(e, pi):
    k = tag(e)
    if k == "integer-constant":
        return Q.C(int(e.text))
    if k == "tokens-count":
        l = [Q.P(pi[x.text.strip()] + 1) for x in e]
        if not l:
            return Q.C(0)
        return l[0] if len(l) == 1 else dict(o="+", a=l)
    o = {"integer-sum": "+", "integer-product": "*", "integer-difference": "-"}[k]
    l = [read_expr(x, pi) for x in e]
    if len(l) == 1 and o != "-":
        return l[0]
    return dict(o=o, a=l)


def read_formula(e, pi, ti):
    k = tag(e)
    sub = lambda i=0: read_formula(e[i], pi, ti)
    if k in ("true", "false"):
        return dict(o=k)
    if k == "deadlock":
        return Q.Dead()
    if k in CMP:
        return Q.Cmp(CMP[k], read_expr(e[0], pi), read_expr(e[1], pi))
    if k == "is-fireable":
        return Q.Fireable([ti[x.text.strip()] + 1 for x in e])
    if k == "negation":
        return Q.Not(sub())
    if k in ("conjunction", "disjunction"):
        l = [read_formula(x, pi, ti) for x in e]
        if len(l) == 1:
            return l[0]
        return dict(o="and" if k == "conjunction" else "or", a=l)
    path = {"next": "X", "finally": "F", "globally": "G"}
    if k in path:
        return Q.Un(path[k], sub())
    if k == "until":
        return Q.Bin("U", read_formula(e[0][0], pi, ti), read_formula(e[1][0], pi, ti))
    if k in ("exists-path", "all-paths"):
        return Q.Un("E" if k == "exists-path" else "A", sub())
    raise ValueError("unexpected element %s" % k)


def to_ctl(f):
    """E(F(x)) -> EF(x) and so on."""
    if f["o"] in ("E", "A"):
        b = f["a"][0]
        if b["o"] in ("X", "F", "G", "U"):
            return dict(o=f["o"] + b["o"], a=[to_ctl(x) for x in b["a"]])
        if b["o"] in ("true", "false") or not Q.is_temporal(b):
            return to_ctl(b)          # a path quantifier over a proposition
        raise ValueError("not CTL: %s" % f)
    if "a" in f and "o" in f and f["o"] in ("not", "and", "or"):
        return dict(o=f["o"], a=[to_ctl(x) for x in f["a"]])
    return f


def read_queries(s, net, kind):
    """[(id, formula or list of places)] from an XML query file."""
    root = ET.fromstring(s)
    pi = {n: i for i, n in enumerate(net.pnames)}
    ti = {n: i for i, n in enumerate(net.tnames)}
    out = []
    for pr in root:
        fe = next(x for x in pr if tag(x) == "formula")[0]
        if kind == "bounds":
            if tag(fe) == "place-bound":
                out.append((text(pr, "id"), [pi[x.text.strip()] + 1 for x in fe]))
            else:
                out.append((text(pr, "id"), None))
            continue
        f = read_formula(fe, pi, ti)
        out.append((text(pr, "id"), to_ctl(f) if kind == "ctl" else f))
    return out
