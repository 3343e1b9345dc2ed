"""Formulas (records shared with the TLA+ specification), random generation and XML output."""

CMP = {"<=": "integer-le", "<": "integer-lt", ">=": "integer-ge", ">": "integer-gt", "=": "integer-eq", "!=": "integer-ne"}


def T(): return dict(o="true")
def F(): return dict(o="false")
def Not(a): return dict(o="not", a=[a])
def And(*a): return dict(o="and", a=list(a))
def Or(*a): return dict(o="or", a=list(a))
def Un(op, a): return dict(o=op, a=[a])
def Bin(op, a, b): return dict(o=op, a=[a, b])
def Dead(): return dict(o="dead")
def Fireable(ts): return dict(o="fire", t=list(ts))          # 1-based transitions
def C(v): return dict(o="c", v=v)
def P(p): return dict(o="p", p=p)                            # 1-based place
def Cmp(op, l, r): return dict(o=op, l=l, r=r)


def expr_xml(e, net):
    o = e["o"]
    if o == "c":
        return "<integer-constant>%d</integer-constant>" % e["v"]
    if o == "p":
        return "<tokens-count><place>%s</place></tokens-count>" % net.pnames[e["p"] - 1]
    tag = {"+": "integer-sum", "*": "integer-product", "-": "integer-difference"}[o]
    if o == "+" and e.get("tc") and all(x["o"] == "p" for x in e["a"]):
        return "<tokens-count>%s</tokens-count>" % "".join("<place>%s</place>" % net.pnames[x["p"] - 1] for x in e["a"])
    return "<%s>%s</%s>" % (tag, "".join(expr_xml(x, net) for x in e["a"]), tag)


def xml(f, net):
    o = f["o"]
    if o == "true":
        return "<true/>"
    if o == "false":
        return "<false/>"
    if o in CMP:
        return "<%s>%s%s</%s>" % (CMP[o], expr_xml(f["l"], net), expr_xml(f["r"], net), CMP[o])
    if o == "fire":
        return "<is-fireable>%s</is-fireable>" % "".join("<transition>%s</transition>" % net.tnames[t - 1] for t in f["t"])
    if o == "dead":
        return "<deadlock/>"
    k = [xml(x, net) for x in f["a"]]
    if o == "not":
        return "<negation>%s</negation>" % k[0]
    if o in ("and", "or", "xor", "imp", "iff"):
        tag = {"and": "conjunction", "or": "disjunction", "xor": "exclusive-disjunction", "imp": "implication", "iff": "equivalence"}[o]
        return "<%s>%s</%s>" % (tag, "".join(k), tag)
    path = {"X": "next", "F": "finally", "G": "globally"}
    if o in path:
        return "<%s>%s</%s>" % (path[o], k[0], path[o])
    if o == "U":
        return "<until><before>%s</before><reach>%s</reach></until>" % (k[0], k[1])
    if o in ("E", "A"):
        tag = "exists-path" if o == "E" else "all-paths"
        return "<%s>%s</%s>" % (tag, k[0], tag)
    if o[0] in "EA":
        tag = "exists-path" if o[0] == "E" else "all-paths"
        if o[1] == "U":
            return "<%s><until><before>%s</before><reach>%s</reach></until></%s>" % (tag, k[0], k[1], tag)
        return "<%s><%s>%s</%s></%s>" % (tag, path[o[1]], k[0], path[o[1]], tag)
    raise ValueError(o)


def bounds_xml(ps, net):
    return "<place-bound>%s</place-bound>" % "".join("<place>%s</place>" % net.pnames[p - 1] for p in ps)


def property_set(items):
    """items: list of (id, formula-xml)"""
    s = ['<?xml version="1.0"?>', '<property-set xmlns="http://mcc.lip6.fr/">']
    for i, x in items:
        s.append("<property><id>%s</id><description>d</description><formula>%s</formula></property>" % (i, x))
    s.append("</property-set>")
    return "\n".join(s)


# ----------------------------------------------------------------- generation

def gen_expr(rnd, net, depth=2, arith=True):
    r = rnd.random()
    if depth == 0 or r < 0.55 or not arith:
        return P(rnd.randint(1, net.np))
    if r < 0.65:
        return C(rnd.randint(0, 4))
    if r < 0.85:
        ps = [P(p + 1) for p in rnd.sample(range(net.np), min(net.np, rnd.randint(2, 3)))]
        if len(ps) < 2:
            return ps[0]
        return dict(o="+", a=ps, tc=1)
    if r < 0.92:
        return dict(o="+", a=[gen_expr(rnd, net, depth - 1) for _ in range(2)])
    if r < 0.97:
        return dict(o="-", a=[gen_expr(rnd, net, depth - 1) for _ in range(rnd.choice([2, 2, 3]))])
    if getattr(net, "big", False):
        return P(rnd.randint(1, net.np))
    return dict(o="*", a=[gen_expr(rnd, net, depth - 1), gen_expr(rnd, net, 0)])


def ev(e, m):
    o = e["o"]
    if o == "c":
        return e["v"]
    if o == "p":
        return m[e["p"] - 1]
    v = [ev(x, m) for x in e["a"]]
    if o == "+":
        return sum(v)
    if o == "*":
        r = 1
        for x in v:
            r *= x
        return r
    return v[0] - sum(v[1:])


def gen_atom(rnd, net, arith=True, dead=True):
    """A state predicate; constants are drawn near values seen in reachable markings
    so that both truth values occur."""
    r = rnd.random()
    if r < 0.27 and net.nt:
        return Fireable([t + 1 for t in rnd.sample(range(net.nt), min(net.nt, rnd.choice([1, 1, 2])))])
    if dead and r < 0.33:
        return Dead()
    if r < 0.36:
        return T() if rnd.random() < 0.5 else F()
    op = rnd.choice(["<=", "<=", "<", ">=", ">=", ">", "=", "!="])
    e = gen_expr(rnd, net, arith=arith)
    if rnd.random() < 0.8:
        v = ev(e, rnd.choice(markings(net))) + rnd.choice([0, 0, 0, 1, -1])
        rhs = C(max(0, v)) if rnd.random() < 0.95 else C(v)
    else:
        rhs = gen_expr(rnd, net, depth=1, arith=arith)
    return Cmp(op, e, rhs) if rnd.random() < 0.75 else Cmp(op, rhs, e)


def markings(net):
    R = getattr(net, "Rlist", None)
    if R is None:
        R = net.Rlist = sorted(net.R)
    return R


def gen_box(rnd, net):
    """A conjunction of bounds on single places aimed at one reachable marking
    (exactly, around it, or just beyond what is reachable), or an invariant that
    holds of all markings except perhaps the extreme ones."""
    R = markings(net)
    ps = rnd.sample(range(net.np), min(net.np, rnd.choice([1, 1, 2, 2, 3, 4])))
    cs = []
    if rnd.random() < 0.5:
        m = rnd.choice(R)
        for p in ps:
            r = rnd.random()
            if r < 0.4:
                cs.append(Cmp("=", P(p + 1), C(m[p])))
            elif r < 0.6:
                cs.append(Cmp(">=", P(p + 1), C(m[p])))
            elif r < 0.8:
                cs.append(Cmp("<=", P(p + 1), C(m[p])))
            elif r < 0.9:
                cs.append(And(Cmp(">=", P(p + 1), C(max(0, m[p] - 1))), Cmp("<=", P(p + 1), C(m[p]))))
            else:
                cs.append(Cmp(rnd.choice([">", "<", "!="]), P(p + 1), C(m[p])))
    else:
        for p in ps:
            lo, hi = min(m[p] for m in R), max(m[p] for m in R)
            lo += rnd.choice([0, 0, 0, 1])
            hi -= rnd.choice([0, 0, 0, 1])
            r = rnd.random()
            if r < 0.6 or lo > hi:
                cs += [Cmp("<=", C(max(0, lo)), P(p + 1)), Cmp("<=", P(p + 1), C(max(0, hi)))]
            elif r < 0.8:
                cs.append(Cmp("<=", C(lo), P(p + 1)))
            else:
                cs.append(Cmp(">=", C(hi), P(p + 1)))
    if rnd.random() < 0.5:
        rnd.shuffle(cs)
    f = cs[0] if len(cs) == 1 else And(*cs)
    return Not(f) if rnd.random() < 0.35 else f


def gen_pred(rnd, net, depth=2, **kw):
    r = rnd.random()
    if rnd.random() < 0.2:
        return gen_box(rnd, net)
    if depth == 0 or r < 0.4:
        return gen_atom(rnd, net, **kw)
    if r < 0.52:
        return Not(gen_pred(rnd, net, depth - 1, **kw))
    if r < 0.74:
        return And(*[gen_pred(rnd, net, depth - 1, **kw) for _ in range(rnd.choice([2, 2, 3]))])
    if r < 0.94:
        return Or(*[gen_pred(rnd, net, depth - 1, **kw) for _ in range(rnd.choice([2, 2, 3]))])
    return Bin(rnd.choice(["xor", "imp", "iff"]), gen_pred(rnd, net, depth - 1, **kw), gen_pred(rnd, net, depth - 1, **kw))


def gen_reach(rnd, net, **kw):
    r = rnd.random()
    f = Un("EF" if rnd.random() < 0.55 else "AG", gen_pred(rnd, net, rnd.choice([0, 1, 2, 2]), **kw))
    if r < 0.1:
        f = Not(f)
    return f


def gen_ctl(rnd, net, depth=3, **kw):
    r = rnd.random()
    if depth == 0 or r < 0.18:
        return gen_pred(rnd, net, rnd.choice([0, 0, 1]), **kw)
    if r < 0.26:
        return Not(gen_ctl(rnd, net, depth - 1, **kw))
    if r < 0.38:
        return And(*[gen_ctl(rnd, net, depth - 1, **kw) for _ in range(2)])
    if r < 0.5:
        return Or(*[gen_ctl(rnd, net, depth - 1, **kw) for _ in range(2)])
    op = rnd.choice(["EX", "AX", "EF", "AF", "EG", "AG", "EU", "AU"])
    if op in ("EU", "AU"):
        return Bin(op, gen_ctl(rnd, net, depth - 1, **kw), gen_ctl(rnd, net, depth - 1, **kw))
    return Un(op, gen_ctl(rnd, net, depth - 1, **kw))


def is_temporal(f):
    return f["o"] in ("EX", "AX", "EF", "AF", "EG", "AG", "EU", "AU", "X", "F", "G", "U") or any(is_temporal(x) for x in f.get("a", []) if isinstance(x, dict) and "o" in x)


def gen_ltl_body(rnd, net, depth=3, budget=None, **kw):
    """temporal operators limited by budget (list of one int)"""
    if budget is None:
        budget = [rnd.choice([1, 2, 3, 3])]
    r = rnd.random()
    if depth == 0 or budget[0] <= 0 or r < 0.12:
        return gen_pred(rnd, net, rnd.choice([0, 0, 1]), **kw)
    if r < 0.2:
        return Not(gen_ltl_body(rnd, net, depth - 1, budget, **kw))
    if r < 0.34:
        return Bin(rnd.choice(["and", "or"]), gen_ltl_body(rnd, net, depth - 1, budget, **kw), gen_ltl_body(rnd, net, depth - 1, budget, **kw))
    op = rnd.choice(["X", "F", "F", "G", "G", "U"])
    budget[0] -= 1
    if op == "U":
        return Bin("U", gen_ltl_body(rnd, net, depth - 1, budget, **kw), gen_ltl_body(rnd, net, depth - 1, budget, **kw))
    return Un(op, gen_ltl_body(rnd, net, depth - 1, budget, **kw))


def number_temporal(f, ctr=None):
    """annotate temporal operators with k = 1.. (needed by LTL.tla)"""
    if ctr is None:
        ctr = [0]
    g = dict(f)
    if f["o"] in ("X", "F", "G", "U"):
        ctr[0] += 1
        g["k"] = ctr[0]
    if "a" in f and f["o"] not in ("+", "-", "*"):
        g["a"] = [number_temporal(x, ctr) for x in f["a"]]
    return g


def show(f):
    o = f["o"]
    if o == "c":
        return str(f["v"])
    if o == "p":
        return "p%d" % (f["p"] - 1)
    if o in ("+", "*", "-"):
        return "(" + (" %s " % o).join(show(x) for x in f["a"]) + ")"
    if o in CMP:
        return "%s %s %s" % (show(f["l"]), o, show(f["r"]))
    if o == "fire":
        return "fireable(%s)" % ",".join("t%d" % (t - 1) for t in f["t"])
    if o == "dead":
        return "deadlock"
    if o in ("true", "false"):
        return o
    return "%s(%s)" % (o, ", ".join(show(x) for x in f["a"]))


def holds(net, m, f):
    """State predicates in Python: used only to select inputs (never to judge)."""
    o = f["o"]
    if o == "true": return True
    if o == "false": return False
    if o in CMP:
        l, r = ev(f["l"], m), ev(f["r"], m)
        return {"<=": l <= r, "<": l < r, ">=": l >= r, ">": l > r, "=": l == r, "!=": l != r}[o]
    if o == "fire":
        return any(net.enabled(m, t - 1) for t in f["t"])
    if o == "dead":
        return not any(net.enabled(m, t) for t in range(net.nt))
    k = [holds(net, m, x) for x in f["a"]]
    if o == "not": return not k[0]
    if o == "and": return all(k)
    if o == "or": return any(k)
    if o == "xor": return k[0] != k[1]
    if o == "iff": return k[0] == k[1]
    if o == "imp": return (not k[0]) or k[1]
    raise ValueError(o)


def has(f, ops):
    if not isinstance(f, dict):
        return False
    if f.get("o") in ops:
        return True
    return any(has(x, ops) for x in f.get("a", [])) or has(f.get("l"), ops) or has(f.get("r"), ops)
