"""Ways of writing the same query: XML alternatives and the text format."""
from . import query as Q

PATH = {"X": "next", "F": "finally", "G": "globally"}


def sp(rnd):
    return rnd.choice(["", "", "", "\n  ", " ", "<!-- c -->" if rnd.random() < 0.1 else ""])


def el(rnd, tag, *kids):
    a = rnd.choice(["", "", "", ' a="b"', " "])
    if not kids:
        return "<%s%s/>" % (tag, a.rstrip()) if rnd.random() < 0.6 else "<%s></%s>" % (tag, tag)
    return "<%s%s>%s</%s>" % (tag, a, sp(rnd) + sp(rnd).join(kids) + sp(rnd), tag)


def name(rnd, n):
    return "<place>%s</place>" % rnd.choice([n, n, n, " " + n, "\n" + n + "\n", n + " "])


def expr(rnd, e, net):
    o = e["o"]
    if o == "c":
        v = e["v"]
        r = rnd.random()
        if r < 0.1:
            return el(rnd, "integer-sum", "<integer-constant>%d</integer-constant>" % v)
        if r < 0.2:
            k = rnd.randint(0, 3)
            return el(rnd, "integer-difference", "<integer-constant>%d</integer-constant>" % (v + k), "<integer-constant>%d</integer-constant>" % k)
        if v <= 0 and r < 0.6:
            return el(rnd, "integer-difference", "<integer-constant>%d</integer-constant>" % -v)
        return "<integer-constant>%s%d%s</integer-constant>" % (rnd.choice(["", "", " "]), v, rnd.choice(["", "", " "]))
    if o == "p":
        x = "<tokens-count>%s</tokens-count>" % name(rnd, net.pnames[e["p"] - 1])
        r = rnd.random()
        if r < 0.06:
            return el(rnd, rnd.choice(["integer-sum", "integer-product"]), x)
        if r < 0.1:
            return el(rnd, "integer-product", "<integer-constant>1</integer-constant>", x)
        if r < 0.14:
            return el(rnd, "integer-sum", x, "<integer-constant>0</integer-constant>")
        return x
    a = list(e["a"])
    if o == "+":
        rnd.shuffle(a)
        if all(x["o"] == "p" for x in a) and rnd.random() < 0.6:
            return el(rnd, "tokens-count", *[name(rnd, net.pnames[x["p"] - 1]) for x in a])
        if len(a) == 2 and rnd.random() < 0.1:          # a + b = a - (-b)
            return el(rnd, "integer-difference", expr(rnd, a[0], net), el(rnd, "integer-difference", expr(rnd, a[1], net)))
        k = [expr(rnd, x, net) for x in a]
        if len(k) > 2 and rnd.random() < 0.3:
            k = [el(rnd, "integer-sum", k[0], k[1])] + k[2:]
        return el(rnd, "integer-sum", *k)
    k = [expr(rnd, x, net) for x in a]
    if o == "*":
        rnd.shuffle(k)
        return el(rnd, "integer-product", *k)
    if len(k) > 2 and rnd.random() < 0.4:
        return el(rnd, "integer-difference", k[0], el(rnd, "integer-sum", *k[1:]))
    return el(rnd, "integer-difference", *k)


def neg(rnd, x):
    return el(rnd, rnd.choice(["negation", "not"]), x)


FLIP = {"<=": ">=", "<": ">", ">=": "<=", ">": "<", "=": "=", "!=": "!="}
OPP = {"<=": ">", "<": ">=", ">=": "<", ">": "<=", "=": "!=", "!=": "="}


def xml(rnd, f, net, ltl=False):
    """f as XML, in one of many equivalent ways"""
    o = f["o"]
    rec = lambda g: xml(rnd, g, net, ltl)
    r = rnd.random()
    if r < 0.03:
        return el(rnd, rnd.choice(["conjunction", "disjunction", "and", "or"]), rec(f))
    if r < 0.05 and not (ltl and o in "EA"):
        return neg(rnd, neg(rnd, rec(f)))
    if o in ("true", "false"):
        return el(rnd, o)
    if o in Q.CMP:
        l, r_ = f["l"], f["r"]
        if r < 0.3:
            l, r_, o = r_, l, FLIP[o]
        if r > 0.8:
            return neg(rnd, el(rnd, Q.CMP[OPP[o]], expr(rnd, l, net), expr(rnd, r_, net)))
        return el(rnd, Q.CMP[o], expr(rnd, l, net), expr(rnd, r_, net))
    if o == "fire":
        ts = list(f["t"])
        rnd.shuffle(ts)
        ks = ["<transition>%s</transition>" % net.tnames[t - 1] for t in ts]
        if len(ks) > 1 and r < 0.4:
            return el(rnd, "disjunction", *["<is-fireable>%s</is-fireable>" % k for k in ks])
        return el(rnd, "is-fireable", *ks)
    if o == "dead":
        if r < 0.3 and net.nt:
            return neg(rnd, el(rnd, "is-fireable", *["<transition>%s</transition>" % t for t in net.tnames]))
        return el(rnd, "deadlock")
    a = f["a"]
    if o == "not":
        return neg(rnd, rec(a[0]))
    if o in ("and", "or"):
        k = [rec(x) for x in a]
        rnd.shuffle(k)
        if r > 0.85 and len(a) == 2 and o == "or":
            return el(rnd, "implication", neg(rnd, rec(a[0])), rec(a[1]))
        if r > 0.8:
            return neg(rnd, el(rnd, "disjunction" if o == "and" else "conjunction", *[neg(rnd, x) for x in k]))
        if len(k) > 2 and r > 0.6:
            k = [el(rnd, {"and": "conjunction", "or": "disjunction"}[o], *k[1:]), k[0]]
        return el(rnd, rnd.choice([o, {"and": "conjunction", "or": "disjunction"}[o]]), *k)
    if o in ("xor", "iff", "imp"):
        k = [rec(x) for x in a]
        if o == "imp" and r < 0.3:
            return el(rnd, "implication", neg(rnd, k[1]), neg(rnd, k[0]))
        if o != "imp" and r < 0.3:
            return neg(rnd, el(rnd, {"iff": "exclusive-disjunction", "xor": "equivalence"}[o], *k))
        if o == "iff" and r < 0.5:
            return el(rnd, "and", el(rnd, "implication", *k), el(rnd, "implication", *reversed(k)))
        return el(rnd, {"xor": "exclusive-disjunction", "imp": "implication", "iff": "equivalence"}[o], *k)
    if o in PATH:
        if o == "F" and r < 0.2:
            return neg(rnd, el(rnd, "globally", neg(rnd, rec(a[0]))))
        if o == "F" and r < 0.4:
            return el(rnd, "until", el(rnd, "before", "<true/>"), el(rnd, "reach", rec(a[0])))
        if o == "G" and r < 0.3:
            return neg(rnd, el(rnd, "finally", neg(rnd, rec(a[0]))))
        return el(rnd, PATH[o], rec(a[0]))
    if o == "U":
        return el(rnd, "until", el(rnd, "before", rec(a[0])), el(rnd, "reach", rec(a[1])))
    if o in ("E", "A"):
        return el(rnd, "exists-path" if o == "E" else "all-paths", rec(a[0]))
    # CTL
    if o == "EF" and r < 0.25:
        return el(rnd, "possibility", rec(a[0]))
    if o == "AG" and r < 0.25:
        return el(rnd, "invariant", rec(a[0]))
    if o == "AG" and r < 0.4:
        return el(rnd, "impossibility", a[0]["a"][0] and rec(a[0]["a"][0]) if a[0]["o"] == "not" else neg(rnd, rec(a[0])))
    if o == "AG" and r < 0.5:
        return neg(rnd, el(rnd, "possibility", neg(rnd, rec(a[0]))))
    if o == "EF" and r < 0.35:
        return neg(rnd, el(rnd, "impossibility", rec(a[0])))
    if o == "EF" and r < 0.45:
        return neg(rnd, el(rnd, "invariant", neg(rnd, rec(a[0]))))
    if r > 0.9 and o != "AU" and o != "EU":          # duality
        return neg(rnd, rec(Q.Un({"E": "A", "A": "E"}[o[0]] + {"F": "G", "G": "F", "X": "X"}[o[1]], Q.Not(a[0]))) if o[1] != "X" else
                   el(rnd, "all-paths" if o[0] == "E" else "exists-path", el(rnd, "next", neg(rnd, rec(a[0])))))
    t = "exists-path" if o[0] == "E" else "all-paths"
    if o[1] == "U":
        return el(rnd, t, el(rnd, "until", el(rnd, "before", rec(a[0])), el(rnd, "reach", rec(a[1]))))
    if o[1] == "F" and r < 0.6:
        return el(rnd, t, el(rnd, "until", el(rnd, "before", "<true/>"), el(rnd, "reach", rec(a[0]))))
    return el(rnd, t, el(rnd, PATH[o[1]], rec(a[0])))


# ------------------------------------------------------------------ text

def ws(rnd):
    return rnd.choice([" ", " ", " ", "\n", "\t", "  "])


def ident(rnd, n):
    return '"%s"' % n if rnd.random() < 0.5 or not n.replace("_", "a").isalnum() or not n[0].isalpha() else n


def texpr(rnd, e, net, top=True):
    o = e["o"]
    if o == "c":
        if e["v"] < 0:
            return "(-%d)" % -e["v"] if not top else "-%d" % -e["v"]
        return str(e["v"])
    if o == "p":
        n = ident(rnd, net.pnames[e["p"] - 1])
        return n if rnd.random() < 0.8 else "%s(%s)" % (rnd.choice(["tokens-count", "#tokens"]), n)
    a = e["a"]
    if o == "+" and all(x["o"] == "p" for x in a) and rnd.random() < 0.4:
        return "%s(%s)" % (rnd.choice(["tokens-count", "#tokens"]), ("," + rnd.choice(["", " "])).join(ident(rnd, net.pnames[x["p"] - 1]) for x in a))
    k = [texpr(rnd, x, net, False) for x in a]
    s = (" %s " % o if rnd.random() < 0.7 or o == "-" else o).join(k)
    return s if top and rnd.random() < 0.6 else "(%s)" % s


TCMP = {"=": ["=", "=="]}


def text(rnd, f, net):
    o = f["o"]
    rec = lambda g: "(" + rnd.choice(["", " "]) + text(rnd, g, net) + ")"
    r = rnd.random()
    if r < 0.03:
        return rec(f)
    if o in ("true", "false"):
        return o
    if o in Q.CMP:
        return "%s%s%s%s%s" % (texpr(rnd, f["l"], net), ws(rnd), rnd.choice(TCMP.get(o, [o])), ws(rnd), texpr(rnd, f["r"], net))
    if o == "fire":
        ks = [ident(rnd, net.tnames[t - 1]) for t in f["t"]]
        if len(ks) == 1 and r < 0.5:
            return ks[0] + "?"
        return "is-fireable(%s)" % ", ".join(ks)
    if o == "dead":
        return "deadlock"
    a = f["a"]
    NOT = rnd.choice(["not ", "!", "NOT ", "! "])
    if o == "not":
        return NOT + rec(a[0])
    if o == "imp":
        return "(%s%s) or %s" % (NOT, rec(a[0]), rec(a[1]))
    if o in ("xor", "iff"):
        x, y = rec(a[0]), rec(a[1])
        n = "%s%s" % (NOT, y)
        m = y
        if o == "iff":
            n, m = m, n
        return "((%s) and (%s)) or ((%s%s) and (%s))" % (x, n, NOT, rec(a[0]), m)
    if o in ("and", "or"):
        op = {"and": ["and", "AND", "&", "&&"], "or": ["or", "OR", "|", "||"]}[o]
        return (ws(rnd)).join(sum([[rnd.choice(op), rec(x)] for x in a], [])[1:])
    if o in PATH:
        return "%s %s" % (o, rec(a[0]))
    if o == "U":
        return "%s U %s" % (rec(a[0]), rec(a[1]))
    if o in ("E", "A"):
        return "%s (%s)" % (o, text(rnd, a[0], net))
    if o[1] == "U":
        return "%s (%s U %s)" % (o[0], rec(a[0]), rec(a[1]))
    return "%s %s" % (o if r < 0.7 else o[0] + " " + o[1], rec(a[0]))
