"""Other ways of writing the same net in PNML."""
import re
from xml.sax.saxutils import escape

ODD = ["a.b", "x-1", "Ω", "a&b", "p<q", 'say"hi"', "it's", "_", "P", "place", "7", "a:b", "true", "EF", "not"]


def esc(s):
    return escape(s, {'"': "&quot;", "'": "&apos;"})


def odd_names(rnd, n):
    """rename some nodes of the net"""
    pool = list(ODD)
    rnd.shuffle(pool)
    for l in (n.pnames, n.tnames):
        for i in range(len(l)):
            if pool and rnd.random() < 0.3:
                l[i] = pool.pop() + (str(i) if rnd.random() < 0.5 else "")
    return n


def number(rnd, k):
    s = rnd.choice(["%d", "%d", "%d", " %d", "%d ", "0%d", "\t%d"]) % k
    return s


def noise(rnd, where):
    r = rnd.random()
    if r < 0.6:
        return ""
    if r < 0.75:
        return "<!-- %s p1 <place id='no'/> -->" % where
    if r < 0.9:
        return '<toolspecific tool="t" version="1"><size x="3">17</size></toolspecific>'
    return '<graphics><position x="%d" y="-2"/><dimension x="1" y="2"/></graphics>' % rnd.randint(0, 300)


def text(rnd, tag, k):
    v = rnd.choice(["text", "text", "value"])
    after = '<graphics><offset x="1" y="2"/></graphics>' if rnd.random() < 0.3 else ""
    before = '<graphics><offset x="1" y="2"/></graphics>' if rnd.random() < 0.2 else ""
    return "<%s>%s<%s>%s</%s>%s</%s>" % (tag, before, v, number(rnd, k), v, after, tag)


def split(rnd, w):
    if w > 1 and w < 50 and rnd.random() < 0.35:
        a = rnd.randint(1, w - 1)
        return [a, w - a]
    return [w]


def place(rnd, name, m):
    q = rnd.choice("\"'")
    at = "id=%s%s%s" % (q, esc(name), q)
    body = rnd.choice(["", "<name><text>%s</text></name>" % esc(name), "<name><text>other 5</text><graphics><offset x='1' y='2'/></graphics></name>"])
    if m or rnd.random() < 0.3:
        if rnd.random() < 0.3:
            at = rnd.choice(["%s initialMarking=\"%d\"", "initialMarking=\"%d\" %s"]).replace("%s", "\0").replace("%d", str(m)).replace("\0", at)
        else:
            x = text(rnd, "initialMarking", m)
            body = body + x if rnd.random() < 0.7 else x + body
    return "<place %s>%s%s</place>" % (at, body, noise(rnd, name.replace("-", "") and "x"))


def transition(rnd, name):
    return rnd.choice(['<transition id="%s"/>', '<transition id="%s"><name><text>t 3</text></name></transition>',
                       "<transition id='%s'><graphics><position x='4' y='5'/></graphics></transition>"]) % esc(name)


def arc(rnd, k, s, t, w, kind):
    at = ['id="a%d"' % k, 'source="%s"' % esc(s), 'target="%s"' % esc(t)]
    el = "arc"
    if kind == "inh":
        if rnd.random() < 0.5:
            el = "inhibitorArc"
        else:
            at.append('type="inhibitor"')
    elif rnd.random() < 0.25:
        el = "inputArc" if kind == "in" else "outputArc"
    elif rnd.random() < 0.2:
        at.append('type="normal"')
    body = ""
    if w != 1 or rnd.random() < 0.4:
        if rnd.random() < 0.3:
            at.append('weight="%d"' % w)
        else:
            body = "<inscription><%s>%d</%s></inscription>" % (("text", w, "text") if rnd.random() < 0.6 else ("value", w, "value"))
            if rnd.random() < 0.3:
                body = body.replace("</inscription>", '<graphics><offset x="1" y="2"/></graphics></inscription>')
    rnd.shuffle(at)
    if rnd.random() < 0.2:
        body += '<graphics><position x="1" y="2"/></graphics>'
    return "<%s %s>%s</%s>" % (el, " ".join(at), body, el)


def pages(rnd, nodes, depth=2):
    """nest the nodes in pages"""
    if depth == 0 or len(nodes) < 2 or rnd.random() < 0.4:
        return "\n".join(nodes)
    i = rnd.randint(0, len(nodes))
    a, b = nodes[:i], nodes[i:]
    pg = lambda x: '<page id="g%d"><name><text>s</text></name>%s</page>' % (rnd.randint(0, 99999), pages(rnd, x, depth - 1))
    return rnd.choice([lambda: pg(a) + pg(b), lambda: "\n".join(a) + pg(b), lambda: pg(a) + "\n".join(b)])()


def write(rnd, n):
    ps = [place(rnd, n.pnames[i], n.m0[i]) for i in range(n.np)]
    ts = [transition(rnd, x) for x in n.tnames]
    ars = []
    k = 0
    for i, (pre, post, inh) in enumerate(n.trans):
        pre = [(p, x) for p, w in pre for x in split(rnd, w)]
        post = [(p, x) for p, w in post for x in split(rnd, w)]
        if pre and post and rnd.random() < 0.3:      # a transport arc is an input and an output arc
            for a in list(pre):
                b = next((b for b in post if b[1] == a[1]), None)
                if b and rnd.random() < 0.5:
                    pre.remove(a)
                    post.remove(b)
                    k += 1
                    ars.append('<transportArc id="a%d" source="%s" transition="%s" target="%s"><inscription><value>%d</value></inscription></transportArc>'
                               % (k, esc(n.pnames[a[0]]), esc(n.tnames[i]), esc(n.pnames[b[0]]), a[1]))
        for l, kind in ((pre, "in"), (post, "out"), (inh, "inh")):
            for p, w in l:
                k += 1
                s, t = (n.tnames[i], n.pnames[p]) if kind == "out" else (n.pnames[p], n.tnames[i])
                ars.append(arc(rnd, k, s, t, w, kind))
    nodes = ps + ts + ars
    r = rnd.random()
    if r < 0.3:
        nodes = ars + ts + ps
    elif r < 0.7:
        rnd.shuffle(nodes)
    nodes = [x for y in nodes for x in ([y, noise(rnd, "n")] if rnd.random() < 0.1 else [y])]
    nodes = [x for x in nodes if not x.startswith("<graphics")]
    head = rnd.choice(['<?xml version="1.0" encoding="UTF-8"?>\n', '<?xml version="1.0"?>', "", "<!-- a net -->\n"])
    x = "%s<pnml xmlns=\"http://www.pnml.org/version-2009/grammar/pnml\"><net id=\"n\" type=\"P/T net\">%s</net></pnml>" % (
        head, rnd.choice(["", "<name><text>n</text></name>"]) + pages(rnd, nodes))
    if rnd.random() < 0.3:
        x = x.replace("><", ">\n  <").replace("\n", "\r\n" if rnd.random() < 0.3 else "\n")
    return x


SHORT = dict(equality="eq", inequality="neq", lessthan="lt", lessthanorequal="leq", greaterthan="gt", greaterthanorequal="geq")


def rewrite_coloured(rnd, x):
    """the same coloured net with other element names, order and wrapping"""
    for a, b in SHORT.items():
        if rnd.random() < 0.5:
            x = x.replace("<%s>" % a, "<%s>" % b).replace("</%s>" % a, "</%s>" % b)
    head, rest = x.split('<page id="page">\n')
    body, tail = rest.split("\n</page>")
    nodes = body.split("\n")
    r = rnd.random()
    if r < 0.6:
        rnd.shuffle(nodes)
    elif r < 0.8:
        nodes.reverse()
    nodes = [y.replace(' type="inhibitor"', "").replace("<arc ", "<inhibitorArc ").replace("</arc>", "</inhibitorArc>")
             if 'type="inhibitor"' in y and rnd.random() < 0.5 else y for y in nodes]
    if rnd.random() < 0.5:
        nodes = [y.replace("<text>x</text><structure>", "<structure>") for y in nodes]
    h, d = head.split("<declarations>")
    d, e = d.split("</declarations>")
    lines = d.split("\n")
    sorts = [l for l in lines if l.startswith("<namedsort")]
    others = [l for l in lines if not l.startswith("<namedsort")]
    if rnd.random() < 0.5:
        rnd.shuffle(others)
    if rnd.random() < 0.4:
        sorts.sort(key=lambda l: "productsort" not in l)     # products before the sorts they are made of
    x = h + "<declarations>" + "\n".join(sorts + others) + "</declarations>" + e
    x = x.replace("<declaration><structure><declarations>", "<declaration><structure><declarations>")
    return x + ('<page id="page">\n' + "\n".join(nodes) + "\n</page>" if rnd.random() < 0.5 else "\n" + pages(rnd, nodes)) + tail
