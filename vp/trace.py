"""Reading the traces the program prints."""
import re
import xml.etree.ElementTree as ET


class Bad(Exception):
    pass


def blocks(err):
    return re.findall(r"<trace[ >].*?</trace>", err, re.S)


def plain(text, net):
    """a P/T trace as the record of spec/Trace.tla"""
    try:
        root = ET.fromstring(text)
    except ET.ParseError as e:
        raise Bad("not well-formed: %s" % e)
    ti = {x: i + 1 for i, x in enumerate(net.tnames)}
    pi = {x: i + 1 for i, x in enumerate(net.pnames)}
    steps, loop, dead = [], 0, False
    for e in root:
        if e.tag == "loop":
            if loop:
                raise Bad("two loop marks")
            loop = len(steps) + 1
        elif e.tag == "deadlock":
            dead = True
        elif e.tag == "transition":
            if dead:
                raise Bad("a step after the deadlock")
            if e.get("id") not in ti:
                raise Bad("unknown transition %s" % e.get("id"))
            use = {}
            for k in e:
                if k.tag != "token" or k.get("place") not in pi:
                    raise Bad("unexpected %s %s" % (k.tag, k.attrib))
                use[pi[k.get("place")]] = use.get(pi[k.get("place")], 0) + 1
            steps.append(dict(t=ti[e.get("id")], use=[[p, w] for p, w in sorted(use.items())]))
        else:
            raise Bad("unexpected element %s" % e.tag)
    return dict(steps=steps, loop=0 if dead else loop, dead=dead)


def unfolded(text, net):
    """a trace of an unfolded coloured net: steps name unfolded transitions t_k"""
    root = ET.fromstring(text)
    ti = {x: i + 1 for i, x in enumerate(net.tnames)}
    steps = []
    for e in root:
        n = e.get("id").rsplit("_", 1)[0]
        if n not in ti:
            n = e.get("id")
        if n not in ti:
            raise Bad("unknown transition %s" % e.get("id"))
        steps.append(dict(t=ti[n]))
    return dict(steps=steps, loop=0, dead=False)


def color_of(net, t, name):
    """index tuple of a colour of sort t given its printed name"""
    T = net.types[t - 1]
    if T["k"] == "p":
        parts = [x.strip() for x in name.strip("()").split(",")]
        return [color_of(net, c, x)[0] for c, x in zip(T["c"], parts)]
    if T["kind"] == "dot":
        return [0]
    if T["kind"] == "range":
        return [int(name) - T["start"]]
    return [T["cols"].index(name)]


def color_xml(net, t, e):
    T = net.types[t - 1]
    if e.tag == "tuple":
        return [color_xml(net, c, s[0])[0] for c, s in zip(T["c"], e.findall("subterm"))]
    if e.tag == "dotconstant":
        return [0]
    if e.tag == "finiteintrangeconstant":
        return [int(e.get("value")) - T["start"]]
    if e.tag == "useroperator":
        return color_of(net, t, e.get("declaration"))
    raise Bad("unexpected colour %s" % e.tag)


def marking(net, e):
    m = [[] for _ in net.places]
    pi = {x: i for i, x in enumerate(net.pnames)}
    for pl in e:
        if pl.get("id") not in pi:
            raise Bad("unknown place %s" % pl.get("id"))
        i = pi[pl.get("id")]
        for nb in pl.iter("numberof"):
            s = nb.findall("subterm")
            k = int(s[0].find("numberconstant").get("value"))
            m[i].append([color_xml(net, net.places[i][1], s[1][0]), k])
    return m


def coloured(text, net, marks=True):
    """a trace of the explicit coloured engine: bindings and markings"""
    try:
        root = ET.fromstring(text)
    except ET.ParseError as e:
        raise Bad("not well-formed: %s" % e)
    ti = {x: i + 1 for i, x in enumerate(net.tnames)}
    vi = {x[0]: i + 1 for i, x in enumerate(net.vars)}
    steps, first = [], None
    for e in root:
        if e.tag == "transition":
            if e.get("id") not in ti:
                raise Bad("unknown transition %s" % e.get("id"))
            b = []
            for v in e.iter("variable"):
                if v.get("id") not in vi:
                    raise Bad("unknown variable %s" % v.get("id"))
                k = vi[v.get("id")]
                b.append([k, color_of(net, net.vars[k - 1][1], v.find("color").text.strip())])
            steps.append(dict(t=ti[e.get("id")], b=b))
        elif e.tag == "marking":
            m = marking(net, e) if marks else None
            if steps:
                if marks:
                    steps[-1]["m"] = m
            else:
                first = m
    if marks and first is None:
        raise Bad("no initial marking")
    return dict(steps=steps, loop=0, dead=False), first
