"""P20: the element table.  Every element name is loaded from an abstract event stream and built by
the builder of that name on every kind of node; the resulting abstract object has to be a full tree
node.  Members that a class declares are looked up on an instance and must not yield a builder."""
import re

from ..dom import *


def snake(n):
    return re.sub("([A-Z])", lambda m: "_" + m.group(1).lower(), n)


ATTRS = [
    {},
    {"id": "n1"},
    {"x": free("x"), "y": free("y"), "width": free("w"), "height": free("h"), "rx": free("rx"), "r": free("r"), "cx": free("cx")},
    {"style": free("style"), "class": free("class"), "transform": free("t"), "fill": free("fill"), "stroke": free("stroke"), "opacity": free("o")},
    {"points": free("p"), "d": free("d"), "x1": free("x1"), XLINK + "href": free("xh"), "href": free("h"), "viewBox": free("vb"), "preserveAspectRatio": free("par")},
    {"font": free("f"), "font-size": free("fs"), "font-weight": free("fw"), "font-family": free("ff"), "text-anchor": free("ta"), "data-own": free("do"), "desc": free("de"), "title": free("ti")},
]


def node_class(I, s, v):
    return s.o(v).cls if isinstance(v, Ref) else None


def one(rs, what):
    """the normal outcomes, or a verdict about the exceptional ones"""
    ok = [(s, v) for s, v in rs if not isinstance(v, Raise)]
    for s, v in rs:
        if isinstance(v, Raise) and feasible(s):
            return ok, (False, "%s raises %s %s" % (what, v.name, [a for a in v.exc.args][:1]), v.where)
    return ok, None


def check(rep):
    rep.rule("names", "every element name of the library is one of the SVG specification and has a class of its own", 20)
    rep.rule("load", "an element met while loading becomes a full tree node under its own name", 60)
    rep.rule("build", "the builder of each element name makes a full tree node, on every kind of node", 300)
    rep.rule("create", "each node class can be instantiated by itself, without and with attributes", 40)
    rep.rule("apart", "two nodes made alike share no attributes and no children", 20)
    rep.rule("member", "a member that a class declares is not hidden by the builder of that name", 3)
    rep.rule("other", "a name that is neither a member nor an element is no attribute of a node", 4)
    I = dom(rep)

    def in_document(inner, attrs, kids=()):
        return ("{%s}svg" % SVG, {}, None, [("{%s}%s" % (SVG, inner), attrs, None, list(kids), None)], None)

    def loaded(name, attrs={}, kids=()):
        out = []
        for s, d in load(I, I.start(), in_document(name, attrs, kids)):
            if isinstance(d, Raise):
                out.append((s, d, None, None))
                continue
            for s1, top in method(I, s, d, "__getitem__", 0):
                if isinstance(top, Raise):
                    out.append((s1, top, None, None))
                    continue
                for s2, n in method(I, s1, top, "__getitem__", 0):
                    out.append((s2, n, top, d))
        return out

    def table():
        """element names the source's own table lists"""
        s = I.start()
        m = s.o(I.modules["nodes"]).fields
        for v in m.values():
            if isinstance(v, Ref) and s.o(v).kind == "dict" and s.o(v).items is not None:
                ks = [k.v for k, _ in s.o(v).items.values() if isinstance(k, Const)]
                if {"svg", "rect", "path"} <= set(ks):
                    return ks
        return []
    listed = table()
    names = KNOWN + [n for n in listed if n not in KNOWN]
    for n in names:
        def known(n=n):
            if n not in SPEC:
                return False, "%s is not the name of an SVG element" % n
            for s, v, top, d in loaded(n):
                if isinstance(v, Raise):
                    return False, "raises %s" % v.name, v.where
                c = node_class(I, s, v)
                plain = [node_class(I, s2, u) for s2, u, _, _ in loaded("no-such-element")]
                if c in plain:
                    return False, "%s elements get no class of their own" % n
            return True
        rep.each("names", n, known)

    def judge_load(n, attrs, kids):
        res = True, ""
        for s, v, top, d in loaded(n, attrs, kids):
            if isinstance(v, Raise):
                if feasible(s):
                    return False, "loading raises %s %s" % (v.name, [a for a in v.exc.args][:1]), v.where
                continue
            want = s.dict()
            for k, x in attrs.items():
                d_set(s, want, Const(k), x if not isinstance(x, str) else Const(x))
            r = walk(I, s, "usable", v, Const(n), want, top, d, FALSE if kids else TRUE)
            res = both(res, r)
            if res[0] is False:
                return res
        return res
    others = ["filter", "foreignObject", "stop", "textPath", "no-such-element", "animate"]
    for n in names + others:
        for k, attrs in enumerate(ATTRS):
            rep.each("load", "%s with attributes %d" % (n, k), judge_load, n, attrs, ())
        rep.each("load", "%s with children" % n, judge_load, n, {"id": "n1"}, [("{%s}%s" % (SVG, n), {}), ("{%s}g" % SVG, {"id": "inner"}, None, [("{%s}rect" % SVG, {})])])

    kw_sets = [{}, {"id": "b1"}, {"x": free("x"), "width": free("w"), "fill": free("fill"), "transform": free("t"), "points": free("p"), "d": free("d"), "href": free("h"), "r": free("r")}]

    def judge_build(host, n, spelled, kws):
        res = True, ""
        for s, v, top, d in (loaded(host) if host else [(s, d, None, d) for s, d in load(I, I.start(), ("{%s}svg" % SVG, {}))]):
            if isinstance(v, Raise):
                return None, "the host is not loaded"
            rs = method(I, s, v, spelled, **kws)
            ok, bad = one(rs, "%s()" % spelled)
            if bad:
                return bad
            for s1, made in ok:
                want = s1.dict()
                for k, x in kws.items():
                    d_set(s1, want, Const(k), x if not isinstance(x, str) else Const(x))
                r = walk(I, s1, "usable", made, Const(n), want, v, d)
                res = both(res, r)
                if res[0] is False:
                    return res
        return res

    def declared(host, n):
        s = I.start()
        for s, v, top, d in loaded(host) if host else [(s, d, None, d) for s, d in load(I, s, ("{%s}svg" % SVG, {}))]:
            if isinstance(v, Raise):
                return None
            c = node_class(I, s, v)
            f, owner = I.find(c, n)
            return f is not None or n in s.o(v).fields
    hosts = [None] + names
    few = [None, "svg", "g", "text", "image", "a"]
    for h in hosts:
        for k, n in enumerate(names):
            for spelled in sorted({n, snake(n)}):
                dec = declared(h, spelled) if (h in few or rep.thorough or k % 4 == hosts.index(h) % 4 or n in ("text", "path", "style", "title", "desc", "line")) else None
                if dec is None:
                    continue
                who = h or "document"
                if not dec:
                    for j, kws in enumerate(kw_sets):
                        if j and h not in few and not rep.thorough:
                            continue
                        rep.each("build", "%s.%s() %d" % (who, spelled, j), judge_build, h, n, spelled, kws)
                else:
                    def hidden(h=h, n=n, spelled=spelled):
                        res = True, ""
                        for s, v, top, d in loaded(h) if h else [(s, d, None, d) for s, d in load(I, I.start(), ("{%s}svg" % SVG, {}))]:
                            builder = {node_class(I, s2, b) for s2, b in I.get_attr(s.fork(), top or v, "metadata")}
                            for s2, got in I.get_attr(s.fork(), v, spelled):
                                if isinstance(got, Ref) and node_class(I, s2, got) in builder and isinstance(node_class(I, s2, got), ClassVal):
                                    return False, "%s.%s is a builder, the class declares a member of that name" % (h, spelled)
                        return res
                    rep.each("member", "%s.%s" % (who, spelled), hidden)
    # one of each class by itself
    classes = {}
    for n in names:
        for s, v, top, d in loaded(n):
            c = node_class(I, s, v)
            if isinstance(c, ClassVal):
                classes.setdefault(c.name, (c, n))
    for cname, (c, n) in sorted(classes.items()):
        for j, kws in enumerate(kw_sets):
            def create(c=c, n=n, kws=kws):
                ok, bad = one(I.run(I.start(), c, **kws), c.name)
                if bad:
                    return bad
                res = True, ""
                for s, v in ok:
                    want = s.dict()
                    for k, x in kws.items():
                        d_set(s, want, Const(k), x if not isinstance(x, str) else Const(x))
                    res = both(res, walk(I, s, "usable", v, Const(n), want, NONE, NONE))
                return res
            rep.each("create", "%s %d" % (cname, j), create)

        def alone(c=c):
            """declared members of a node outside of any tree"""
            res = True, ""
            for s, v in one(I.run(I.start(), c), c.name)[0]:
                builder = {node_class(I, s2, b) for s2, b in I.get_attr(s.fork(), v, "metadata")}
                for spelled in sorted({x for m in names for x in (m, snake(m))}):
                    if I.find(node_class(I, s, v), spelled)[0] is None:
                        continue
                    for s2, got in I.get_attr(s.fork(), v, spelled):
                        if isinstance(got, Ref) and node_class(I, s2, got) in builder and isinstance(node_class(I, s2, got), ClassVal):
                            return False, "%s.%s is a builder, the class declares a member of that name" % (c.name, spelled)
            return res
        rep.each("member", "%s alone" % cname, alone)

        def apart(c=c):
            res = True, ""
            for s, a in one(I.run(I.start(), c), c.name)[0]:
                for s1, b in one(I.run(s, c), c.name)[0]:
                    res = both(res, walk(I, s1, "twins", a, b))
            return res
        rep.each("apart", cname, apart)
    for n in names:
        def copies(n=n):
            res = True, ""
            for s, v, top, d in loaded(n):
                ok, bad = one(method(I, s, top, "g"), "g()")
                if bad:
                    return bad
                for s1, g in ok:
                    for s2, a in one(method(I, s1, g, n), n)[0]:
                        for s3, b in one(method(I, s2, g, n), n)[0]:
                            res = both(res, walk(I, s3, "twins", a, b))
            return res
        rep.each("apart", "built " + n, copies)
    for n in ("no_such_member", "rects", "Rect", "data"):
        def other(n=n):
            res = True, ""
            for s, v, top, d in loaded("g"):
                for s1, r in dcall(I, s, "has", v, Const(n)):
                    if isinstance(r, Raise):
                        return False, "hasattr raises %s" % r.name, r.where
                    if r != FALSE:
                        res = (False if r == TRUE else None), "a group has an attribute %s" % n
            return res
        rep.each("other", n, other)
    rep.facts["element names"] = len(names)
    rep.facts["node classes"] = len(classes)
