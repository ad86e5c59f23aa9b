"""P23: accessors of elements.  Each accessor is interpreted on abstract trees in which its attribute is
set on the element, on one or several of its ancestors or nowhere, alone and next to every other
attribute, with unknown attribute values; the result has to be the very value of the nearest one.
Colours are compared with the Color of the attribute's text and opacity.  Positional constructor
arguments are traced to the attributes they fill."""
from ..dom import *
from .p21 import normal, q

PAINT = {"stroke_opacity": "stroke-opacity", "stroke_width": "stroke-width", "fill_opacity": "fill-opacity"}
BOX = {"x": "x", "y": "y", "width": "width", "height": "height"}
TABLE = {
    "rect": dict(BOX, rx="rx", ry="ry", **PAINT),
    "circle": dict(cx="cx", cy="cy", r="r", **PAINT),
    "ellipse": dict(cx="cx", cy="cy", rx="rx", ry="ry", **PAINT),
    "line": dict(x1="x1", y1="y1", x2="x2", y2="y2", **PAINT),
    "polyline": dict(points="points", **PAINT),
    "polygon": dict(points="points", **PAINT),
    "path": dict(d="d", **PAINT),
    "text": dict(x="x", y="y", dx="dx", dy="dy", **PAINT),
    "tspan": dict(x="x", y="y", dx="dx", dy="dy", **PAINT),
    "image": dict(BOX, **PAINT),
    "svg": dict(BOX),
    "use": dict(BOX),
    "mask": dict(BOX),
    "pattern": dict(BOX),
    "clipPath": dict(unit_type="clipPathUnits"),
}
ALSO = {"circle": {"rx": "r", "ry": "r"}, "text": {"width": "width", "height": "height"}, "tspan": {"width": "width", "height": "height"}}
PAINTED = ("rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "text", "tspan", "image")
LINKED = ("image", "pattern", "script", "a")
OWN = {"svg": {"viewBox": "viewBox", "preserveAspectRatio": "preserveAspectRatio"}, "image": {"preserveAspectRatio": "preserveAspectRatio"}, "pattern": {"viewBox": "viewBox", "preserveAspectRatio": "preserveAspectRatio"}}
EVERY = sorted({a for t in TABLE.values() for a in t.values()} | {"stroke", "fill", "id", "style", "class", "transform", "viewBox", "preserveAspectRatio", "href", XLINK + "href", "opacity", "font-size"})
POSITIONAL = {
    "rect": ["x", "y", "width", "height", "rx", "ry"],
    "circle": ["cx", "cy", "r"],
    "ellipse": ["cx", "cy", "rx", "ry"],
    "line": ["x1", "y1", "x2", "y2"],
    "polyline": ["points"],
    "polygon": ["points"],
    "path": ["d"],
}


def check(rep):
    rep.rule("own", "an accessor reports the value of its attribute on the element, alone and among all others, whatever ancestors say", 80)
    rep.rule("inherited", "failing that, it reports the value of the nearest ancestor that sets the attribute", 80)
    rep.rule("absent", "it reports a default when nothing sets the attribute", 40)
    rep.rule("paint", "stroke and fill report the colour that is set, with its opacity", 40)
    rep.rule("link", "links are those of the element, or of its nearest ancestor with one", 10)
    rep.rule("point", "positions and centres are the points of their attributes", 8)
    rep.rule("positional", "positional arguments of a shape fill its attributes in the documented order", 40)
    rep.rule("described", "identity, style and class are read from their attributes", 6)
    I = dom(rep)

    def nested(name, own, mid, outer, root={}):
        """document > svg > g > g > element"""
        return (q("svg"), root, None, [(q("g"), outer, None, [(q("g"), mid, None, [(q(name), own)])])])

    def element(name, own, mid={}, outer={}, root={}):
        out = []
        for s, d in load(I, I.start(), nested(name, own, mid, outer, root)):
            if isinstance(d, Raise):
                out.append((s, d))
                continue
            out += dcall(I, s, "child", d, num(0), num(0), num(0), num(0))
        return out

    def read(els, accessor, want):
        """the accessor's results, all of which have to be `want`: a value, or a judge"""
        res = True, ""
        for s, e in els:
            if isinstance(e, Raise):
                return None, "not loaded: %s" % e.name
            for s1, v in I.get_attr(s.fork(), e, accessor):
                if isinstance(v, Raise):
                    if feasible(s1):
                        return False, "%s raises %s %s%s" % (accessor, v.name, [a for a in v.exc.args][:1], facts_note(s1)), v.where
                    continue
                r = want(s1, v) if callable(want) else (same(s1, v, want), "%s is %s instead of %s" % (accessor, show(v), show(want)))
                if r[0] is False and feasible(s1):
                    return r
                if r[0] is not True:
                    res = r
        return res

    def same(s, a, b):
        if a == b:
            return True
        if isinstance(a, Opaque) and a.t == "str" and isinstance(b, Opaque) and b.t == "str" or isinstance(a, (Const, Ref, Num, Tup)):
            return False
        return None

    def others(attr, tag):
        return {a: free("%s %s" % (tag, a)) for a in EVERY if a != attr}

    def default(name, attr):
        def ok(s, v):
            # some number or nothing, no value of another attribute
            return (not isinstance(v, Opaque), "reports %s although nothing sets %s" % (show(v), attr))
        return ok
    for name in TABLE:
        table = dict(TABLE[name], **ALSO.get(name, {}))
        for acc, attr in table.items():
            v, m, o = free("own"), free("mid"), free("outer")
            cases = {
                "alone": ({attr: v}, {}, {}),
                "among others": (dict(others(attr, "o"), **{attr: v}), {}, {}),
                "over an ancestor": ({attr: v}, {attr: m}, {attr: o}),
                "over ancestors among others": (dict(others(attr, "o"), **{attr: v}), dict(others(attr, "m"), **{attr: m}), dict(others(attr, "t"), **{attr: o})),
            }
            for c, (a, b, d) in cases.items():
                rep.each("own", "%s.%s %s" % (name, acc, c), lambda acc=acc, name=name, a=a, b=b, d=d, v=v: read(element(name, a, b, d), acc, v))
            cases = {
                "of the parent": ({}, {attr: v}, {}, {}),
                "of the grandparent": ({}, {}, {attr: v}, {}),
                "of the root": ({}, {}, {}, {attr: v}),
                "of the nearest": ({}, {attr: v}, {attr: o}, {attr: m}),
                "of the nearer": ({}, {}, {attr: v}, {attr: m}),
                "among others": (others(attr, "o"), dict(others(attr, "m"), **{attr: v}), dict(others(attr, "t"), **{attr: o}), {attr: m}),
            }
            for c, (a, b, d, r) in cases.items():
                rep.each("inherited", "%s.%s %s" % (name, acc, c), lambda acc=acc, name=name, a=a, b=b, d=d, r=r, v=v: read(element(name, a, b, d, r), acc, v))
            cases = {"alone": ({}, {}), "among others": (others(attr, "o"), others(attr, "m"))}
            for c, (a, b) in cases.items():
                rep.each("absent", "%s.%s %s" % (name, acc, c), lambda acc=acc, name=name, a=a, b=b, attr=attr: read(element(name, a, b), acc, default(name, attr)))
    for name, t in OWN.items():
        for acc, attr in t.items():
            v = free("own")
            for c, (a, b) in {"alone": ({attr: v}, {}), "among others": (dict(others(attr, "o"), **{attr: v}), dict(others(attr, "m"), **{attr: free("mid")}))}.items():
                rep.each("own", "%s.%s %s" % (name, acc, c), lambda acc=acc, name=name, a=a, b=b, v=v: read(element(name, a, b), acc, v))

    # identity and style -----------------------------------------------------------
    for name in KNOWN:
        def ident(name=name):
            return both(
                read(element(name, dict(others("id", "o"), id=Const("me")), {"id": Const("other")}), "id", Const("me")),
                read(element(name, {}, {"id": Const("other")}), "id", NONE),
            )
        rep.each("described", "%s.id" % name, ident)

    # links ---------------------------------------------------------------------
    for name in LINKED:
        for key in ("href", XLINK + "href"):
            v, m, o = free("own"), free("mid"), free("outer")
            other = "href" if key != "href" else XLINK + "href"
            for c, (a, b, d) in {
                "alone": ({key: v}, {}, {}),
                "over ancestors": ({key: v}, {key: m}, {key: o}),
                "over an ancestor's other spelling": ({key: v}, {other: m}, {}),
                "of the parent": ({}, {key: v}, {key: o}),
                "of the parent over the grandparent's other spelling": ({}, {key: v}, {other: o}),
                "among others": (dict({k: x for k, x in others(key, "o").items() if k != other}, **{key: v}), {}, {}),
            }.items():
                rep.each("link", "%s %s %s" % (name, key.split("}")[-1] + ("" if key == "href" else " of xlink"), c), lambda name=name, a=a, b=b, d=d, v=v: read(element(name, a, b, d), "href", v))
        rep.each("link", "%s without" % name, lambda name=name: read(element(name, {}, {}), "href", NONE))

    # colours -------------------------------------------------------------------
    def colour(text, opacity):
        """judge: the Color of the text, with the opacity if it is a number"""
        def ok(s, v):
            if text is None:
                return v == NONE, "is %s although nothing sets it" % show(v)
            if v == NONE:
                return False, "is nothing"
            got = attr1(s, v, "value")
            res = True, ""
            for s1, c in I.run(s, I.get(s, "basic", "Color"), Const(text)):
                if isinstance(c, Raise):
                    return None, "Color raises"
                want = attr1(s1, c, "value")
                if want == NONE or got == NONE:
                    return want == got, "is %s instead of %s" % (show(got), text)
                for ch in ("red", "green", "blue"):
                    a, b = attr1(s1, v, ch), attr1(s1, c, ch)
                    if not isinstance(a, Num) or not isinstance(b, Num) or a.const() is None or b.const() is None:
                        res = None, "unknown channel"
                    elif a.const() != b.const():
                        return False, "%s is %s instead of %s" % (ch, a.const(), b.const())
                a = attr1(s1, v, "opacity")
                b = opacity if opacity is not None else attr1(s1, c, "opacity")
                b = b if not isinstance(b, Num) else b.const()
                if isinstance(a, Num) and a.const() is not None:
                    if abs(float(a.const()) - float(b)) > 0.003:
                        return False, "opacity is %s instead of %s" % (float(a.const()), float(b))
                else:
                    res = None, "unknown opacity"
            return res
        return ok

    def attr1(s, v, n):
        rs = I.get_attr(s.fork(), v, n)
        return rs[0][1] if len(rs) == 1 else None

    for name in PAINTED:
        for p in ("stroke", "fill"):
            op = p + "-opacity"
            cases = {
                "absent": ({}, {}, None, None),
                "red": ({p: "red"}, {}, "red", None),
                "hex": ({p: "#12345678"}, {}, "#12345678", None),
                "inherited": ({}, {p: "#123456"}, "#123456", None),
                "over inherited": ({p: "green"}, {p: "blue"}, "green", None),
                "none": ({p: "none"}, {p: "blue"}, "none", None),
                "half": ({p: "red", op: "0.5"}, {}, "red", 0.5),
                "clear": ({p: "red", op: "0"}, {}, "red", 0.0),
                "full": ({p: "#12345678", op: "1"}, {}, "#12345678", 1.0),
                "inherited opacity": ({p: "red"}, {op: "0.25"}, "red", 0.25),
                "inherited colour": ({op: "0.25"}, {p: "red"}, "red", 0.25),
                "opacity over inherited": ({op: "0.25"}, {p: "red", op: "0.75"}, "red", 0.25),
                "none with opacity": ({p: "none", op: "0.5"}, {}, "none", None),
                "opacity alone": ({op: "0.5"}, {}, None, None),
                "opacity that is no number": ({p: "red", op: "half"}, {}, "red", None),
                "the other paint": ({("fill" if p == "stroke" else "stroke"): "red", ("fill" if p == "stroke" else "stroke") + "-opacity": "0.5"}, {}, None, None),
                "both paints": ({p: "red", op: "0.5", ("fill" if p == "stroke" else "stroke"): "blue", ("fill" if p == "stroke" else "stroke") + "-opacity": "0.25"}, {}, "red", 0.5),
            }
            for c, (a, b, t, o) in cases.items():
                rep.each("paint", "%s.%s %s" % (name, p, c), lambda name=name, p=p, a=a, b=b, t=t, o=o: read(element(name, a, b), p, colour(t, o)))

    # points --------------------------------------------------------------------
    for name, acc, ax, ay in (("rect", "position", "x", "y"), ("circle", "center", "cx", "cy"), ("ellipse", "center", "cx", "cy")):
        X, Y = sym("x"), sym("y")

        def of(x, y):
            return lambda s, v: cmp_point(I, s, v, (x, y), acc)
        for c, (a, b, w) in {
            "both": ({ax: X, ay: Y}, {}, (X.r, Y.r)),
            "both over ancestors": ({ax: X, ay: Y}, {ax: sym("u"), ay: sym("v")}, (X.r, Y.r)),
            "inherited": ({}, {ax: X, ay: Y}, (X.r, Y.r)),
            "one inherited": ({ax: X}, {ay: Y}, (X.r, Y.r)),
            "first only": ({ax: X}, {}, (X.r, R(0))),
            "second only": ({ay: Y}, {}, (R(0), Y.r)),
            "none": ({}, {}, (R(0), R(0))),
        }.items():
            rep.each("point", "%s.%s %s" % (name, acc, c), lambda name=name, acc=acc, a=a, b=b, w=w: read(element(name, a, b), acc, lambda s, v: cmp_point(I, s, v, w, acc)))

    # positional arguments ---------------------------------------------------------
    def positional(name, n, keyword, built):
        order = POSITIONAL[name]
        args = [free("arg %s" % a) for a in order[:n]]
        kws = {a: free("key %s" % a) for a in order[n:]} if keyword else {}
        if keyword:
            kws.update({"id": Const("p"), "fill": free("fill")})
        res = True, ""
        if built:
            starts = []
            for s, d in load(I, I.start(), (q("svg"), {})):
                if not isinstance(d, Raise):
                    for s1, top in dcall(I, s, "child", d, num(0)):
                        rs, bad = normal(method(I, s1, top, name, *args, **kws), name)
                        if bad:
                            return bad
                        starts += rs
        else:
            cls = [c for c in I.start().o(I.modules["nodes"]).fields.values() if isinstance(c, ClassVal)]
            c = [s.o(e).cls for s, e in element(name, {})]
            starts, bad = normal(I.run(I.start(), c[0], *args, **kws), name)
            if bad:
                return bad
        want = {a: x for a, x in zip(order, args)}
        want.update(kws)
        for s, e in starts:
            got = attr1(s, e, "attributes")
            if not isinstance(got, Ref):
                return None, "unknown attributes"
            have = {k.v: v for k, v in s.o(got).items.values() if isinstance(k, Const)}
            for a, x in want.items():
                if a not in have:
                    return False, "%s is not set" % a
                if have[a] != x:
                    return False, "%s is %s instead of %s" % (a, show(have[a]), show(x))
            for a in have:
                if a not in want:
                    return False, "%s is set by nothing" % a
        return res
    for name, order in POSITIONAL.items():
        for n in range(len(order) + 1):
            for keyword in (False, True):
                for built in (False, True):
                    rep.each("positional", "%s with %d%s%s" % (name, n, " and the rest by name" if keyword else "", " built" if built else ""), positional, name, n, keyword, built)
