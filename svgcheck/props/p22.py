"""P22: saving.  Trees loaded from abstract event streams, with unknown attribute values and character
data, and trees built by hand are serialised; the element tree handed to the XML writer has to be the
one that was loaded or built.  Document.write has to put the whole of it into the file."""
from ..dom import *
from .p21 import normal, DOCS, q


def strip(n):
    return n[len(SVG) + 2:] if n.startswith("{%s}" % SVG) else n


def want_of(s, spec, tail=None):
    """the tree the writer should get for a loaded tree"""
    tag, attrs, text, kids, _ = (tuple(spec) + ({}, None, (), None)[len(spec) - 1:])[:5]
    w = lambda x: (NONE if x is None else Const(x)) if not isinstance(x, V) else x
    ks = [(tuple(k) + ({}, None, (), None)[len(k) - 1:])[:5] for k in kids]
    return (Const(strip(tag)), {k: w(v) for k, v in attrs.items()}, w(text), [want_of(s, k, w(k[4])) for k in ks], tail)


def empty(v):
    return v is None or v == NONE or v == Const("")


def differ(I, s, got, want, where="", top=True):
    """None or what differs; got: ('elem', tag, attributes, text, children, tail)"""
    _, tag, attrs, text, kids, tail = got
    here = where + "/" + str(want[0].v)
    if tag != want[0] and same(I, s, tag, want[0]) is not True:
        return "%s is written as %s" % (here, show(tag))
    ga = {}
    for k, v in attrs:
        if not isinstance(k, Const):
            return "%s has an unknown attribute" % here
        ga[k.v] = v
    for k, v in want[1].items():
        if k not in ga:
            return "%s lost the attribute %s" % (here, k)
        r = same_text(I, s, ga[k], v)
        if r is not True:
            return "%s is written with %s=%s" % (here, k, show(ga[k]))
    for k in ga:
        if k not in want[1] and not k.startswith("xmlns"):
            return "%s has the additional attribute %s" % (here, k)
    if not (empty(text) and empty(want[2])) and same_text(I, s, text, want[2]) is not True:
        return "%s is written with the text %s" % (here, show(text))
    if not top and not (empty(tail) and empty(want[4])) and same_text(I, s, tail, want[4]) is not True:
        return "%s is followed by the text %s" % (here, show(tail))
    if len(kids) != len(want[3]):
        return "%s is written with %d children" % (here, len(kids))
    for g, w in zip(kids, want[3]):
        r = differ(I, s, g, w, here, False)
        if r:
            return r
    return None


def same(I, s, a, b):
    return a == b


def same_text(I, s, a, b):
    """is a the text of b"""
    if a == b:
        return True
    if isinstance(b, Num) or b == NONE:
        for s2, t in M.to_str(I, s, b):
            if a == t:
                return True
    if isinstance(a, Text) and len(a.pieces) == 1 and isinstance(a.pieces[0], OpPiece):
        return isinstance(b, Opaque) and a.pieces[0].key == b.key
    return False


def roots(v):
    """the element trees in a piece of written text, in order"""
    out = []
    ps = v.pieces if isinstance(v, Text) else [v]
    for p in ps:
        if isinstance(p, str):
            continue
        if isinstance(p, Const) and isinstance(p.v, str):
            continue
        k = getattr(p, "key", None)
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "xml":
            out.append(k[1])
        elif isinstance(k, tuple) and any(x == "xml" for x in k):
            return None
        else:
            return None
    return out


TEXTS = (q("text"), {"id": "t", "x": free("x")}, free("before"), [
    (q("tspan"), {"dx": free("dx")}, free("in1"), [], free("after1")),
    (q("tspan"), {}, None, [(q("a"), {XLINK + "href": free("link")}, free("deep"), [], free("deep tail"))], free("after2")),
    (q("no-such-element"), {"own": free("own")}, free("in3"), [], None),
], free("outer tail"))
KITCHEN = (q("svg"), {"width": free("w"), "viewBox": free("vb"), "data-a": free("da")}, free("t"), [
    (q(n), {"id": n, "class": free("c " + n), "transform": free("tr " + n), "x": free("x " + n), "points": free("p " + n), "d": free("d " + n), "{urn:x}own": free("o " + n)}, free("text " + n),
     [(q("g"), {"in": Const(n)}, free("inner " + n), [], free("inner tail " + n))], free("tail " + n)) for n in KNOWN + ["filter", "stop"]])


def check(rep):
    rep.rule("xml", "a loaded element is written under its own name, with every attribute, its character data and all of its children", 30)
    rep.rule("built", "so is a built element, whatever the type of its attribute values", 30)
    rep.rule("mixed", "elements built, added and moved into a loaded tree are written at their places", 4)
    rep.rule("document", "writing a document puts the serialisation of all of it into the named file", 5)
    rep.rule("again", "writing changes nothing: the second time the same is written", 3)
    I = dom(rep)

    def judge_xml(rs, want):
        res = True, ""
        for s, v in rs:
            if isinstance(v, Raise):
                if feasible(s):
                    return False, "raises %s %s" % (v.name, [a for a in v.exc.args][:1]), v.where
                continue
            ts = roots(v)
            if ts is None:
                res = None, "unknown text %s" % show(v)
                continue
            ws = want(s) if callable(want) else want
            if len(ts) != len(ws):
                return False, "%d elements are written instead of %d" % (len(ts), len(ws))
            for t, w in zip(ts, ws):
                d = differ(I, s, t, w)
                if d:
                    return False, d + facts_note(s)
        return res

    def loaded(spec, *path):
        out = []
        for s, d in load(I, I.start(), spec):
            if isinstance(d, Raise):
                out.append((s, d, d))
            else:
                out += [(s1, n, d) for s1, n in dcall(I, s, "child", d, *[num(k) for k in path])]
        return out

    def judge_file(rs, want, times=1):
        res = True, ""
        for s, r in rs:
            if isinstance(r, Raise):
                if feasible(s):
                    return False, "raises %s %s" % (r.name, [a for a in r.exc.args][:1]), r.where
                continue
            log = items(I, s, I.get(s, "_dom", "LOG")) or []
            text, files, done = [], [], []
            for e in log:
                f, data = e.items
                if f not in files:
                    files.append(f)
                if data == NONE:
                    if text:
                        done.append(text)
                    text = []
                else:
                    text.append(data)
            if not done:
                return False, "nothing is written"
            if files != [Const("out.svg")]:
                return False, "written into %s" % [show(f) for f in files]
            if len(done) != times:
                res = both(res, (None, "the file is opened %d times" % len(done)))
                continue
            for text in done:
                ts = []
                for x in text:
                    t = roots(x)
                    if t is None:
                        ts = None
                        break
                    ts += t
                if ts is None:
                    res = both(res, (None, "unknown text"))
                    continue
                if len(ts) != len(want):
                    return False, "%d elements are written instead of %d" % (len(ts), len(want))
                for t, w in zip(ts, want):
                    d = differ(I, s, t, w)
                    if d:
                        return False, d + facts_note(s)
        return res

    specs = dict(DOCS, texts=TEXTS, kitchen=KITCHEN)
    for name, spec in specs.items():
        def xml(spec=spec):
            res = True, ""
            for s, n, d in loaded(spec, 0):
                if isinstance(n, Raise):
                    return None, "not loaded"
                res = both(res, judge_xml(method(I, s, n, "xml"), [want_of(s, spec)]))
            return res
        rep.each("xml", name, xml)

        def write(spec=spec, twice=False):
            res = True, ""
            for s, n, d in loaded(spec, 0):
                if isinstance(n, Raise):
                    return None, "not loaded"
                want = [want_of(s, spec)]
                rs = method(I, s, d, "write", Const("out.svg"))
                if twice:
                    rs = [x for s1, r in rs for x in (method(I, s1, d, "write", Const("out.svg")) if not isinstance(r, Raise) else [(s1, r)])]
                res = both(res, judge_file(rs, want, 2 if twice else 1))
            return res
        rep.each("document", name, write)
        rep.each("again", name, write, spec, True)

    for n in KNOWN + ["filter", "foreignObject", "no-such-element"]:
        def single(n=n):
            spec = (q("svg"), {}, None, [(q(n), {"id": "i", "x": free("x"), "style": free("st"), "fill": free("f"), "d": free("d"), "points": free("p"), XLINK + "href": free("l")}, free("text"), [
                (q(n), {}, free("inside"), [], free("tail")), (q("rect"), {"x": free("rx")})], free("last"))])
            res = True, ""
            for s, e, d in loaded(spec, 0, 0):
                if isinstance(e, Raise):
                    return None, "not loaded"
                res = both(res, judge_xml(method(I, s, e, "xml"), [want_of(s, spec[3][0])]))
                res = both(res, judge_xml([x for s1, t in dcall(I, s, "child", d, num(0)) for x in method(I, s1, t, "xml")], [want_of(s, spec)]))
            return res
        rep.each("xml", "element " + n, single)

    values = {"id": Const("b"), "x": sym("x"), "width": num(5, "i"), "fill": free("fill"), "opacity": num(Fraction(1, 2)), "d": free("d"), "r": free("r")}
    for n in KNOWN:
        def built(n=n):
            res = True, ""
            for s, top, d in loaded((q("svg"), {}), 0):
                ok, bad = normal(method(I, s, top, n, **values), n)
                if bad:
                    return bad
                for s1, e in ok:
                    ok2, bad = normal(method(I, s1, e, "g", id="in"), "g()")
                    if bad:
                        return bad
                    for s2, g in ok2:
                        w = (Const(n), dict(values), NONE, [(Const("g"), {"id": Const("in")}, NONE, [], NONE)], NONE)
                        res = both(res, judge_xml(method(I, s2, e, "xml"), [w]))
                        res = both(res, judge_xml(method(I, s2, top, "xml"), [(Const("svg"), {}, NONE, [w], NONE)]))
            return res
        rep.each("built", n, built)

    def leaf(n, **a):
        return (Const(n), {k: Const(v) for k, v in a.items()}, NONE, [], NONE)

    def mixed(first):
        spec = (q("svg"), {"id": "s"}, free("t"), [(q("g"), {"id": "g"}, free("tg"), [(q("rect"), {"id": "r"}, None, [], free("tr"))], free("tail g"))])
        res = True, ""
        for s, top, d in loaded(spec, 0):
            ok, bad = normal(method(I, s, top, "circle", id="c"), "circle()")
            if bad:
                return bad
            for s1, c in ok:
                w = want_of(s1, spec)
                w[3].append(leaf("circle", id="c"))
                ws = [w]
                if first == "build":
                    sts = [s1]
                elif first == "add":
                    ok2, bad = normal(I.run(s1, I.get(s1, "nodes", "Ellipse"), id="e"), "Ellipse()")
                    if bad:
                        return bad
                    sts = []
                    for s2, e in ok2:
                        ok3, bad = normal(method(I, s2, d, "add", e), "add()")
                        if bad:
                            return bad
                        sts += [s3 for s3, _ in ok3]
                    ws.append(leaf("ellipse", id="e"))
                elif first == "move":
                    sts = []
                    ok3, bad = normal(method(I, s1, d, "add", c), "add()")
                    if bad:
                        return bad
                    sts = [s3 for s3, _ in ok3]
                    ws.append(w[3].pop())
                else:
                    sts = []
                    other = (q("svg"), {"id": "two"}, free("t2"), [(q("use"), {"id": "u"})])
                    for s2, r in load(I, s1, other, d):
                        if isinstance(r, Raise):
                            return False, "the second load raises %s" % r.name, r.where
                        sts.append(s2)
                    ws.append(want_of(s1, other))
                for s2 in sts:
                    res = both(res, judge_file(method(I, s2, d, "write", Const("out.svg")), ws))
                    res = both(res, judge_xml(method(I, s2, top, "xml"), ws[:1]))
        return res
    for first in ("build", "add", "move", "load"):
        rep.each("mixed", first, mixed, first)
