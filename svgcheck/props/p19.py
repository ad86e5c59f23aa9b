"""P19: the viewbox transform.  The transform text is interpreted for symbolic sizes under each
alignment and meet/slice choice, read back through the matrix reader, and its coefficients are
compared with those of SVG 2 section 8.2."""
from ..objects import *
from ..sym import fun

ALIGNS = ["x%sY%s" % (a, b) for a in ("Min", "Mid", "Max") for b in ("Min", "Mid", "Max")] + ["none"]
HALF = R(Fraction(1, 2))

ELEMENT = '''
class Element:
    def __init__(self, x, y, width, height):
        self.x = x
        self.y = y
        self.width = width
        self.height = height


def values(t):
    return {"viewBox": t, "preserveAspectRatio": "xMaxYMin slice"}
'''


def expected(v, align, how):
    """coefficients of the transform that SVG 2 prescribes"""
    sx = v["ew"] / v["vw"]
    sy = v["eh"] / v["vh"]
    if align != "none":
        sx = sy = fun("max" if how == "slice" else "min", sx, sy)
    tx = v["ex"] - v["vx"] * sx
    ty = v["ey"] - v["vy"] * sy
    if align != "none":
        fx = {"Min": R(0), "Mid": HALF, "Max": R(1)}[align[1:4]]
        fy = {"Min": R(0), "Mid": HALF, "Max": R(1)}[align[5:8]]
        tx = tx + (v["ew"] - v["vw"] * sx) * fx
        ty = ty + (v["eh"] - v["vh"] * sy) * fy
    return [sx, R(0), R(0), sy, tx, ty]


def positive(s, *names):
    for n in names:
        s.facts[R(n).num] = Interval(Fraction(1, 1000), Fraction(1000))


def judge(I, rs, v, align, how):
    res = None, "no outcome"
    n = 0
    for s, t in rs:
        if not feasible(s):
            continue
        if isinstance(t, Raise):
            return False, "raises %s%s" % (t.name, facts_note(s)), t.where
        for s2, m in I.run(s, I.get(s, "basic", "Matrix"), t):
            if not feasible(s2):
                continue
            if isinstance(m, Raise):
                return False, "the transform %s cannot be read: %s" % (short(t), m.name), m.where
            got = matrix_fields(I, s2, m)
            if got is None:
                res = None, "coefficients unknown"
                continue
            r = cmp_rats(s2, list("abcdef"), got, expected(v, align, how))
            if r[0] is False:
                return False, "%s%s" % (r[1], facts_note(s2))
            n += 1
            if r[0] is None:
                res = r
            elif n == 1:
                res = True, ""
    return res


def check(rep):
    rep.rule("transform", "scale and translation follow SVG 2 section 8.2 for every alignment", 40)
    rep.rule("element", "the transform for an element uses its position and size and the viewbox", 20)
    rep.rule("order", "a viewBox text is min-x, min-y, width, height", 6)
    rep.rule("missing", "no transform when a quantity is missing", 6)
    I = ops(rep.interp())
    I.add_module("_el", ELEMENT)
    names = ("ex", "ey", "ew", "eh", "vx", "vy", "vw", "vh")
    v = {n: R(n) for n in names}

    def start():
        s = I.start()
        positive(s, "ew", "eh", "vw", "vh")
        return s
    hows = {"": "meet", " meet": "meet", " slice": "slice", "  slice": "slice", "  meet": "meet"}
    aspects = [(None, "xMidYMid", "meet")]
    for al in ALIGNS:
        for h, how in hows.items():
            aspects.append((al + h, al, how))
    for text, al, how in aspects:
        def static():
            s = start()
            return judge(I, method(I, s, I.get(s, "basic", "Viewbox"), "viewbox_transform", *([sym(n) for n in names] + [Const(text)])), v, al, how)
        rep.each("transform", str(text), static)
        if text is None or "  " not in text or rep.thorough:
            for same_box in ("at the origin", "same size", "same origin") if rep.thorough or al in ("xMidYMid", "xMaxYMin", "none") else ():
                def special():
                    s = start()
                    w = dict(v)
                    if same_box == "at the origin":
                        w.update(ex=R(0), ey=R(0), vx=R(0), vy=R(0))
                    elif same_box == "same size":
                        w.update(vw=v["ew"], vh=v["eh"])
                    else:
                        w.update(vx=v["ex"], vy=v["ey"])
                    return judge(I, method(I, s, I.get(s, "basic", "Viewbox"), "viewbox_transform", *([Num(w[n], "f") for n in names] + [Const(text)])), w, al, how)
                rep.each("transform", "%s %s" % (text, same_box), special)

            def element():
                s = start()
                s, e = only(I.run(s, I.get(s, "_el", "Element"), *[sym(n) for n in names[:4]]))
                s, b = new(I, s, "basic", "Viewbox", boxtext([sym(n) for n in names[4:]]), Const(text))
                return judge(I, method(I, s, b, "transform", e), v, al, how)
            rep.each("element", str(text), element)
    for sep in (" ", ",", ", ", "  ", " , ", "\t"):
        for src in ("text", "mapping", "object"):
            if src != "text" and sep not in (" ", ",") and not rep.thorough:
                continue

            def order():
                s = I.start()
                t = boxtext([sym(n) for n in names[4:]], sep)
                if src == "mapping":
                    s, t = only(I.run(s, I.get(s, "_el", "values"), t))
                s, b = new(I, s, "basic", "Viewbox", t)
                if src == "object":
                    s, b = new(I, s, "basic", "Viewbox", b)
                got = []
                for f in ("x", "y", "width", "height"):
                    s, x = attr(I, s, b, f)
                    got.append(rat_of(I, s, x))
                if None in got:
                    return None
                r = cmp_rats(s, ("min-x", "min-y", "width", "height"), got, [v[n] for n in names[4:]])
                if r[0] is True and src == "mapping":
                    s, a = attr(I, s, b, "preserve_aspect_ratio")
                    if a != Const("xMaxYMin slice"):
                        return False, "preserveAspectRatio is %s" % short(a)
                return r
            rep.each("order", "%s separated by %r" % (src, sep), order)

    def negative():
        s = I.start()
        ps = []
        for k, n in enumerate(names[4:]):
            ps += ["-" if k < 2 else " ", NumPiece("lit", sym(n))]
        s, b = new(I, s, "basic", "Viewbox", M.mktext(ps))
        got = []
        for f in ("x", "y", "width", "height"):
            s, x = attr(I, s, b, f)
            got.append(rat_of(I, s, x))
        return cmp_rats(s, ("min-x", "min-y", "width", "height"), got, [-v["vx"], -v["vy"], v["vw"], v["vh"]]) if None not in got else None
    rep.each("order", "negative numbers without separators", negative)
    for k, n in enumerate(names):
        def missing():
            s = start()
            args = [NONE if j == k else sym(m) for j, m in enumerate(names)]
            for s2, t in method(I, s, I.get(s, "basic", "Viewbox"), "viewbox_transform", *(args + [Const("xMidYMid meet")])):
                if isinstance(t, Raise):
                    return False, "raises %s" % t.name, t.where
                if t != Const(""):
                    return False, "gives %s" % short(t)
            return True
        rep.each("missing", n, missing)


def boxtext(ns, sep=" "):
    ps = []
    for k, n in enumerate(ns):
        ps += [sep if k else "", NumPiece("lit", n)]
    return M.mktext(ps)

