"""P07: unit factors of angles.  Text in each unit is parsed with a literal token standing for
any number; factories and readers are value-numbered; the factor of every pair of units must be
the ratio CSS defines."""
import math
from ..helpers import *
from .. import models as M

UNITS = {"deg": Fraction(1, 360), "grad": Fraction(1, 400), "rad": None, "turn": Fraction(1), "%": Fraction(1, 100), "": Fraction(1, 360)}


def rad(u, r):
    """the rotation in radians"""
    k = UNITS[u]
    return r if k is None else r * TAU * R(k)


FACT = {"degrees": "deg", "gradians": "grad", "radians": "rad", "turns": "turn"}
READ = {"as_degrees": "deg", "as_gradians": "grad", "as_radians": "rad", "as_turns": "turn"}


def numval(I, s, v):
    return rat_of(I, s, v)


def judge(I, s, v, want, what):
    g = numval(I, s, v)
    if g is None:
        if isinstance(v, Const):
            return False, "%s is %r" % (what, v)
        return None, "%s is %r" % (what, v)
    r = same(s, g, want)
    return r, "%s is %r where %r is required%s" % (what, g, want, facts_note(s))


def check(rep):
    rep.rule("parse", "text in each unit, letter case and sign denotes the rotation CSS defines", 30)
    rep.rule("factory", "an angle built from a number in a unit is that rotation", 4)
    rep.rule("reader", "reading in a unit inverts that unit's definition", 16)
    rep.rule("normalized", "normalising keeps the rotation and lands in one turn", 2)
    rep.rule("legacy", "hue, arc and point accessors use the same convention in both directions", 8)
    I = rep.interp()
    x = sym("x")

    def A(st):
        return I.get(st, "basic", "Angle")

    def parse(u, pre, style):
        st = I.start()
        I.lits, I.lit_style = {}, style
        try:
            n = Num(R("x"), "i" if style == "integer" else "f")
            ps = [pre, NumPiece("lit", n), u]
            text = M.mktext([p for p in ps if p != ""])
            w = rad(u.lower(), -n.r if pre == "-" else n.r)
            return all_outcomes(method(I, st, A(st), "parse", text), lambda s, v: judge(I, s, v, w, "Angle.parse(%snumber%s)" % (pre, u)))
        finally:
            I.lits, I.lit_style = {}, "decimal"

    for u in UNITS:
        for uu in {u, u.upper(), u.capitalize()}:
            for pre in ("", "-", "+"):
                for style in ("decimal", "integer", "exponent"):
                    rep.each("parse", "%s'%s' %s" % (pre, uu, style), parse, uu, pre, style)

    def const_parse(text, w):
        st = I.start()
        return all_outcomes(method(I, st, A(st), "parse", text), lambda s, v: judge(I, s, v, w, "Angle.parse(%r)" % text))
    for text, w in (("90deg", TAU / R(4)), ("0deg", R(0)), ("100grad", TAU / R(4)), ("-.25turn", -TAU / R(4)), ("1e1rad", R(10)), ("25%", TAU / R(4)), ("180", TAU / R(2)), ("0", R(0))):
        rep.each("parse", text, const_parse, text, w)

    for f, u in FACT.items():
        def fac():
            st = I.start()
            return all_outcomes(method(I, st, A(st), f, x), lambda s, v: judge(I, s, v, rad(u, x.r), "Angle.%s(x)" % f))
        rep.each("factory", f, fac)

        def kind():
            st = I.start()
            return all_outcomes(method(I, st, A(st), f, x), lambda s, v: isinstance(v, Num) and isinstance(v.k, ClassVal) and v.k.name == "Angle")
        rep.each("factory", f + " gives an Angle", kind)
        for g, u2 in READ.items():
            def read():
                st = I.start()

                def one(s, v):
                    w = rad(u, x.r) / rad(u2, R(1))
                    return all_outcomes(I.get_attr(s, v, g), lambda s2, y: judge(I, s2, y, w, "Angle.%s(x).%s" % (f, g)))
                return all_outcomes(method(I, st, A(st), f, x), one)
            rep.each("reader", "%s of %s" % (g, f), read)
    for u in UNITS:
        for g, u2 in READ.items():
            def read_text():
                st = I.start()
                I.lits, I.lit_style = {}, "decimal"
                try:
                    def one(s, v):
                        return all_outcomes(I.get_attr(s, v, g), lambda s2, y: judge(I, s2, y, rad(u, x.r) / rad(u2, R(1)), g))
                    return all_outcomes(method(I, st, A(st), "parse", M.mktext([NumPiece("lit", x), u])), one)
                finally:
                    I.lits = {}
            rep.each("reader", "%s of text '%s'" % (g, u), read_text)

    def posdeg(c):
        st = I.start()

        def one(s, v):
            w = R(c % 360)
            return all_outcomes(I.get_attr(s, v, "as_positive_degrees"), lambda s2, y: judge(I, s2, y, w, "as_positive_degrees of %s degrees" % c))
        return all_outcomes(method(I, st, A(st), "degrees", Num(R(c), "i")), one)
    for c in (0, 45, 359, -10, -90, -350, -400):
        rep.each("legacy", "as_positive_degrees %d" % c, posdeg, c)

    def normal_(sign):
        st = I.start()
        out = []
        for s, v in method(I, st, A(st), "radians", x):
            if isinstance(v, Raise):
                return False, "raises"
            out += method(I, s, v, "normalized")

        def one(s, v, env):
            g = rat_of(I, s, v)
            if g is None:
                return None
            q = evaluate(g, env)
            d = (q - env["x"]) / math.tau
            return (abs(d - round(d)) < 1e-9 and -1e-9 <= q <= math.tau + 1e-9), "normalized() is %g" % q
        return cover(out, {"x": (0, 30) if sign > 0 else (-30, 0)}, one)
    rep.each("normalized", "positive", normal_, 1)
    rep.each("normalized", "negative", normal_, -1)

    # hue in degrees in both directions ----------------------------------------------------
    def hue_read(rgb, deg):
        st = I.start()
        st, c = new(I, st, "basic", "Color", *[num(q) for q in rgb])
        return all_outcomes(I.get_attr(st, c, "hue"), lambda s, v: judge(I, s, v, R(deg), "hue of %s" % (rgb,)))

    for rgb, deg in (((255, 0, 0), 0), ((0, 255, 0), 120), ((0, 0, 255), 240), ((255, 255, 0), 60), ((0, 255, 255), 180), ((255, 0, 255), 300)):
        rep.each("legacy", "hue of %s" % (rgb,), hue_read, rgb, deg)

        def hue_write():
            st = I.start()
            st, c = new(I, st, "basic", "Color", num(255 if rgb[1] else 0), num(0 if rgb[1] else 255), num(0))
            def one(s, v):
                got = []
                for n in ("red", "green", "blue"):
                    s, y = attr(I, s, c, n)
                    q = rat_of(I, s, y)
                    q = q.cval() if q is not None else None
                    if q is None:
                        return None, "channel"
                    got.append(int(q))
                return all(abs(p - q) <= 1 for p, q in zip(got, rgb)), "hue = %d gives %s, required %s" % (deg, got, rgb)
            return all_outcomes(I.set_attr(st, c, "hue", num(deg)), one)
        rep.each("legacy", "set hue %d" % deg, hue_write)

    def hsl_text(unit, val, rgb):
        st = I.start()

        def one(s, c):
            got = []
            for n in ("red", "green", "blue"):
                s, y = attr(I, s, c, n)
                q = rat_of(I, s, y)
                if q is None or q.cval() is None:
                    return None, "channel"
                got.append(int(q.cval()))
            return all(abs(p - q) <= 1 for p, q in zip(got, rgb)), "hsl(%s%s, 100%%, 50%%) is %s, required %s" % (val, unit, got, rgb)
        return all_outcomes(I.run(st, I.get(st, "basic", "Color"), "hsl(%s%s, 100%%, 50%%)" % (val, unit)), one)
    for val, rgb in (("0", (255, 0, 0)), ("120", (0, 255, 0)), ("240", (0, 0, 255)), ("-120", (0, 0, 255)), ("480", (0, 255, 0))):
        rep.each("legacy", "hsl text %s" % val, hsl_text, "", val, rgb)

    # arcs and points ----------------------------------------------------------------------------
    def arc(sweep, name, want):
        st = I.start()
        P = lambda s, a, b: point(I, s, a, b)
        s, st_ = P(st, 1, 0)
        s, en = P(s, 0, 1)
        s, ce = P(s, 0, 0)
        s, px = P(s, 1, 0)
        s, py = P(s, 0, 1)
        s, a = new(I, s, "path", "Arc", st_, en, ce, px, py, sweep)
        return all_outcomes(I.get_attr(s, a, name), lambda s2, v: judge(I, s2, v, want, "Arc.%s" % name))
    w = sym("w")
    rep.each("legacy", "Arc.delta", arc, w, "delta", w.r * R(360) / TAU)
    rep.each("legacy", "Arc.theta", arc, w, "theta", R(0))

    def arc_rot():
        st = I.start()
        s, st_ = point(I, st, 1, 0)
        s, en = point(I, s, 0, 1)
        s, a = new(I, s, "path", "Arc", st_, num(2.0), num(1.0), num(90.0), num(0), num(1), en)
        rs = method(I, s, a, "get_rotation")
        def one(s2, v, env):
            g = rat_of(I, s2, v)
            return None if g is None else (abs(evaluate(g, env) - math.tau / 4) < 1e-6, "an arc with x-axis-rotation 90 is rotated by %g radians" % evaluate(g, env))
        return cover(rs, {}, one, n=3)
    rep.each("legacy", "Arc x-axis-rotation in degrees", arc_rot)

    def polar():
        st = I.start()
        s, p = point(I, st, "px", "py")
        out = []
        for s1, a in method(I, s, A(s), "degrees", x):
            for s2, q in method(I, s1, I.get(s1, "basic", "Point"), "polar", p, a, sym("r")):
                out.append((s2, q))
        t = rad("deg", x.r)
        return all_outcomes(out, lambda s2, q: cmp_point(I, s2, q, (R("px") + R("r") * fun("cos", t), R("py") + R("r") * fun("sin", t))))
    rep.each("legacy", "Point.polar", polar)

    def between(name, static):
        st = I.start()
        s, p = point(I, st, "px", "py")
        s, q = point(I, s, "qx", "qy")
        rs = method(I, s, I.get(s, "basic", "Point"), name, p, q) if static else method(I, s, p, name, q)
        def one(s2, v, env):
            g = rat_of(I, s2, v)
            if g is None:
                return None
            w = math.atan2(env["qy"] - env["py"], env["qx"] - env["px"])
            return abs(evaluate(g, env) - w) < 1e-9, "angle is %g, required %g" % (evaluate(g, env), w)
        return cover(rs, {n: (-5, 5) for n in ("px", "py", "qx", "qy")}, one)
    rep.each("legacy", "Point.angle_to", between, "angle_to", False)
    rep.each("legacy", "Point.angle", between, "angle", True)
