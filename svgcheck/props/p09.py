"""P09: bit-provenance of the colour channels.  A colour holds four independent integers
R, G, B, A in 0..255 (as one packed number with known bit fields); every setter, packed
number, text form and constructor is followed and the channels read back are compared with
the closed form the property gives."""
import colorsys
import itertools
from ..helpers import *
from .. import bits
from .. import models as M

CH = ("red", "green", "blue", "alpha")
RGBA = [atom("int:" + n) for n in "RGBA"]
BYTE = Interval(Fraction(0), Fraction(255))


def iatom(st, name, lo=None, hi=None):
    a = atom("int:" + name)
    if lo is not None or hi is not None:
        st.facts[Poly.of(a)] = Interval(None if lo is None else Fraction(lo), None if hi is None else Fraction(hi))
    return Num(Rat(Poly.of(a)), "i")


def pack(rs):
    t = R(0)
    for r in rs:
        t = t * R(256) + r
    return t


def color(I):
    """a colour with independent channels -> (state, ref, channel rats)"""
    st = I.start()
    rs = [iatom(st, n, 0, 255).r for n in "RGBA"]
    st, c = new(I, st, "basic", "Color")
    out = I.set_attr(st, c, "rgba", Num(pack(rs), "i"))
    ok = [(s, v) for s, v in out if not isinstance(v, Raise)]
    if len(ok) != 1:
        raise AnalysisLimit("rgba setter")
    return ok[0][0], c, rs


def read(I, s, c):
    out = []
    for n in CH:
        rs = I.get_attr(s, c, n)
        out.append(rs)
    return out


def judge(I, s, c, want, names=CH, tol=None):
    """every channel of c against its closed form, in every outcome"""
    res = True, ""
    for n, w in zip(names, want):
        for s2, v in I.get_attr(s, c, n):
            if isinstance(v, Raise):
                if feasible(s2):
                    return False, "reading %s raises %s" % (n, v.name), v.where
                continue
            g = rat_of(I, s2, v)
            if g is None:
                if isinstance(v, Const):
                    return False, "%s is %r" % (n, v)
                res = None, "%s is %r" % (n, v)
                continue
            if tol is None:
                r = same(s2, g, w, tol=1e-12)
            else:
                r = always(s2, lambda env: abs(evaluate(s2.norm(g), env) - evaluate(s2.norm(w), env)) <= tol, [g, w], n=25)
            if r is False:
                return False, "%s = %r where %r is required%s" % (n, s2.norm(g), s2.norm(w), facts_note(s2))
            if r is None:
                res = None, "%s undecided" % n
    return res


def clamp(v):
    return fun("min", R(255), fun("max", R(0), v))


def after(I, outs, fn):
    """outcomes of a store: judge the state"""
    return all_outcomes(outs, lambda s, v: fn(s))


def hexd(I, st, n, letters):
    """n independent hexadecimal digits, with a representative spelling each"""
    chars = ("abcde" if letters else "") + "12345678"
    I.hexd, I.hexspell = {}, {}
    ds = []
    for i in range(n):
        d = iatom(st, "d%d" % i, 0, 15)
        I.hexd[chars[i]] = d
        if chars[i].isalpha():
            I.hexd[chars[i].upper()] = d
        I.hexspell[d] = chars[i]
        ds.append(d)
    return ds


def hexpieces(I, st, v):
    """text as a list of characters / bit quadruples, or None"""
    if isinstance(v, Const) and isinstance(v.v, str):
        return list(v.v)
    if isinstance(v, Text):
        return bits.digits(st, v.pieces)
    return None


def quads(st, r):
    w = bits.word(st, r)
    if w is None or w.top != 0:
        return None
    out = []
    for k in (1, 0):
        q = [w.bit(4 * k + i) for i in range(4)]
        out.append("%x" % sum(b << i for i, b in enumerate(q)) if all(b in (0, 1) for b in q) else q)
    return out


def check(rep):
    rep.rule("setter", "writing one channel stores the clamped value and leaves the other three unchanged", 5)
    rep.rule("packed", "rgb, rgba and argb numbers place each channel consistently for reading and writing", 8)
    rep.rule("hexread", "a hexadecimal text of 3, 4, 6 or 8 digits gives the channels CSS assigns to its digits", 8)
    rep.rule("hexwrite", "hex and hexa write two digits per channel in the order red, green, blue, alpha", 2)
    rep.rule("construct", "constructors put each argument into its channel", 12)
    rep.rule("functional", "rgb()/rgba()/hsl() notations give the specified channels", 10)
    rep.rule("hsl", "adjusting hue, saturation or lightness keeps the other two and the alpha channel", 6)
    I = rep.interp()

    # channel setters ---------------------------------------------------------
    for i, n in enumerate(CH):
        def chan():
            s, c, rs = color(I)
            v = iatom(s, "v")
            want = list(rs)
            want[i] = clamp(v.r)
            return after(I, I.set_attr(s, c, n, v), lambda s2: judge(I, s2, c, want))
        rep.each("setter", n, chan)

        def roundtrip():
            s, c, rs = color(I)
            v = iatom(s, "v", 0, 255)
            want = list(rs)
            want[i] = v.r
            return after(I, I.set_attr(s, c, n, v), lambda s2: judge(I, s2, c, want))
        rep.each("setter", n + " in range", roundtrip)

    def opac():
        s, c, rs = color(I)
        v = sym("o")
        s.facts[Poly.of(atom("o"))] = Interval(Fraction(-2), Fraction(3))
        outs = I.set_attr(s, c, "opacity", v)
        r = after(I, outs, lambda s2: judge(I, s2, c, rs[:3], CH[:3]))
        if r[0] is not True:
            return r
        return after(I, outs, lambda s2: judge(I, s2, c, [clamp(v.r * R(255))], ["alpha"], tol=1.0))
    rep.each("setter", "opacity", opac)

    def opacity_read():
        s, c, rs = color(I)
        return judge(I, s, c, [rs[3] / R(255)], ["opacity"])
    rep.each("setter", "opacity read", opacity_read)

    def value_read():
        s, c, rs = color(I)
        return judge(I, s, c, rs)
    rep.each("packed", "rgba write, channels read", value_read)

    def packed_get(n, order):
        s, c, rs = color(I)
        return judge(I, s, c, [pack([rs[k] for k in order])], [n])
    rep.each("packed", "rgb read", packed_get, "rgb", (0, 1, 2))
    rep.each("packed", "rgba read", packed_get, "rgba", (0, 1, 2, 3))
    rep.each("packed", "argb read", packed_get, "argb", (3, 0, 1, 2))

    def packed_set(n, order):
        s, c, rs = color(I)
        new_ = [iatom(s, "n%s" % k, 0, 255).r for k in "rgba"]
        want = list(new_)
        if len(order) == 3:
            want[3] = R(255)
        v = Num(pack([new_[k] for k in order]), "i")
        return after(I, I.set_attr(s, c, n, v), lambda s2: judge(I, s2, c, want))
    rep.each("packed", "rgb write", packed_set, "rgb", (0, 1, 2))
    rep.each("packed", "rgba write", packed_set, "rgba", (0, 1, 2, 3))
    rep.each("packed", "argb write", packed_set, "argb", (3, 0, 1, 2))

    def as_int():
        s, c, rs = color(I)
        return all_outcomes(I.run(s, BuiltinClass("int"), c), lambda s2, v: same(s2, rat_of(I, s2, v), pack(rs)) if rat_of(I, s2, v) is not None else None)
    rep.each("packed", "int()", as_int)

    # hexadecimal text --------------------------------------------------------
    def hexread(n, hash_, letters, via):
        st = I.start()
        try:
            ds = hexd(I, st, n, letters)
            text = Text((("#",) if hash_ else ()) + tuple(NumPiece("hexd", d) for d in ds))
            d = [x.r for x in ds]
            if n in (3, 4):
                want = [x * R(17) for x in d]
            else:
                want = [d[2 * k] * R(16) + d[2 * k + 1] for k in range(n // 2)]
            if len(want) == 3:
                want.append(R(255))
            if via == "Color":
                return all_outcomes(I.run(st, I.get(st, "basic", "Color"), text), lambda s, c: judge(I, s, c, want))
            rs = method(I, st, I.get(st, "basic", "Color"), "parse", text)

            def val(s, v):
                g = rat_of(I, s, v)
                if g is None:
                    return (False, "Color.parse gives %r" % v) if isinstance(v, Const) else (None, repr(v))
                return same(s, g, pack(want)), "Color.parse gives %r, required %r" % (g, pack(want))
            return all_outcomes(rs, val)
        finally:
            I.hexd, I.hexspell = {}, {}
    for n in (3, 4, 6, 8):
        for hash_ in (True, False):
            for letters in (False, True):
                rep.each("hexread", "%d digits%s%s" % (n, " with #" if hash_ else "", " letters" if letters else ""), hexread, n, hash_, letters, "Color")
        rep.each("hexread", "%d digits parse" % n, hexread, n, True, False, "parse")

    def hexwrite(name):
        s, c, rs = color(I)

        def one(s2, v):
            ds = hexpieces(I, s2, v)
            if ds is None:
                return (False, "%s is %r" % (name, v)) if isinstance(v, Const) else (None, repr(v))
            want = ["#"]
            opaque = same(s2, rs[3], R(255)) is True
            n = 3 if name == "hex" and opaque else 4
            for r in rs[:n]:
                q = quads(s2, r)
                if q is None:
                    return None, "digits"
                want += q
            return ds == want, "%s is written %r where %r is required%s" % (name, ds, want, facts_note(s2))
        return all_outcomes(I.get_attr(s, c, name), one)
    rep.each("hexwrite", "hexa", hexwrite, "hexa")
    rep.each("hexwrite", "hex", hexwrite, "hex")

    def strwrite():
        s, c, rs = color(I)
        rs_ = I.run(s, BuiltinClass("str"), c)

        def one(s2, v):
            ds = hexpieces(I, s2, v)
            if ds is None:
                return None, repr(v)
            want = ["#"]
            opaque = same(s2, rs[3], R(255)) is True
            for r in rs[: 3 if opaque else 4]:
                want += quads(s2, r)
            return ds == want, "str() is %r where %r is required" % (ds, want)
        return all_outcomes(rs_, one)
    rep.each("hexwrite", "str", strwrite)

    # constructors ------------------------------------------------------------
    def construct(args, kw, want, tol=None):
        def go():
            st = I.start()
            a = [x(st) if callable(x) else x for x in args]
            k = {n: (x(st) if callable(x) else x) for n, x in kw.items()}
            w = want(st)
            return all_outcomes(I.run(st, I.get(st, "basic", "Color"), *a, **k), lambda s, c: judge(I, s, c, w, tol=tol))
        return go

    def nn(name, lo=None, hi=None):
        return lambda st: iatom(st, name, lo, hi)

    def rr(*names):
        return [Rat(Poly.of(atom("int:" + n))) for n in names]
    r3 = (nn("x"), nn("y"), nn("z"))
    rep.each("construct", "Color(r, g, b)", construct(r3, {}, lambda st: [clamp(x) for x in rr("x", "y", "z")] + [R(255)]))
    rep.each("construct", "Color(r, g, b, a)", construct(r3 + (nn("w", 0, 255),), {}, lambda st: [clamp(x) for x in rr("x", "y", "z", "w")], ))
    rep.each("construct", "Color(r, g, b, a) any a", construct((nn("x", 0, 255), nn("y", 0, 255), nn("z", 0, 255), nn("w")), {}, lambda st: rr("x", "y", "z") + [clamp(rr("w")[0])], tol=1.0))
    rep.each("construct", "Color()", construct((), {}, lambda st: [R(0)] * 3, tol=0.0))

    def packed_arg(st):
        return Num(pack([iatom(st, n, 0, 255).r for n in "xyz"]), "i")
    rep.each("construct", "Color(int)", construct((packed_arg,), {}, lambda st: rr("x", "y", "z") + [R(255)]))
    rep.each("construct", "Color(int, opacity)", construct((packed_arg, 0.5), {}, lambda st: rr("x", "y", "z") + [R(Fraction(255, 2))], tol=1.0))
    rep.each("construct", "Color(text, opacity)", construct(("darksalmon", 0.5), {}, lambda st: [R(233), R(150), R(122), R(Fraction(255, 2))], tol=1.0))

    def other():
        s, c, rs = color(I)
        return all_outcomes(I.run(s, I.get(s, "basic", "Color"), c), lambda s2, d: judge(I, s2, d, rs))
    rep.each("construct", "Color(Color)", other)

    def other2():
        s, c, rs = color(I)
        return all_outcomes(I.run(s, I.get(s, "basic", "Color"), c, 0.5), lambda s2, d: judge(I, s2, d, rs[:3] + [R(Fraction(255, 2))], tol=1.0))
    rep.each("construct", "Color(Color, opacity)", other2)
    base = ["darksalmon"]
    dark = [R(233), R(150), R(122), R(255)]
    for i, n in enumerate(CH):
        def w(st, i=i):
            x = list(dark)
            x[i] = clamp(rr("v")[0])
            return x
        rep.each("construct", "Color(keyword, %s=)" % n, construct(base, {n: nn("v")}, w))
        if i < 3:
            rep.each("construct", "Color(keyword, %s=)" % n[0], construct(base, {n[0]: nn("v")}, w))
    rep.each("construct", "Color(red=, green=, blue=, alpha=)", construct((), {"red": nn("x"), "green": nn("y"), "blue": nn("z"), "alpha": nn("w")}, lambda st: [clamp(x) for x in rr("x", "y", "z", "w")]))
    rep.each("construct", "Color(keyword, opacity=)", construct(base, {"opacity": 0.5}, lambda st: dark[:3] + [R(Fraction(255, 2))], tol=1.0))

    def pk(order):
        return lambda st: Num(pack([iatom(st, n, 0, 255).r for n in order]), "i")
    rep.each("construct", "Color(rgb=)", construct((), {"rgb": pk("xyz")}, lambda st: rr("x", "y", "z") + [R(255)]))
    rep.each("construct", "Color(rgba=)", construct((), {"rgba": pk("xyzw")}, lambda st: rr("x", "y", "z", "w")))
    rep.each("construct", "Color(argb=)", construct((), {"argb": pk("wxyz")}, lambda st: rr("x", "y", "z", "w")))

    # functional notation -------------------------------------------------------
    def lits(*parts):
        return M.mktext([p if isinstance(p, str) else NumPiece("lit", p) for p in parts])

    def outcomes(I, rs, n):
        out = []
        for s, c in rs:
            if isinstance(c, Raise):
                out.append((s, c))
            else:
                out.extend(I.get_attr(s, c, n))
        return out

    def against(rs, ranges, want, tol):
        """channels of every outcome against want(i, env) on sampled valuations"""
        res = True, ""
        for i, n in enumerate(CH):
            def one(s, v, env):
                g = rat_of(I, s, v)
                if g is None:
                    return (False, "%s is %r" % (n, v)) if isinstance(v, Const) else None
                g, w = evaluate(g, env), want(i, env)
                return abs(g - w) <= tol, "%s is %g, required %g" % (n, g, w)
            r = cover(outcomes(I, rs, n), ranges, one)
            if r is not True:
                if r[0] is False:
                    return r
                res = r
        return res

    def functional(parts, want, ranges, style="integer", tol=0.51):
        st = I.start()
        I.lits, I.lit_style = {}, style
        ranges = {n: rg for n, rg in ranges.items() if any(isinstance(p, Num) and atom(n) in p.r.all_atoms() for p in parts)}
        try:
            rs = I.run(st, I.get(st, "basic", "Color"), lits(*parts))
            return against(rs, ranges, lambda i, env: evaluate(want[i], env), tol)
        finally:
            I.lits, I.lit_style = {}, "decimal"
    x, y, z, o = (Num(R("int:" + n), "i") for n in "xyzo")
    fx, fy, fz, fo = (sym(n) for n in ("fx", "fy", "fz", "fo"))
    R255 = R(255)
    for fn in ("rgb", "rgba"):
        for sep in (", ", ","):
            rep.each("functional", "%s(%s) 3" % (fn, sep), functional, [fn + "(", x, sep, y, sep, z, ")"], [clamp(v.r) for v in (x, y, z)] + [R255], {"int:" + q: (-60, 320) for q in "xyz"})
            rep.each("functional", "%s(%s) 4" % (fn, sep), functional, [fn + "(", fx, sep, fy, sep, fz, sep, fo, ")"], [clamp(v.r) for v in (fx, fy, fz)] + [clamp(fo.r * R255)], {"fx": (-50, 300), "fy": (-50, 300), "fz": (-50, 300), "fo": (-1, 2)}, "decimal", 1.0)
        rep.each("functional", "%s percent" % fn, functional, [fn + "(", fx, "%, ", fy, "%, ", fz, "%)"], [clamp(v.r * R(Fraction(255, 100))) for v in (fx, fy, fz)] + [R255], {"fx": (-20, 130), "fy": (-20, 130), "fz": (-20, 130)}, "decimal", 1.0)
        rep.each("functional", "%s percent 4" % fn, functional, [fn + "(", fx, "%, ", fy, "%, ", fz, "%, ", fo, ")"], [clamp(v.r * R(Fraction(255, 100))) for v in (fx, fy, fz)] + [clamp(fo.r * R255)], {"fx": (-20, 130), "fy": (-20, 130), "fz": (-20, 130), "fo": (-1, 2)}, "decimal", 1.0)

    def css(h, sat, l, a):
        """channel i of an hsl colour by the CSS formula"""
        def want(i, env):
            f = lambda q: evaluate(q, env)
            if i == 3:
                return min(255.0, max(0.0, f(a)))
            ss = min(1.0, max(0.0, f(sat)))
            ll = min(1.0, max(0.0, f(l)))
            return 255.0 * colorsys.hls_to_rgb((f(h) / 360.0) % 1.0, ll, ss)[i]
        return want

    def hsl_text(fn, hv, sv, lv, av, rg):
        st = I.start()
        I.lits, I.lit_style = {}, "decimal"
        try:
            parts = [fn + "(", hv, ", ", sv, "%, ", lv, "%"] + ([", ", av] if av is not None else []) + [")"]
            rs = I.run(st, I.get(st, "basic", "Color"), lits(*parts))
            q = lambda v: v.r if isinstance(v, Num) else R(Fraction(v))
            return against(rs, rg, css(q(hv), q(sv) / R(100), q(lv) / R(100), q(av) * R255 if av is not None else R255), 1.01)
        finally:
            I.lits = {}
    rg3 = {"fx": (-500, 800), "fy": (-10, 120), "fz": (-10, 120)}
    for fn in ("hsl", "hsla"):
        rep.each("functional", fn + " 3", hsl_text, fn, fx, fy, fz, None, rg3)
        rep.each("functional", fn + " 4", hsl_text, fn, fx, "61.5", "43.5", "0.5", {"fx": (-500, 800)})
        rep.each("functional", fn + " alpha", hsl_text, fn, "120", "61.5", "43.5", fo, {"fo": (-0.5, 1.5)})
        for sat, lig in (("0", "43.5"), ("61.5", "0"), ("61.5", "100"), ("100", "50"), ("0", "0"), ("0", "100")):
            rep.each("functional", "%s alpha, saturation %s lightness %s" % (fn, sat, lig), hsl_text, fn, "210", sat, lig, fo, {"fo": (-0.5, 1.5)})
            rep.each("functional", "%s no alpha, saturation %s lightness %s" % (fn, sat, lig), hsl_text, fn, fx, sat, lig, None, {"fx": (-500, 800)})

    # hue, saturation, lightness --------------------------------------------------
    CONCRETE = [(200, 60, 30, 130), (30, 190, 220, 255), (10, 40, 200, 0), (120, 130, 90, 77), (250, 20, 200, 9)]

    def hls(rgb):
        h, l, s = colorsys.rgb_to_hls(*[v / 255.0 for v in rgb])
        return h * 360.0, s, l

    def hsl_read(rgba):
        st = I.start()
        st, c = new(I, st, "basic", "Color")
        (st, _), = I.set_attr(st, c, "rgba", num(int((rgba[0] << 24) | (rgba[1] << 16) | (rgba[2] << 8) | rgba[3])))
        want = hls(rgba[:3])
        return judge(I, st, c, [R(Fraction(w)) for w in want], ("hue", "saturation", "lightness"), tol=1e-6)
    for rgba in CONCRETE:
        rep.each("hsl", "read %s" % (rgba,), hsl_read, rgba)

    def hsl_set(rgba, which):
        """the new value is any number in range; the other two come from the colour"""
        st = I.start()
        st, c = new(I, st, "basic", "Color")
        (st, _), = I.set_attr(st, c, "rgba", num(int((rgba[0] << 24) | (rgba[1] << 16) | (rgba[2] << 8) | rgba[3])))
        v = sym("nv")
        w = dict(zip(("hue", "saturation", "lightness"), [R(Fraction(q)) for q in hls(rgba[:3])]))
        w[which] = v.r
        rs = I.set_attr(st, c, which, v)
        rs = [(s, x if isinstance(x, Raise) else c) for s, x in rs]
        return against(rs, {"nv": (0, 360) if which == "hue" else (0.01, 0.99)}, css(w["hue"], w["saturation"], w["lightness"], R(rgba[3])), 1.01)
    for rgba in CONCRETE:
        for which in ("hue", "saturation", "lightness"):
            rep.each("hsl", "write %s of %s" % (which, rgba), hsl_set, rgba, which)

    def hsl_edge(rgba, which, v):
        st = I.start()
        st, c = new(I, st, "basic", "Color")
        (st, _), = I.set_attr(st, c, "rgba", num(int((rgba[0] << 24) | (rgba[1] << 16) | (rgba[2] << 8) | rgba[3])))
        w = dict(zip(("hue", "saturation", "lightness"), [R(Fraction(q)) for q in hls(rgba[:3])]))
        w[which] = R(v)
        rs = [(s, x if isinstance(x, Raise) else c) for s, x in I.set_attr(st, c, which, num(v))]
        return against(rs, {}, css(w["hue"], w["saturation"], w["lightness"], R(rgba[3])), 1.01)
    for rgba in CONCRETE + [(90, 90, 90, 31), (0, 0, 0, 200), (255, 255, 255, 60), (17, 17, 17, 0)]:
        for which, v in (("hue", 0), ("hue", 360), ("hue", 120), ("saturation", 0), ("saturation", 1), ("lightness", 0), ("lightness", 1)):
            rep.each("hsl", "write %s %s of %s" % (which, v, rgba), hsl_edge, rgba, which, v)

    HSL = {"h": (0, 360), "sa": (0.01, 0.99), "li": (0.01, 0.99)}
    h, sa, li = sym("h"), sym("sa"), sym("li")

    def hsl_tuple():
        s, c, rs = color(I)
        out = I.set_attr(s, c, "hsl", Tup((h, sa, li)))
        out = [(s2, x if isinstance(x, Raise) else c) for s2, x in out]
        rg = dict(HSL)
        rg.update({a.name: (0, 255) for a in RGBA})
        return against(out, rg, css(h.r, sa.r, li.r, rs[3]), 1.01)
    rep.each("hsl", "write hsl", hsl_tuple)

    def hsl_kw(**kw):
        st = I.start()
        rs = I.run(st, I.get(st, "basic", "Color"), **kw)
        w = css(h.r, sa.r, li.r, R(0))
        res = True, ""
        for i, n in enumerate(CH[:3]):
            def one(s, v, env):
                g = rat_of(I, s, v)
                if g is None:
                    return None
                return abs(evaluate(g, env) - w(i, env)) <= 1.01, "%s is %g, required %g" % (n, evaluate(g, env), w(i, env))
            r = cover(outcomes(I, rs, n), HSL, one)
            if r is not True:
                if r[0] is False:
                    return r
                res = r
        return res
    rep.each("hsl", "Color(hue=, saturation=, lightness=)", lambda: hsl_kw(hue=h, saturation=sa, lightness=li))
    rep.each("hsl", "Color(h=, s=, l=)", lambda: hsl_kw(h=h, s=sa, l=li))
