"""P25: points and boxes of lines and Bezier curves.  The point methods are interpreted with symbolic
end and control points and a symbolic parameter, with numpy present (array model) and absent; the
result has to normalise to the Bernstein combination.  Boxes are extracted as decision trees of
closed forms and compared, on valuations of every branch, with the extremes of the polynomial."""
import math

from ..objects import *
from .. import nd

BEZ = {"Line": "se", "Close": "se", "QuadraticBezier": "sce", "CubicBezier": "scde"}


def bern(parts, t):
    n = len(parts) - 1
    u = R(1) - t
    out = []
    for ax in (0, 1):
        x = R(0)
        for k, p in enumerate(parts):
            c = R(math.comb(n, k)) * p[ax]
            for _ in range(k):
                c = c * t
            for _ in range(n - k):
                c = c * u
            x = x + c
        out.append(x)
    return out


def extremes(cs):
    """least and greatest value over [0, 1] of the Bezier polynomial with these coefficients"""
    n = len(cs) - 1
    b = lambda t: sum(math.comb(n, k) * c * t ** k * (1 - t) ** (n - k) for k, c in enumerate(cs))
    d = [n * (cs[k + 1] - cs[k]) for k in range(n)]
    ts = [0.0, 1.0]
    if n == 2:
        q = d[0] - d[1]
        if q:
            ts.append(d[0] / q)
    elif n == 3:
        a, h, c = d[0] - 2 * d[1] + d[2], 2 * (d[1] - d[0]), d[0]
        if abs(a) > 1e-14:
            w = h * h - 4 * a * c
            if w >= 0:
                ts += [(-h + math.sqrt(w)) / (2 * a), (-h - math.sqrt(w)) / (2 * a)]
        if abs(a) < 1e-9 and abs(h) > 1e-14:
            ts.append(-c / h)
    vs = [b(t) for t in ts if 0 <= t <= 1]
    return min(vs), max(vs)


def check(rep):
    rep.rule("point", "the point at a parameter is the Bernstein combination of the defining points", 12)
    rep.rule("ends", "parameters 0 and 1 give the end points", 12)
    rep.rule("points", "each of several points is the Bernstein combination for its parameter", 12)
    rep.rule("box", "the box is spanned per axis by both ends and every interior extreme", 40)
    rep.rule("window", "the box of a path window is spanned by the boxes of its segments", 4)

    def interp(numpy):
        I = ops(rep.interp())
        if numpy:
            I.present["numpy"] = nd.numpy
        else:
            I.missing.add("numpy")
        I.missing.add("scipy")
        return I
    for numpy in (False, True):
        I = interp(numpy)
        lib = "numpy" if numpy else "no numpy"

        def param(s, n, closed=True):
            t = sym(n)
            s.facts[Poly.of(atom(n))] = Interval(Fraction(0), Fraction(1), not closed, not closed)
            return t

        for kind in BEZ:
            def pnt(kind=kind):
                s, g, parts = segment(I, I.start(), kind)
                t = param(s, "t")
                want = bern(parts, t.r)
                return all_outcomes(method(I, s, g, "point", t), lambda s2, v: cmp_point(I, s2, v, want, "point(t)"))
            rep.each("point", "%s %s" % (kind, lib), pnt)
            for k in (0, 1, Fraction(1, 2)):
                def end(kind=kind, k=k):
                    s, g, parts = segment(I, I.start(), kind)
                    want = bern(parts, R(k))
                    return all_outcomes(method(I, s, g, "point", num(k)), lambda s2, v: cmp_point(I, s2, v, want, "point(%s)" % k))
                rep.each("ends", "%s at %s %s" % (kind, k, lib), end)
            for how in ("list", "tuple", "array") if numpy else ("list", "tuple"):
                def many(kind=kind, how=how):
                    s, g, parts = segment(I, I.start(), kind)
                    ts = [param(s, n) for n in ("t1", "t2", "t3")]
                    if how == "array":
                        arg = nd.make(s, ts)
                    else:
                        arg = Tup(tuple(ts)) if how == "tuple" else s.list(list(ts))
                    wants = [bern(parts, t.r) for t in ts]

                    def j(s2, v):
                        rows = nd.rows_of(I, s2, v) if nd.is_nd(s2, v) else items(I, s2, v)
                        if rows is None:
                            return None, "not a list of points"
                        if len(rows) != len(wants):
                            return False, "%d points for %d parameters" % (len(rows), len(wants))
                        res = True, ""
                        for n, (r, w) in enumerate(zip(rows, wants)):
                            if isinstance(r, list):
                                got = [rat_of(I, s2, x) for x in r]
                                q = cmp_rats(s2, ("x of point %d" % n, "y of point %d" % n), got, w) if len(got) == 2 else (False, "%d coordinates" % len(got))
                            else:
                                q = cmp_point(I, s2, r, w, "point %d" % n)
                            if q[0] is False:
                                return q
                            if q[0] is None:
                                res = q
                        return res
                    return all_outcomes(method(I, s, g, "npoint", arg), j)
                rep.each("points", "%s %s %s" % (kind, how, lib), many)

        # boxes -------------------------------------------------------------------
        def box(kind, parts, ranges, n=40, scale=1.0):
            s = I.start()
            s, g = raw_segment(I, s, kind, parts)
            rs = method(I, s, g, "bbox")

            def one(s2, v, env):
                xs = items(I, s2, v)
                if xs is None or len(xs) != 4:
                    return False, "the box is %r" % (v,)
                got = [rat_of(I, s2, x) for x in xs]
                if any(x is None for x in got):
                    return None
                got = [evaluate(x, env) for x in got]
                cx = extremes([evaluate(p[0], env) for p in parts])
                cy = extremes([evaluate(p[1], env) for p in parts])
                want = [cx[0], cy[0], cx[1], cy[1]]
                reach = max([scale] + [abs(x) for x in want])
                for name, a, b in zip(("xmin", "ymin", "xmax", "ymax"), got, want):
                    if abs(a - b) > 1e-6 * reach:
                        return False, "%s is %g where the curve reaches %g" % (name, a, b)
                return True
            return cover(rs, ranges, one, n)

        def generic(kind):
            parts = seg_parts(kind)
            rg = {}
            for p in parts:
                for r in p:
                    for a in r.all_atoms():
                        rg[a.name] = (-10, 10)
            return parts, rg
        for kind in BEZ:
            parts, rg = generic(kind)
            rep.each("box", "%s any %s" % (kind, lib), box, kind, parts, rg, 200)
            # the same curve drawn very small and very large
            for k in (-5, -2, 3, 6):
                small = {x: (-10.0 ** k, 10.0 ** k) for x in rg}
                rep.each("box", "%s of size 1e%d %s" % (kind, k, lib), box, kind, parts, small, 200, 10.0 ** k)
            # one axis at a time, with the other one constant: all orders of the coefficients
            n = len(parts)
            one = R("v")
            for ax in (0, 1):
                if kind in ("Line", "Close"):
                    continue
                mk = lambda cs: [(c, R(3)) if ax == 0 else (R(3), c) for c in cs]
                cases = {}
                if n == 3:
                    for a, b in ((0, 10), (10, 0), (0, 0), (5, 6)):
                        cases["free control %s %s" % (a, b)] = [R(a), one, R(b)]
                    cases["free start"] = [one, R(4), R(1)]
                    cases["free end"] = [R(4), R(8), one]
                    cases["straight"] = [one, (one + R("w")) / R(2), R("w")]
                else:
                    for a, b, c in ((0, 10, 10), (0, -5, 4), (0, 0, 0), (3, 9, 1), (10, 2, 0)):
                        cases["free control1 %s %s %s" % (a, b, c)] = [R(a), one, R(b), R(c)]
                        cases["free control2 %s %s %s" % (a, b, c)] = [R(a), R(b), one, R(c)]
                        cases["free end %s %s %s" % (a, b, c)] = [R(a), R(b), R(c), one]
                    # the third difference vanishes: a parabola written as a cubic
                    cases["degree 2"] = [R(0), one, R("w"), R(3) * R("w") - R(3) * one]
                    for a, q, b in ((0, 9, 4), (0, -4, 1), (5, 5, 1), (0, 6, 6), (2, 30, -4)):
                        cases["parabola %s %s %s" % (a, q, b)] = [R(a), R(Fraction(a + 2 * q, 3)), R(Fraction(b + 2 * q, 3)), R(b)]
                    cases["straight"] = [one, (R(2) * one + R("w")) / R(3), (one + R(2) * R("w")) / R(3), R("w")]
                for cn, cs in cases.items():
                    names = {a.name for c in cs for a in c.all_atoms()}
                    rep.each("box", "%s axis %d %s %s" % (kind, ax, cn, lib), box, kind, mk(cs), {x: (-12, 12) for x in names}, 60 if names else 2)

        def window():
            s = I.start()
            pts = [(R(1), R(2)), (R("ax"), R("ay")), (R("bx"), R("by")), (R(1), R(2))]
            s, p = new(I, s, "path", "Path")
            for kind, ps in (("Move", [None, pts[0]]), ("Line", pts[0:2]), ("Line", pts[1:3]), ("Close", [pts[2], pts[0]]), ("Move", [pts[0], (R(1000), R(1000))]), ("Line", [(R(1000), R(1000)), (R(2000), R(-900))])):
                s, g = raw_segment(I, s, kind, ps)
                s, _ = only(method(I, s, p, "append", g))
            out = []
            s, w = subpath_of(I, s, p, 0)
            rs = method(I, s, w, "bbox")

            def one(s2, v, env):
                xs = items(I, s2, v)
                if xs is None or len(xs) != 4:
                    return False, "the box is %r" % (v,)
                got = [rat_of(I, s2, x) for x in xs]
                if any(x is None for x in got):
                    return None
                got = [evaluate(x, env) for x in got]
                px = [evaluate(q[0], env) for q in pts]
                py = [evaluate(q[1], env) for q in pts]
                want = [min(px), min(py), max(px), max(py)]
                for name, a, b in zip(("xmin", "ymin", "xmax", "ymax"), got, want):
                    if abs(a - b) > 1e-6:
                        return False, "%s is %g where the window reaches %g" % (name, a, b)
                return True
            return cover(rs, {n: (-20, 20) for n in ("ax", "ay", "bx", "by")}, one, 60)
        rep.each("window", "polygon %s" % lib, window)
