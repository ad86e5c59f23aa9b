"""P31: lengths of straight segments, of paths, and positions along a path.  Segment lengths are
replaced by free positive numbers, one per segment; the result of every path method is extracted as a
decision tree of closed forms and compared, on valuations of every branch, with the walk along the
segments by that share of the total length."""
from ..edits import *
from ..engine import Anchor
from ..sym import fun
from .. import nd
from .p25 import bern

BEZ = {"Line": "se", "Close": "se", "QuadraticBezier": "sce", "CubicBezier": "scde"}


def bern_at(cs, t):
    import math
    n = len(cs) - 1
    return sum(math.comb(n, k) * c * t ** k * (1 - t) ** (n - k) for k, c in enumerate(cs))


def check(rep):
    rep.rule("straight", "the length of a line or close is the distance of its ends, of a move nothing", 6)
    rep.rule("sum", "the length of a path is the sum of the lengths of its segments, computed as accurately as asked for", 8)
    rep.rule("ends", "positions 0 and 1 are the ends of the path", 8)
    rep.rule("point", "a position is the point at that share of the total length", 12)
    rep.rule("points", "each of several positions is the point at its share of the total length", 120)
    rep.rule("none", "a path without extent stays where it is; an empty path has no points", 4)

    def interp(numpy, hooked=True, asked=None, fixed=None):
        I = load(rep.interp())
        I.max_steps = 4000000
        if numpy:
            I.present["numpy"] = nd.numpy
        else:
            I.missing.add("numpy")
        I.missing.add("scipy")
        if hooked:
            def length(I, st, args, kw):
                g = args[0]
                kind = kind_of(st, g)
                if kind == "Move":
                    return [(st, num(0))]
                e = part(I, st, g, "end" if kind != "Close" else "start")
                a = [rat_of(I, st, x) for x in list(args[1:]) + [kw[k] for k in sorted(kw)]]
                if asked is not None:
                    names = ["error", "min_depth"][:len(args) - 1] + sorted(kw)
                    asked.append(dict(zip(names, a)))
                if fixed is not None:
                    return [(st, num(fixed["len %s %s" % (kind, e[0])]))]
                r = R("len %s %s" % (kind, e[0]))
                st.facts.setdefault(Poly.of(atom("len %s %s" % (kind, e[0]))), Interval(Fraction(0), None, True, True))
                return [(st, Num(r, "f"))]
            qs = set()
            s = I.start()
            for kind in SEGMENTS:
                f, owner = I.find(I.get(s, "path", kind), "length")
                if getattr(f, "info", None) is None:
                    raise Anchor("%s.length" % kind)
                qs.add(f.info.qual)
            for q in qs:
                I.hooks[q] = length
        return I

    def name_of(kind, parts):
        if kind == "Move":
            return None
        e = parts[-1] if kind != "Close" else parts[0]
        if kind == "Arc":
            e = parts[1]
        return "len %s %s" % (kind, e[0])

    # lengths ---------------------------------------------------------------------
    for numpy in (False, True):
        lib = "numpy" if numpy else "no numpy"
        I = interp(numpy, False)
        for kind in ("Line", "Close", "Move"):
            def straight():
                s, g, parts = segment(I, I.start(), kind)
                rg = {str(c): (-20, 20) for p in parts for c in p}

                def one(s2, v, env):
                    got = rat_of(I, s2, v)
                    if got is None:
                        return None
                    got = evaluate(got, env)
                    x, y = [evaluate(parts[1][k] - parts[0][k], env) for k in (0, 1)]
                    want = 0 if kind == "Move" else (x * x + y * y) ** 0.5
                    return abs(got - want) < 1e-9 * max(1, want), "length %g where %g is required" % (got, want)
                return cover(method(I, s, g, "length"), rg, one, 40)
            rep.each("straight", "%s %s" % (kind, lib), straight)

    bases = {
        "lines": ("Move", "Line", "Line", "Line"),
        "curves": ("Move", "Line", "QuadraticBezier", "CubicBezier"),
        "closed": ("Move", "Line", "CubicBezier", "Close"),
        "two": ("Move", "Line", "QuadraticBezier", "Move", "Line", "Close"),
        "one": ("Move", "CubicBezier"),
        "close only": ("Move", "Line", "Close"),
    }
    for numpy in (False, True):
        lib = "numpy" if numpy else "no numpy"
        asked = []
        I = interp(numpy, True, asked)
        for bn, base in bases.items():
            segs = chain(base)
            for how in ("plain", "named", "positional"):
                def total():
                    del asked[:]
                    s, p = path_of(I, I.start(), segs)
                    er, dp = sym("er"), sym("dp")
                    args, kw = {"plain": ((), {}), "named": ((), {"error": er, "min_depth": dp}), "positional": ((er, dp), {})}[how]
                    want = R(0)
                    for kind, parts in segs:
                        n = name_of(kind, parts)
                        if n:
                            want = want + R(n)

                    def j(s2, v):
                        r = cmp_number(s2, "length", rat_of(I, s2, v), want)
                        if r[0] is not True or how == "plain":
                            return r
                        for a in asked:
                            for n, w in (("error", er.r), ("min_depth", dp.r)):
                                if a.get(n) is None:
                                    return False, "a segment is measured without the requested %s" % n
                                if same(s2, a[n], w) is False:
                                    return False, "a segment is measured with %s=%r where %r was requested" % (n, a[n], w)
                        return True, ""
                    return all_outcomes(method(I, s, p, "length", *args, **kw), j)
                rep.each("sum", "%s %s %s" % (bn, how, lib), total)

            def again():
                """a rough answer that is remembered does not answer a request for an accurate one"""
                del asked[:]
                s, p = path_of(I, I.start(), segs)
                out = []
                for s2, v in method(I, s, p, "length", num(Fraction(1, 10)), num(2)):
                    if isinstance(v, Raise):
                        out.append((s2, v))
                        continue
                    del asked[:]
                    out += method(I, s2, p, "length", num(Fraction(1, 1000)), num(4))

                def j(s2, v):
                    if not asked:
                        return False, "the rough length is returned again"
                    for a in asked:
                        if a.get("error") is None or same(s2, a["error"], R(Fraction(1, 1000))) is False or same(s2, a["min_depth"], R(4)) is False:
                            return False, "a segment is measured less accurately than requested"
                    return True, ""
                return all_outcomes(out, j)
            rep.each("sum", "%s rough, then accurate %s" % (bn, lib), again)

            def reference(env, t):
                """the walk: coordinates at share t"""
                ls = [evaluate(R(name_of(k, q)), env) if name_of(k, q) else 0.0 for k, q in segs]
                tot = sum(ls)
                at = t * tot
                for (kind, parts), l in zip(segs, ls):
                    if l and at <= l:
                        cs = parts
                        return [bern_at([evaluate(c[ax], env) for c in cs], at / l) for ax in (0, 1)]
                    at -= l
                e = segs[-1][1][-1]
                return [evaluate(c, env) for c in e]
            rg = {}
            for kind, parts in segs:
                if name_of(kind, parts):
                    rg[name_of(kind, parts)] = (0.05, 8)
                for q in parts:
                    for c in q or ():
                        rg[str(c)] = (-10, 10)

            def close_to(got, want, what):
                for ax, g, w in zip("xy", got, want):
                    if abs(g - w) > 1e-6:
                        return False, "%s.%s is %g where the walk is at %g" % (what, ax, g, w)
                return True

            def pnt():
                s, p = path_of(I, I.start(), segs)
                t = sym("t")
                s.facts[Poly.of(atom("t"))] = Interval(Fraction(0), Fraction(1), True, True)
                rs = method(I, s, p, "point", t)

                def one(s2, v, env):
                    if isinstance(v, Raise):
                        return False, "raises %s" % v.name
                    c = xy(I, s2, v)
                    if c is None:
                        return False if v == NONE else None
                    return close_to([evaluate(x, env) for x in c], reference(env, env["t"] if "t" in env else evaluate(t.r, env)), "point")
                return cover(rs, dict(rg, t=(0.001, 0.999)), one, 60)
            rep.each("point", "%s %s" % (bn, lib), pnt)
            for k in (0, 1):
                def end():
                    s, p = path_of(I, I.start(), segs)
                    want = segs[0][1][-1] if k == 0 else segs[-1][1][-1]
                    return all_outcomes(method(I, s, p, "point", num(k)), lambda s2, v: cmp_point(I, s2, v, want, "point(%d)" % k))
                rep.each("ends", "%s at %d %s" % (bn, k, lib), end)
            samples = {"spread": (Fraction(1, 10), Fraction(9, 20), Fraction(9, 10)), "late": (Fraction(97, 100),), "all": (Fraction(0), Fraction(7, 10), Fraction(1)), "back": (Fraction(21, 25), Fraction(17, 100)), "twice": (Fraction(2, 5), Fraction(2, 5))}
            named = [name_of(k, q) for k, q in segs if name_of(k, q)]
            for an, assign in (("even", (1, 1, 1, 1)), ("rising", (1, 2, 5, 11)), ("falling", (9, 4, 2, 1)), ("gap", (3, 0, 1, 4))):
                fixed = dict(zip(named, [Fraction(x) for x in assign]))
                if not any(fixed.values()):
                    continue
                J = interp(numpy, True, None, fixed)

                def walk(t):
                    tot = sum(fixed.values())
                    at = t * tot
                    if t == 1:
                        return segs[-1][1][-1]
                    for kind, parts in segs:
                        l = fixed.get(name_of(kind, parts), 0)
                        if l and at < l:
                            return bern(parts, R(at / l))
                        at -= l
                for sn, ts in samples.items():
                    for how in ("array", "list") if numpy else ("list",):
                        def many():
                            s, p = path_of(J, J.start(), segs)
                            arg = nd.make(s, [num(t) for t in ts]) if how == "array" else s.list([num(t) for t in ts])

                            def one(s2, v):
                                rows = nd.rows_of(J, s2, v) if nd.is_nd(s2, v) else items(J, s2, v)
                                if rows is None:
                                    return False if v == NONE else None
                                if len(rows) != len(ts):
                                    return False, "%d points for %d positions" % (len(rows), len(ts))
                                res = True, ""
                                for t, r in zip(ts, rows):
                                    what = "point at %s" % t
                                    if isinstance(r, list):
                                        if any(isinstance(x, Opaque) and "uninitialised" in repr(x) for x in r):
                                            return False, "the %s is never computed" % what
                                        q = cmp_rats(s2, (what + ".x", what + ".y"), [rat_of(J, s2, x) for x in r], walk(t))
                                    else:
                                        q = cmp_point(J, s2, r, walk(t), what)
                                    if q[0] is False:
                                        return q
                                    if q[0] is None:
                                        res = q
                                return res
                            return all_outcomes(method(J, s, p, "npoint", arg), one)
                        rep.each("points", "%s %s lengths %s %s %s" % (bn, an, sn, how, lib), many)
        # no extent
        J = interp(numpy, False)
        here = (R(3), R(4))

        def still(t, m):
            def f():
                s, p = path_of(J, J.start(), [("Move", (None, here)), ("Line", (here, here)), ("Line", (here, here)), ("Close", (here, here))])
                if m == "point":
                    return all_outcomes(method(J, s, p, "point", num(t)), lambda s2, v: cmp_point(J, s2, v, here, "point"))
                arg = s.list([num(t), num(Fraction(1, 3))])

                def j(s2, v):
                    rows = nd.rows_of(J, s2, v) if nd.is_nd(s2, v) else items(J, s2, v)
                    if rows is None or len(rows) != 2:
                        return False, "not two points"
                    for r in rows:
                        q = cmp_rats(s2, "xy", [rat_of(J, s2, x) for x in r], here) if isinstance(r, list) else cmp_point(J, s2, r, here, "point")
                        if q[0] is not True:
                            return q
                    return True
                return all_outcomes(method(J, s, p, "npoint", arg), j)
            return f
        for t in (0, Fraction(1, 2), 1):
            for m in ("point", "npoint"):
                rep.each("none", "%s at %s %s" % (m, t, lib), still(t, m))

        def empty():
            s, p = new(J, J.start(), "path", "Path")
            return all_outcomes(method(J, s, p, "point", num(Fraction(1, 2))), lambda s2, v: (v == NONE, "an empty path has a point %r" % (v,)))
        rep.each("none", "empty %s" % lib, empty)

        def zero():
            s, p = new(J, J.start(), "path", "Path")
            return all_outcomes(method(J, s, p, "length"), lambda s2, v: cmp_number(s2, "length", rat_of(J, s2, v), R(0)))
        rep.each("none", "empty length %s" % lib, zero)
