"""P18: affine maps of segments.  Multiplication by a matrix is interpreted on segments, paths and
windows with symbolic coordinates and a symbolic matrix; every defining point of the result has to
be the image of the original one, and the sweep of an arc changes sign with the determinant."""
import re

from ..edits import *

# text, matrix coefficients as functions of the argument closed forms
TEXTS = [
    ("translate({0},{1})", 2), ("scale({0},{1})", 2), ("scale({0})", 1), ("matrix({0} {1} {2} {3} {4} {5})", 6),
    ("rotate({0})", 1), ("skewX({0})", 1), ("skewY({0})", 1), ("translate({0},{1}) rotate({2}) scale({3},{4})", 5)
]


def transform_text(form):
    ps = []
    for k, w in enumerate(re.split(r"\{(\d)\}", form)):
        ps.append(NumPiece("lit", sym("g" + w)) if k % 2 else w)
    return M.mktext(ps)


def image(A, c):
    if c is None:
        return None
    a, b, cc, d, e, f = A
    return a * c[0] + cc * c[1] + e, b * c[0] + d * c[1] + f


def flags(I, s, g):
    out = []
    for n in ("relative", "smooth"):
        s2, v = attr(I, s, g, n)
        out.append(flag_of(I, s2, v) if not isinstance(v, Raise) else None)
    return out


def det(A):
    return A[0] * A[3] - A[1] * A[2]


def check_segment(I, s, g, kind, parts, A, sweep, label=""):
    """g is the image of the segment (kind, parts) under A"""
    r = cmp_segment(I, s, g, kind, [image(A, c) for c in parts], label)
    if r[0] is not True or kind != "Arc":
        return r
    s2, v = attr(I, s, g, "sweep")
    got = rat_of(I, s2, v)
    if got is None:
        return None, "sweep unknown"
    d = det(A)
    sgn = always(s2, lambda env: evaluate(s2.norm(d), env) > 0, [d, sweep], n=6)
    neg = always(s2, lambda env: evaluate(s2.norm(d), env) < 0, [d, sweep], n=6, seed=11)
    if sgn is True:
        q = cmp_number(s2, label + "sweep under an orientation-keeping map", got, sweep)
    elif neg is True:
        q = cmp_number(s2, label + "sweep under a mirroring map", got, -sweep)
    else:
        # both orientations on this branch: the sweep has to follow the determinant
        def follows(env):
            x, w, dd = evaluate(s2.norm(got), env), evaluate(s2.norm(sweep), env), evaluate(s2.norm(d), env)
            if abs(dd) < 1e-6:
                return True
            return abs(x - (w if dd > 0 else -w)) < 1e-9 * max(1.0, abs(w))
        k = always(s2, follows, [d, sweep, got], n=30)
        q = k, "%sthe sweep does not follow the orientation of the map%s" % (label, facts_note(s2)) if k is False else "undecided"
    return q


def check(rep):
    rep.rule("points", "each defining point is mapped exactly once", 90)
    rep.rule("state", "relative and smooth flags are kept", 20)
    rep.rule("orientation", "an arc's sweep changes sign exactly with the orientation of the map", 20)
    rep.rule("none", "absent points stay absent", 4)
    rep.rule("path", "every segment of a path is mapped exactly once", 12)
    rep.rule("window", "a window maps its own segments only", 6)
    rep.rule("edited", "every segment of an edited path is mapped exactly once", 60)
    I = load(rep.interp())
    I.max_steps = 4000000

    def results(rs, judge):
        res = None, "no outcome"
        n = 0
        for s2, v in rs:
            if not feasible(s2):
                continue
            if isinstance(v, Raise):
                return False, "raises %s%s" % (v.name, facts_note(s2)), v.where
            r = judge(s2, v)
            if r[0] is False:
                return r
            n += 1
            if n == 1 or r[0] is None:
                res = r
        return res

    def mat(I, s):
        s, m, A = matrix(I, s)
        return s, m, list(A)
    fixed = {
        "identity": (1, 0, 0, 1, 0, 0), "mirror x": (-1, 0, 0, 1, 3, 0), "mirror y": (1, 0, 0, -1, 0, 2), "half turn": (-1, 0, 0, -1, 0, 0),
        "quarter turn": (0, 1, -1, 0, 0, 0), "three quarters": (0, -1, 1, 0, 5, 5), "mirror diagonal": (0, 1, 1, 0, 0, 0), "mirror other diagonal": (0, -1, -1, 0, 1, 0),
        "rotation and scale": (-3, 4, -4, -3, 1, 1), "mirror about a slanted line": (3, 4, 4, -3, 0, 0), "mirroring skew": (1, 2, 1, 1, 0, 0), "skew": (1, 0, 2, 1, 0, 0),
        "mirrored turn": (-3, 4, 4, 3, 0, 0), "negative skew": (1, 2, -1, -3, 0, 0), "large": (1000, 1, -1, 1000, 1, 2), "small mirror": (Fraction(1, 1000), 0, 0, Fraction(-1, 1000), 0, 0),
    }

    def seg(s, kind, **fl):
        s, g, parts = segment(I, s, kind, **fl)
        return s, g, parts
    for kind in SEGMENTS:
        for how in ("mul", "imul"):
            for right in ["Matrix"] + [t for t, _ in TEXTS]:
                def f():
                    s, g, parts = seg(I.start(), kind)
                    if right == "Matrix":
                        s, m, A = mat(I, s)
                        rs = do(I, s, how, g, m)
                        return results(rs, lambda s2, v: check_segment(I, s2, v, kind, parts, A, R("w")))
                    t = transform_text(right)
                    s, m = new(I, s, "basic", "Matrix", t)
                    A = matrix_fields(I, s, m)
                    return results(do(I, s, how, g, t), lambda s2, v: check_segment(I, s2, v, kind, parts, A, R("w")))
                rep.each("points", "%s %s %s" % (kind, how, right), f)
            for rel in (False, True):
                for sm in (False, True):
                    def st():
                        s, g, parts = seg(I.start(), kind, relative=rel, smooth=sm)
                        s, m, A = mat(I, s)

                        def j(s2, v):
                            got = flags(I, s2, v)
                            if got[0] is not rel:
                                return got[0] is not None and False, "relative is %s" % got[0]
                            if kind in ("QuadraticBezier", "CubicBezier") and got[1] is not sm:
                                return got[1] is not None and False, "smooth is %s" % got[1]
                            return True, ""
                        return results(do(I, s, how, g, m), j)
                    rep.each("state", "%s %s relative=%s smooth=%s" % (kind, how, rel, sm), st)

        def none():
            s, g = loose(I, I.start(), kind, "", False)
            s, m, A = mat(I, s)
            parts = (None,) + seg_parts(kind)[1:]
            return results(do(I, s, "mul", g, m), lambda s2, v: check_segment(I, s2, v, kind, parts, A, R("w")))
        rep.each("none", kind, none)
    for name, A in fixed.items():
        for how in ("mul", "imul"):
            def orient():
                s, g, parts = seg(I.start(), "Arc")
                s, m = new(I, s, "basic", "Matrix", *[num(x) for x in A])
                return results(do(I, s, how, g, m), lambda s2, v: check_segment(I, s2, v, "Arc", parts, [R(x) for x in A], R("w")))
            rep.each("orientation", "%s %s" % (name, how), orient)
    for base in (LONG, ("Move", "Arc", "Close", "Move", "Line", "Close"), ("Move", "QuadraticBezier", "QuadraticBezier")):
        b = " ".join(base)
        for how in ("mul", "imul", "matmul", "imatmul"):
            for right in ("Matrix", "matrix({0} {1} {2} {3} {4} {5})", "rotate({0})"):
                def f():
                    segs = chain(base)
                    s, p = path_of(I, I.start(), segs)
                    if right == "Matrix":
                        s, m, A = mat(I, s)
                    else:
                        m = transform_text(right)
                        s, mm = new(I, s, "basic", "Matrix", m)
                        A = matrix_fields(I, s, mm)

                    def j(s2, v):
                        s2, n = length_of(I, s2, v)
                        if n != len(segs):
                            return False, "%d segments of %d" % (n, len(segs))
                        res = True, ""
                        for k, (kind, parts) in enumerate(segs):
                            s2, g = seg_at(I, s2, v, k)
                            r = check_segment(I, s2, g, kind, parts, A, R("w%d" % k), "segment %d: " % k)
                            if r[0] is False:
                                return r
                            if r[0] is None:
                                res = r
                        return res
                    return results(do(I, s, how, p, m), j)
                rep.each("path", "%s %s %s" % (b, how, right), f)
    for w, lo, hi in ((0, 0, 5), (1, 5, 9)):
        for how in ("mul", "imul"):
            for right in ("Matrix", "matrix({0} {1} {2} {3} {4} {5})", "rotate({0})"):
                def f():
                    segs = chain(LONG)
                    s, p = path_of(I, I.start(), segs)
                    s, win = subpath_of(I, s, p, w)
                    if right == "Matrix":
                        s, m, A = mat(I, s)
                    else:
                        m = transform_text(right)
                        s, mm = new(I, s, "basic", "Matrix", m)
                        A = matrix_fields(I, s, mm)

                    def j(s2, v):
                        s2, n = length_of(I, s2, v)
                        if n != hi - lo:
                            return False, "%d segments of %d" % (n, hi - lo)
                        res = True, ""
                        for k in range(n):
                            kind, parts = segs[lo + k]
                            s2, g = seg_at(I, s2, v, k)
                            r = check_segment(I, s2, g, kind, parts, A, R("w%d" % (lo + k)), "segment %d: " % k)
                            if r[0] is False:
                                return r
                            if r[0] is None:
                                res = r
                        for k, (kind, parts) in enumerate(segs):
                            if how == "mul" or not lo <= k < hi:
                                s2, g = seg_at(I, s2, p, k)
                                r = cmp_segment(I, s2, g, kind, parts, "untouched segment %d " % k, sweep=R("w%d" % k) if kind == "Arc" else None)
                                if r[0] is False:
                                    return r
                        return res
                    return results(do(I, s, how, win, m), j)
                rep.each("window", "%d %s %s" % (w, how, right), f)

    def read(I, s, p):
        """(kind, coordinates, sweep) of every segment as the path stands"""
        s, n = length_of(I, s, p)
        out = []
        for k in range(n):
            s, g = seg_at(I, s, p, k)
            kind = kind_of(s, g)
            if kind not in PARTS:
                raise AnalysisLimit("segment %d is %s" % (k, kind))
            w = None
            if kind == "Arc":
                s, v = attr(I, s, g, "sweep")
                w = rat_of(I, s, v)
                if w is None:
                    raise AnalysisLimit("sweep unknown")
            out.append((kind, [part(I, s, g, x) for x in PARTS[kind]], w))
        return s, out

    def mapped(I, rs, right):
        res = None, "no outcome"
        for s, p in rs:
            if not feasible(s):
                continue
            if isinstance(p, Raise):
                continue
            s, before = read(I, s, p)
            A = [Fraction(x) for x in right]
            s, m = new(I, s, "basic", "Matrix", *[num(x) for x in A])
            A = [R(x) for x in A]

            def j(s2, v):
                s2, n = length_of(I, s2, v)
                if n != len(before):
                    return False, "%d segments of %d" % (n, len(before))
                res = True, ""
                for k, (kind, parts, w) in enumerate(before):
                    s2, g = seg_at(I, s2, v, k)
                    r = check_segment(I, s2, g, kind, parts, A, w, "segment %d: " % k)
                    if r[0] is False:
                        return r
                    if r[0] is None:
                        res = r
                return res
            r = results(do(I, s, "imul", p, m), j)
            if r[0] is False:
                return r
            res = r
        return res
    for e in edits(rep.thorough):
        if "path * " in e.label or "@" in e.label:
            continue

        def f():
            s, p = path_of(I, I.start(), chain(e.base))
            return mapped(I, e.run(I, s, p), (2, 1, -1, 3, 5, 7))
        rep.each("edited", e.label, f)

    def whole(kinds, how, anchored):
        def f():
            s = I.start()
            gs = []
            for k, (kind, parts) in enumerate(chain(kinds)):
                parts = list(parts)
                if kind == "Close":
                    parts[-1] = P("n%d" % k)
                if not anchored:
                    parts[0] = None
                    if kind == "Close":
                        parts[-1] = None
                s, g = raw_segment(I, s, kind, tuple(parts), sweep=R("w%d" % k) if kind == "Arc" else None)
                gs.append(g)
            if how == "list":
                gs = [s.list(gs)]
            elif how == "tuple":
                gs = [Tup(tuple(gs))]
            return mapped(I, I.run(s, I.get(s, "path", "Path"), *gs), (2, 1, -1, 3, 5, 7))
        return f
    for kinds in (("Move", "Line", "Close"), ("Move", "QuadraticBezier", "CubicBezier", "Close", "Move", "Line", "Line", "Close"), ("Move", "Arc", "Close", "Line", "Close")):
        for how in ("list", "tuple", "arguments"):
            for anchored in (True, False):
                rep.each("edited", "Path(%s of %s%s)" % (how, " ".join(kinds), "" if anchored else " without points"), whole(kinds, how, anchored))
