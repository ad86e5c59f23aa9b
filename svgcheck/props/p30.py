"""P30: edits of a path against the list model.  Every editing operation of paths and of windows onto
them is interpreted on paths whose segments hold pairwise different symbolic points; the sequence of
segments in every resulting store is compared with the same edit of a plain list of segments (only the
starts and the ends of closes, which belong to the joints, are left to P15).  Reversal is compared
with the list of reversed segments per subpath."""
from ..edits import *

SMALL = ("Move", "Line", "CubicBezier", "Close")


def model(kinds, pre=""):
    return [(k, parts, R("%sw%d" % (pre, n)) if k == "Arc" else None) for n, (k, parts) in enumerate(chain(kinds, pre))]


def loose_model(kind, pre):
    return kind, seg_parts(kind, pre), R(pre + "w") if kind == "Arc" else None


def joints_free(kind, parts):
    ps = ["any"] + list(parts[1:])
    if kind == "Close":
        ps[-1] = "any"
    return ps


def cmp_list(I, s, path, want, full=False):
    s, n = length_of(I, s, path)
    if n != len(want):
        return False, "%d segments where %d are required" % (n, len(want))
    res = True, ""
    for k, (kind, parts, w) in enumerate(want):
        s, g = seg_at(I, s, path, k)
        r = cmp_segment(I, s, g, kind, parts if full else joints_free(kind, parts), "segment %d " % k, sweep=w)
        if r[0] is False:
            return r
        if r[0] is None:
            res = r
    return res


def over(rs, judge):
    res = None, "no outcome"
    n = 0
    for s2, v in rs:
        if not feasible(s2):
            continue
        if isinstance(v, Raise):
            return False, "raises %s %s" % (v.name, [a for a in v.exc.args][:1]), v.where
        r = judge(s2, v)
        if r[0] is False:
            return False, r[1] + facts_note(s2)
        n += 1
        if n == 1 or r[0] is None:
            res = r
    return res


TEXTS = {
    "L p": [("Line", 1)],
    "Q p p": [("QuadraticBezier", 2)],
    "C p p p": [("CubicBezier", 3)],
    "M p": [("Move", 1)],
    "M p L p": [("Move", 1), ("Line", 1)],
    "M p L p Q p p z": [("Move", 1), ("Line", 1), ("QuadraticBezier", 2), ("Close", 0)],
}


def text_model(t):
    out = []
    n = 0
    for kind, k in TEXTS[t]:
        ps = [None]
        for _ in range(k):
            ps.append((R("t%d" % n), R("t%d" % (n + 1))))
            n += 2
        if kind == "Close":
            ps.append(None)
        out.append((kind, ps, None))
    return out


def reversed_model(segs):
    """segments of the reversed path; segs is a consistent model, every subpath starts with a Move and
    holds at most one Close, at its end"""
    subs = []
    for g in segs:
        if g[0] == "Move":
            subs.append([])
        subs[-1].append(g)
    out = []
    for sub in reversed(subs):
        closed = sub[-1][0] == "Close"
        draw = sub[1:-1] if closed else sub[1:]
        begin = draw[-1][1][PARTS[draw[-1][0]].index("end")] if draw else sub[0][1][1]
        out.append(("Move", ("any", begin), None))
        for kind, parts, w in reversed(draw):
            ps = list(parts)
            if kind == "Arc":
                ps[0], ps[1] = ps[1], ps[0]
            else:
                ps.reverse()
            out.append((kind, ps, -w if w is not None else None))
        if closed:
            out.append(("Close", (sub[0][1][1] if draw else begin, begin), None))
    return out


def check(rep):
    rep.rule("one", "adding, inserting, replacing and deleting one segment does it at that position and nowhere else", 150)
    rep.rule("several", "slices and extensions change the sequence as they change a list", 60)
    rep.rule("join", "adding paths, windows, segments and text keeps every segment of both sides in order", 60)
    rep.rule("window", "edits through a window change the path at the window's positions only", 60)
    rep.rule("reverse", "reversal yields the same curves in reverse order, each traversed backwards", 20)
    rep.rule("subpaths", "the subpaths are the maximal runs that begin with a move, in order", 10)
    rep.rule("points", "the defining points are enumerated in order", 4)
    I = load(rep.interp())
    I.max_steps = 4000000
    base = model(LONG)
    n = len(base)

    def on(rule, label, fn, want, kinds=LONG, value=False, win=None, full=False):
        """fn(s, target) -> outcomes; want: function of the list of segments"""
        def f():
            s, p = path_of(I, I.start(), chain(kinds))
            t = p
            if win is not None:
                s, t = subpath_of(I, s, p, win)
            return over(fn(s, t), lambda s2, v: cmp_list(I, s2, v if value else p, want(model(kinds)), full))
        rep.each(rule, label, f)

    def with_list(f):
        def g(l):
            l = list(l)
            f(l)
            return l
        return g
    pos = range(-n - 2, n + 3) if rep.thorough else [-n - 1, -n, -3, -1, 0, 1, 4, 5, n - 1, n, n + 1]
    for kind in SEGMENTS:
        new_ = loose_model(kind, "n")
        for placed in (True, False):
            tag = kind if placed else kind + " without start"

            def seg(s, kind=kind, placed=placed):
                return loose(I, s, kind, "n", placed)

            def ap(s, t):
                s, g = seg(s)
                return method(I, s, t, "append", g)
            on("one", "append(%s)" % tag, ap, lambda l: l + [new_])
            for k in pos:
                def ins(s, t):
                    s, g = seg(s)
                    return method(I, s, t, "insert", num(k), g)
                on("one", "insert(%d, %s)" % (k, tag), ins, with_list(lambda l: l.insert(k, new_)))
                if -n <= k < n:
                    def put(s, t):
                        s, g = seg(s)
                        return call(I, s, "setitem", t, num(k), g)
                    on("one", "[%d] = %s" % (k, tag), put, with_list(lambda l: l.__setitem__(k, new_)))
            for how in ("iadd", "add"):
                def plus(s, t):
                    s, g = seg(s)
                    return do(I, s, how, t, g)
                on("join", "path %s %s" % ("+=" if how == "iadd" else "+", tag), plus, lambda l: l + [new_], value=True)

                def wplus(s, t):
                    s, g = seg(s)
                    return do(I, s, how, t, g)
                for w, lo, hi in ((0, 0, 5), (1, 5, 9)):
                    on("join", "window %d %s %s" % (w, "+=" if how == "iadd" else "+", tag), wplus, lambda l: l[lo:hi] + [new_], value=True, win=w)

            def front(s, t):
                s, g = seg(s)
                return do(I, s, "add", g, t)
            on("join", "%s + path" % tag, front, lambda l: [new_] + l, value=True)
            for w, lo, hi in ((0, 0, 5), (1, 5, 9)):
                on("join", "%s + window %d" % (tag, w), front, lambda l: [new_] + l[lo:hi], value=True, win=w)
    for k in range(-n, n):
        on("one", "del [%d]" % k, lambda s, t: call(I, s, "delitem", t, num(k)), with_list(lambda l: l.__delitem__(k)))
        for t in ("L p", "M p", "C p p p"):
            if k in pos:
                on("one", "[%d] = %r" % (k, t), lambda s, o: call(I, s, "setitem", o, num(k), text_of(t)), with_list(lambda l: l.__setitem__(k, text_model(t)[0])))
                on("one", "insert(%d, %r)" % (k, t), lambda s, o: method(I, s, o, "insert", num(k), text_of(t)), with_list(lambda l: l.insert(k, text_model(t)[0])))
    cuts = [(1, 3, None), (2, 5, None), (5, 7, None), (0, 5, None), (-3, -1, None), (4, 4, None), (1, None, None), (None, 2, None), (6, 3, None), (None, None, None)]
    steps = [(None, None, 2), (None, None, -3), (1, 8, 3), (7, 1, -2)]
    if rep.thorough:
        cuts += [(a, b, None) for a in range(0, n + 1, 2) for b in range(a, n + 2, 2)]
    lists = ((), ("Line",), ("CubicBezier", "Line", "Close"), ("Move", "Arc"))
    for c in cuts + steps:
        nm = "[%s]" % ":".join("" if x is None else str(x) for x in (c if c[2] is not None else c[:2]))
        sl = slice(*c)
        ar = [none_or(x) for x in c]
        on("several", "del " + nm, lambda s, t: call(I, s, "delslice", t, *ar), with_list(lambda l: l.__delitem__(sl)))
        if c[2] is not None:
            size = len(range(*sl.indices(n)))

            def step(s, t):
                s, l = seglist(I, s, ("QuadraticBezier",) * size, "n")
                return call(I, s, "setslice", t, *(ar + [l]))
            on("several", "%s = [QuadraticBezier] * %d" % (nm, size), step, with_list(lambda l: l.__setitem__(sl, [loose_model("QuadraticBezier", "n%d" % k) for k in range(size)])))
            continue
        for ks in lists:
            def put(s, t):
                s, l = seglist(I, s, ks, "n")
                return call(I, s, "setslice", t, *(ar + [l]))
            on("several", "%s = [%s]" % (nm, ", ".join(ks)), put, with_list(lambda l: l.__setitem__(sl, [loose_model(k, "n%d" % j) for j, k in enumerate(ks)])))
        on("several", "%s = 'M L'" % nm, lambda s, t: call(I, s, "setslice", t, *(ar + [text_of("M p L p")])), with_list(lambda l: l.__setitem__(sl, text_model("M p L p"))))
    other = ("Move", "Line", "QuadraticBezier", "Close")
    for ks in lists + (("Line", "Close", "Move", "CubicBezier"), ("Close",)):
        def ext(s, t):
            s, l = seglist(I, s, ks, "n")
            return method(I, s, t, "extend", l)
        on("several", "extend([%s])" % ", ".join(ks), ext, lambda l: l + [loose_model(k, "n%d" % j) for j, k in enumerate(ks)])
    for t in TEXTS:
        for m in ("append", "extend"):
            on("several", "%s(%r)" % (m, t), lambda s, o: method(I, s, o, m, text_of(t)), lambda l: l + text_model(t))
        for how in ("iadd", "add"):
            on("join", "path %s %r" % (how, t), lambda s, o: do(I, s, how, o, text_of(t)), lambda l: l + text_model(t), value=True)
            for w, lo, hi in ((0, 0, 5), (1, 5, 9)):
                on("join", "window %d %s %r" % (w, how, t), lambda s, o: do(I, s, how, o, text_of(t)), lambda l: l[lo:hi] + text_model(t), value=True, win=w)
        if t[0] == "M":
            on("join", "%r + path" % t, lambda s, o: do(I, s, "add", text_of(t), o), lambda l: text_model(t) + l, value=True)
            for w, lo, hi in ((0, 0, 5), (1, 5, 9)):
                on("join", "%r + window %d" % (t, w), lambda s, o: do(I, s, "add", text_of(t), o), lambda l: text_model(t) + l[lo:hi], value=True, win=w)

    def ext(s, t):
        s, o = other_path(I, s, other)
        return method(I, s, t, "extend", o)
    on("several", "extend(Path)", ext, lambda l: l + model(other, "o"))

    def ext(s, t):
        s, o = other_path(I, s, other)
        return method(I, s, t, "insert", num(2), o)
    for how in ("iadd", "add"):
        def plus(s, t):
            s, o = other_path(I, s, other)
            return do(I, s, how, t, o)
        on("join", "path %s Path" % how, plus, lambda l: l + model(other, "o"), value=True)
        for w, lo, hi in ((0, 0, 5), (1, 5, 9)):
            on("join", "window %d %s Path" % (w, how), plus, lambda l: l[lo:hi] + model(other, "o"), value=True, win=w)
        for j, (lo, hi) in enumerate(((0, 5), (5, 9))):
            def plus(s, t):
                s, o = path_of(I, s, chain(LONG, "o"), "o")
                s, w = subpath_of(I, s, o, j)
                return do(I, s, how, t, w)
            on("join", "path %s window %d" % (how, j), plus, lambda l: l + model(LONG, "o")[lo:hi], value=True)
        on("join", "path %s itself" % how, lambda s, t: do(I, s, how, t, t), lambda l: l + l, kinds=SMALL, value=True)
    # windows: the same edits seen from the path
    for w, lo, hi in ((0, 0, 5), (1, 5, 9)):
        size = hi - lo

        def inside(edit):
            def g(l):
                part = list(l[lo:hi])
                edit(part)
                return l[:lo] + part + l[hi:]
            return g
        for k in range(-size, size):
            on("window", "%d: del [%d]" % (w, k), lambda s, t: call(I, s, "delitem", t, num(k)), inside(lambda l: l.__delitem__(k)), win=w)
            for kind in SEGMENTS if rep.thorough else ("Line", "CubicBezier", "Arc"):
                def put(s, t):
                    s, g = loose(I, s, kind, "n")
                    return call(I, s, "setitem", t, num(k), g)
                on("window", "%d: [%d] = %s" % (w, k, kind), put, inside(lambda l: l.__setitem__(k, loose_model(kind, "n"))), win=w)
        for c in ((1, 3, None), (0, 2, None), (-2, None, None), (None, None, None), (3, 1, None), (1, 100, None), (None, None, 2), (3, 0, -1)):
            nm = "[%s]" % ":".join("" if x is None else str(x) for x in (c if c[2] is not None else c[:2]))
            sl = slice(*c)
            ar = [none_or(x) for x in c]
            on("window", "%d: del %s" % (w, nm), lambda s, t: call(I, s, "delslice", t, *ar), inside(lambda l: l.__delitem__(sl)), win=w)
            if c[2] is None:
                for ks in lists:
                    def put(s, t):
                        s, l = seglist(I, s, ks, "n")
                        return call(I, s, "setslice", t, *(ar + [l]))
                    on("window", "%d: %s = [%s]" % (w, nm, ", ".join(ks)), put, inside(lambda l: l.__setitem__(sl, [loose_model(k, "n%d" % j) for j, k in enumerate(ks)])), win=w)
        for kind in SEGMENTS:
            def plus(s, t):
                s, g = loose(I, s, kind, "n")
                return [(s2, v) for s2, v in do(I, s, "iadd", t, g)]
            on("window", "%d: += %s" % (w, kind), plus, inside(lambda l: l.append(loose_model(kind, "n"))), win=w)
        for t in TEXTS:
            on("window", "%d: += %r" % (w, t), lambda s, o: do(I, s, "iadd", o, text_of(t)), inside(lambda l: l.extend(text_model(t))), win=w)

        # two edits in a row: the window has to follow its own size
        def twice(s, t):
            s, g = loose(I, s, "Line", "n")
            out = []
            for s2, v in do(I, s, "iadd", t, g):
                if isinstance(v, Raise):
                    out.append((s2, v))
                    continue
                s2, h = loose(I, s2, "CubicBezier", "m")
                out += call(I, s2, "setitem", v, num(-1), h)
            return out
        on("window", "%d: += Line, then [-1] = CubicBezier" % w, twice, inside(lambda l: l.append(loose_model("CubicBezier", "m"))), win=w)

        def shrink(s, t):
            out = []
            for s2, v in call(I, s, "delitem", t, num(1)):
                if isinstance(v, Raise):
                    out.append((s2, v))
                    continue
                out += call(I, s2, "delitem", t, num(-1))
            return out
        on("window", "%d: del [1], del [-1]" % w, shrink, inside(lambda l: (l.__delitem__(1), l.__delitem__(-1))), win=w)

    # reversal ------------------------------------------------------------------
    bases = [LONG, ("Move", "Line", "QuadraticBezier"), ("Move", "CubicBezier", "Arc", "Close"), ("Move", "Line", "Close", "Move", "CubicBezier", "Line"),
             ("Move", "Line", "Move", "Arc"), ("Move", "Arc", "Close"), ("Move",), ("Move", "Line"), ("Move", "CubicBezier"), ("Move", "QuadraticBezier", "Close"),
             ("Move", "Move", "Line", "Close"), ("Move", "Line", "Line", "Line", "CubicBezier", "Close", "Move", "Line", "Close", "Move", "Arc", "QuadraticBezier")]
    for b in bases:
        on("reverse", "path " + " ".join(b), lambda s, t: method(I, s, t, "reverse"), reversed_model, kinds=b, full=True)
        on("reverse", "path twice " + " ".join(b), lambda s, t: [r for s2, v in method(I, s, t, "reverse") for r in ([(s2, v)] if isinstance(v, Raise) else method(I, s2, t, "reverse"))],
           lambda l: reversed_model(reversed_model(l)), kinds=b, full=True)
    for w, lo, hi in ((0, 0, 5), (1, 5, 9)):
        def rw(l):
            part = reversed_model(l[lo:hi])
            rest = list(l[hi:])
            if rest:
                rest[0] = (rest[0][0], ["any"] + list(rest[0][1][1:]), rest[0][2])
            return l[:lo] + part + rest
        on("reverse", "window %d" % w, lambda s, t: method(I, s, t, "reverse"), rw, win=w, full=True)
    for kind in SEGMENTS:
        if kind in ("Move", "Close"):
            continue

        def one():
            s, g, parts = segment(I, I.start(), kind)
            want = reversed_model([("Move", (None, P("s")), None), (kind, parts, R("w") if kind == "Arc" else None)])[1]
            return over(method(I, s, g, "reverse"), lambda s2, v: cmp_segment(I, s2, g, want[0], want[1], sweep=want[2]))
        rep.each("reverse", "segment " + kind, one)

    # subpaths ------------------------------------------------------------------
    for b in bases + [("Line", "Line"), ("Line", "Close", "Move", "Line"), ("Move", "Line", "Close", "Line", "Close"), ("Move", "Move", "Move")]:
        runs = []
        for k, kind in enumerate(b):
            if kind == "Move" or not runs:
                runs.append([])
            runs[-1].append(k)

        def start():
            s = I.start()
            if b[0] == "Move":
                return path_of(I, s, chain(b))
            segs = chain(("Move",) + b)[1:]
            return path_of(I, s, segs)

        def count():
            s, p = start()
            return over(method(I, s, p, "count_subpaths"), lambda s2, v: cmp_number(s2, "number of subpaths", rat_of(I, s2, v), R(len(runs))))
        rep.each("subpaths", "number " + " ".join(b), count)
        for j, run in enumerate(runs):
            def sub():
                s, p = start()

                def judge(s2, v):
                    s2, m = length_of(I, s2, v)
                    if m != len(run):
                        return False, "subpath %d has %d segments of %d" % (j, m, len(run))
                    for i, k in enumerate(run):
                        s2, g = seg_at(I, s2, v, i)
                        s2, h = seg_at(I, s2, p, k)
                        if g != h:
                            return False, "segment %d of subpath %d is not segment %d of the path" % (i, j, k)
                    return True, ""
                return over(method(I, s, p, "subpath", num(j)), judge)
            rep.each("subpaths", "%s #%d" % (" ".join(b), j), sub)

    # points --------------------------------------------------------------------
    for b in (LONG, ("Move", "Arc"), ("Move",), ("Move", "Line", "Close", "Move", "QuadraticBezier")):
        def pts():
            s, p = path_of(I, I.start(), chain(b))
            want = [q for kind, parts in chain(b) for q in parts if q is not None]

            def judge(s2, v):
                got = items(I, s2, v)
                if got is None:
                    return None, "not a list"
                if len(got) != len(want):
                    return False, "%d points where %d are required" % (len(got), len(want))
                res = True, ""
                for k, (g, w) in enumerate(zip(got, want)):
                    r = cmp_point(I, s2, g, w, "point %d" % k)
                    if r[0] is False:
                        return r
                    if r[0] is None:
                        res = r
                return res
            out = []
            for s2, v in method(I, s, p, "as_points"):
                out += [(s2, v)] if isinstance(v, Raise) else do(I, s2, "enum", v)
            return over(out, judge)
        rep.each("points", " ".join(b), pts)
