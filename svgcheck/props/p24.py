"""P24: the sequence protocol of points, matrices, segments, paths and subpath windows."""
from ..objects import *

SHORT = ("Move", "Line", "CubicBezier", "Close")


def objects(I):
    """name -> function(state) -> (state, object, expected parts, writable)"""
    def pnt(s):
        s, p = point(I, s, "x", "y")
        return s, p, [R("x"), R("y")], True

    def mat(s):
        s, m, A = matrix(I, s)
        return s, m, [R(n) for n in "abcdef"], True

    def seg(kind):
        def f(s):
            s, g, parts = segment(I, s, kind)
            return s, g, list(parts), False
        return f

    def pth(kinds):
        def f(s):
            segs = chain(kinds)
            s, p = path_of(I, s, segs)
            return s, p, segs, True
        return f

    def sub(kinds, k, lo, hi):
        def f(s):
            segs = chain(kinds)
            s, p = path_of(I, s, segs)
            s, w = subpath_of(I, s, p, k)
            return s, w, segs[lo:hi], True
        return f
    out = {"Point": pnt, "Matrix": mat}
    def bare(kind):
        def f(s):
            parts = [None] + list(seg_parts(kind))[1:]
            s, g = raw_segment(I, s, kind, tuple(parts), sweep=R("w") if kind == "Arc" else None)
            return s, g, parts, False
        return f

    def fresh(s):
        s, g = only(I.run(s, I.get(s, "path", "Close")))
        return s, g, [None, None], False
    for k in SEGMENTS:
        out[k] = seg(k)
    for k in SEGMENTS:
        out[k + " without start"] = bare(k)
    out["Close without points"] = fresh
    out["Path"] = pth(SHORT)
    out["Subpath 0"] = sub(LONG, 0, 0, 5)
    out["Subpath 1"] = sub(LONG, 1, 5, 9)
    return out


def cmp_item(I, s, v, want, label):
    if want is None:
        v = I.resolve(s, v)
        return v == NONE, "%s is %r where the point is absent" % (label, v)
    if isinstance(want, Rat):
        return cmp_number(s, label, rat_of(I, s, v), want)
    if isinstance(want[0], str):
        return cmp_segment(I, s, v, want[0], want[1], label + " ")
    return cmp_point(I, s, v, want, label)


def cmp_items(I, s, got, want):
    got = items(I, s, got)
    if got is None:
        return None, "not a list"
    if len(got) != len(want):
        return False, "%d items where %d are required" % (len(got), len(want))
    res = True, ""
    for k, (g, w) in enumerate(zip(got, want)):
        r = cmp_item(I, s, g, w, "item %d" % k)
        if r[0] is False:
            return r
        if r[0] is None:
            res = r
    return res


def check(rep):
    rep.rule("length", "the reported length is the number of defining parts", 10)
    rep.rule("item", "each position below the length gives its defining part", 30)
    rep.rule("end", "the position at the length raises IndexError", 20)
    rep.rule("negative", "negative positions of paths and windows count from the end and stop at its start", 12)
    rep.rule("slice", "slices of paths and windows give the parts a list would give", 20)
    rep.rule("iterate", "iteration enumerates the parts in order, however often and however interleaved", 40)
    rep.rule("unchanged", "iterating leaves the object as it was", 10)
    rep.rule("write", "an item that is written is the item that is read, and no other item changes", 15)
    I = ops(rep.interp())
    for name, make in objects(I).items():
        def start():
            return make(I.start())

        def length():
            s, o, parts, w = start()
            return all_outcomes(do(I, s, "size", o), lambda s, v: cmp_number(s, "length", rat_of(I, s, v), R(len(parts))))
        rep.each("length", name, length)
        s0, o0, parts, writable = start()
        n = len(parts)
        container = name == "Path" or name.startswith("Subpath")
        for k in range(n):
            def item():
                s, o, parts, w = start()
                def judge(s, v):
                    t = items(I, s, v)
                    if t[0] != Const("item"):
                        return False, "position %d raises IndexError" % k
                    return cmp_item(I, s, t[1], parts[k], "item %d" % k)
                return all_outcomes(do(I, s, "at", o, num(k)), judge)
            rep.each("item", "%s[%d]" % (name, k), item)
        def ends(pos):
            def f():
                s, o, parts, w = start()
                def judge(s, v):
                    t = items(I, s, v)
                    return t[0] == Const("index"), "position %d gives %r" % (pos, t[1])
                return all_outcomes(do(I, s, "at", o, num(pos)), judge)
            return f
        for pos in (n, n + 1):
            rep.each("end", "%s[%d]" % (name, pos), ends(pos))
        if container:
            for k in range(1, n + 1):
                def item():
                    s, o, parts, w = start()
                    def judge(s, v):
                        t = items(I, s, v)
                        if t[0] != Const("item"):
                            return False, "position %d raises IndexError" % -k
                        return cmp_item(I, s, t[1], parts[-k], "item %d" % -k)
                    return all_outcomes(do(I, s, "at", o, num(-k)), judge)
                rep.each("negative", "%s[%d]" % (name, -k), item)
            rep.each("negative", "%s[%d]" % (name, -n - 1), ends(-n - 1))
            cuts = [(None, None, None), (0, 2, None), (1, None, None), (None, -1, None), (-2, None, None), (None, None, 2), (None, None, -1), (1, 100, None), (3, 1, None)]
            if rep.thorough:
                cuts += [(a, b, c) for a in (None, 0, 1, -1, n) for b in (None, 0, 2, -1, n + 3) for c in (None, 1, 2, -1, -2)]
            for c in cuts:
                def cut():
                    s, o, parts, w = start()
                    sl = SliceV(*[NONE if x is None else num(x) for x in c])
                    def judge(s, v):
                        t = items(I, s, v)
                        if t[0] != Const("item"):
                            return False, "slice %s raises IndexError" % (c,)
                        return cmp_items(I, s, t[1], parts[slice(*c)])
                    return all_outcomes(do(I, s, "at", o, sl), judge)
                rep.each("slice", "%s[%s]" % (name, ":".join("" if x is None else str(x) for x in c)), cut)
        pr = [p for p in parts if p is not None]  # iteration passes over points that are absent
        ways = {
            "enum": pr,
            "enum_list": pr,
            "broken_off": pr,
        }
        if len(pr) > 1:
            ways["interleaved"] = [pr[0], pr[0], pr[1], pr[1]]
        for way, want in ways.items():
            def it():
                s, o, parts, w = start()
                return all_outcomes(do(I, s, way, o), lambda s, v: cmp_items(I, s, v, want))
            rep.each("iterate", "%s %s" % (name, way), it)

        def twice():
            s, o, parts, w = start()
            def judge(s, v):
                rows = items(I, s, v)
                if len(rows) != len(pr) ** 2:
                    return False, "two nested loops see %d pairs where %d are required" % (len(rows), len(pr) ** 2)
                for j, r in enumerate(rows):
                    a, b = items(I, s, r)
                    for g, w in ((a, pr[j // len(pr)]), (b, pr[j % len(pr)])):
                        q = cmp_item(I, s, g, w, "pair %d" % j)
                        if q[0] is not True:
                            return q
                return True
            return all_outcomes(do(I, s, "nested", o), judge)
        if n <= 6:
            rep.each("iterate", "%s nested" % name, twice)

        def unchanged(way):
            def f():
                s, o, parts, w = start()
                a = snap(s, o)
                def judge(s, v):
                    d = snap_diff(a, snap(s, o), name)
                    return d is None, d
                return all_outcomes(do(I, s, way, o), judge)
            return f
        for way in ("enum", "interleaved", "size") if len(pr) > 1 else ("enum", "size"):
            rep.each("unchanged", "%s %s" % (name, way), unchanged(way))
        if not writable:
            continue
        for k in range(n):
            def put():
                s, o, parts, w = start()
                if container:
                    kind = parts[k][0]
                    if kind == "Close":
                        return True
                    q = parts[k][1]
                    e = P("new")
                    q2 = tuple(q[:-1]) + (e,) if kind != "Arc" else (q[0], e) + tuple(q[2:])
                    s, v = raw_segment(I, s, kind, q2, sweep=R("w") if kind == "Arc" else None)
                    want = (kind, q2)
                else:
                    v = sym("new")
                    want = R("new")
                def judge(s, r):
                    if container and (not isinstance(r, Ref) or r != v):
                        return False, "the item read is not the one written"
                    q = cmp_item(I, s, r, want, "item %d" % k)
                    if q[0] is not True or container:
                        return q
                    for j in range(n):
                        if j == k:
                            continue
                        s, x = only(do(I, s, "at", o, num(j)))
                        q = cmp_item(I, s, items(I, s, x)[1], parts[j], "item %d" % j)
                        if q[0] is not True:
                            return q
                    return True
                return all_outcomes(do(I, s, "put", o, num(k), v), judge)
            rep.each("write", "%s[%d]" % (name, k), put)

        def past():
            s, o, parts, w = start()
            if container:
                s, v = raw_segment(I, s, "Line", (P("u"), P("v")))
            else:
                v = sym("new")
            return all_outcomes(do(I, s, "put_at", o, num(n), v), lambda s, v: (v == TRUE, "writing at the length is accepted"))
        rep.each("write", "%s[%d]" % (name, n), past)
