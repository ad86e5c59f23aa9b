"""P14: remembered lengths.  The length and the points of single segments are replaced by
uninterpreted functions of the segment's kind and defining points; after query, edit, query the
second answer has to be the one of the segments the path has by then."""
from ..edits import *
from ..engine import Anchor
from ..sym import fun


def segment_terms(I, s, g):
    kind = kind_of(s, g)
    if kind not in PARTS:
        raise AnalysisLimit("segment of kind %s" % kind)
    ts = [R(SEGMENTS.index(kind))]
    for n in PARTS[kind]:
        c = part(I, s, g, n)
        ts += [R(-77), R(-78)] if c is None else [s.norm(c[0]), s.norm(c[1])]
    return ts


def abstracted(I):
    """length and point of segments as uninterpreted functions"""
    def length(I, st, args, kw):
        return [(st, Num(fun("uf", R(1), *segment_terms(I, st, args[0])), "f"))]

    def point_(I, st, args, kw):
        t = args[1] if len(args) > 1 else kw.get("position")
        r = rat_of(I, st, t)
        if r is None:
            raise AnalysisLimit("position unknown")
        ts = segment_terms(I, st, args[0])
        out = []
        for s2, v in I.call(st, I.get(st, "basic", "Point"), [Num(fun("uf", R(2), r, *ts), "f"), Num(fun("uf", R(3), r, *ts), "f")], {}):
            out.append((s2, v))
        return out
    return length, point_


def sum_of(I, s, path):
    s, n = length_of(I, s, path)
    t = R(0)
    for k in range(n):
        s, g = seg_at(I, s, path, k)
        t = t + fun("uf", R(1), *segment_terms(I, s, g))
    return s, t


def check(rep):
    rep.rule("length", "query, edit, query: the second length is that of the edited segments", 250)
    rep.rule("point", "query, edit, query: the second position is that of a new path of the same segments", 40)
    rep.rule("anchor", "length and point of segments are found", 2)
    I = load(rep.interp())
    I.max_steps = 4000000
    lh, ph = abstracted(I)
    for name, h in (("length", lh), ("point", ph)):
        qs = set()
        s = I.start()
        for kind in SEGMENTS:
            f, owner = I.find(I.get(s, "path", kind), name)
            if getattr(f, "info", None) is None:
                raise Anchor("%s.%s" % (kind, name))
            qs.add(f.info.qual)
        for q in qs:
            I.hooks[q] = h
        rep.each("anchor", name, lambda: len(qs) > 0 or None)
    todo = edits(rep.thorough) + all_windows(I)
    for j, e in enumerate(todo):
        def f():
            s, p = path_of(I, I.start(), chain(e.base))
            s, _ = only(feasible_only(method(I, s, p, "length")))
            s, want = sum_of(I, s, p)
            res = None, "no outcome"
            n = 0
            for s2, v in e.run(I, s, p):
                if isinstance(v, Raise) or not feasible(s2):
                    continue
                for s3, l in method(I, s2, v, "length"):
                    if isinstance(l, Raise):
                        if feasible(s3):
                            return False, "length raises %s" % l.name, l.where
                        continue
                    s3, want = sum_of(I, s3, v)
                    got = rat_of(I, s3, l)
                    if got is None:
                        res = None, "length is not a closed form"
                        continue
                    k = same(s3, got, want)
                    if k is False:
                        return False, "the length after the edit is not that of the edited segments%s" % facts_note(s3)
                    n += 1
                    if k is None:
                        res = None, "undecided"
                    elif n == 1:
                        res = True, ""
            return res
        rep.each("length", e.label, f)

        def g():
            s, p = path_of(I, I.start(), chain(e.base))
            s, _ = only(feasible_only(method(I, s, p, "length")))
            res = None, "no outcome"
            n = 0
            for s2, v in e.run(I, s, p):
                if isinstance(v, Raise) or not feasible(s2):
                    continue
                for s3, q in method(I, s2, v, "point", num(Fraction(2, 5))):
                    if not feasible(s3):
                        continue
                    if isinstance(q, Raise):
                        return False, "point raises %s" % q.name, q.where
                    if q == NONE:
                        continue
                    got = xy(I, s3, q)
                    for s4, c in do(I, s3, "copy", v):
                        for s5, w in method(I, s4, c, "point", num(Fraction(2, 5))):
                            if not feasible(s5):
                                continue
                            want = xy(I, s5, w)
                            if got is None or want is None:
                                res = None, "not closed forms"
                                continue
                            k = cmp_rats(s5, ("x", "y"), got, want)
                            if k[0] is False:
                                return False, "the point at 2/5 after the edit is that of the segments before it%s" % facts_note(s5)
                            n += 1
                            if k[0] is None:
                                res = None, "undecided"
                            elif n == 1:
                                res = True, ""
            return res
        if j % 6 == 0 or rep.thorough:
            rep.each("point", e.label, g)


def feasible_only(rs):
    return [(s, v) for s, v in rs if feasible(s)]
