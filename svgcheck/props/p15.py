"""P15: connectivity.  Every editing operation is interpreted on representative well-formed paths with
symbolic coordinates; in every resulting store each segment has to start where the previous one ends
and each close has to end where its subpath starts."""
from ..edits import *


def connected(I, s, path):
    s, n = length_of(I, s, path)
    prev = None
    first = None
    res = True, ""
    for k in range(n):
        s, g = seg_at(I, s, path, k)
        kind = kind_of(s, g)
        if kind not in PARTS:
            return None, "segment %d is %s" % (k, kind)
        a, e = part(I, s, g, "start"), part(I, s, g, "end")
        if k:
            if a is None or prev is None:
                return False, "segment %d (%s): start is %s after an end %s" % (k, kind, a, prev)
            r = cmp_rats(s, ("segment %d (%s) start.x" % (k, kind), "segment %d (%s) start.y" % (k, kind)), a, prev)
            if r[0] is False:
                return r
            if r[0] is None:
                res = r
        if kind == "Move":
            first = e
        if kind == "Close" and first is not None:
            if e is None:
                return False, "the close at %d has no end" % k
            r = cmp_rats(s, ("close %d end.x" % k, "close %d end.y" % k), e, first)
            if r[0] is False:
                return r
            if r[0] is None:
                res = r
        prev = e
    return res


def judge(I, rs):
    res = None, "no outcome"
    n = 0
    for s2, v in rs:
        if not feasible(s2):
            continue
        if isinstance(v, Raise):
            return False, "raises %s %s" % (v.name, [a for a in v.exc.args][:1]), v.where
        r = connected(I, s2, v)
        if r[0] is False:
            return False, r[1] + facts_note(s2)
        n += 1
        if n == 1 or r[0] is None:
            res = r
    return res


def check(rep):
    rep.rule("connected", "after an edit each segment starts at the end of the previous one and closes end at their move", 300)
    I = load(rep.interp())
    I.max_steps = 4000000
    for e in edits(rep.thorough):
        def f():
            s, p = path_of(I, I.start(), chain(e.base))
            return judge(I, e.run(I, s, p))
        rep.each("connected", e.label, f)
    for error in (0.1, 0.5):
        for m in ("approximate_arcs_with_cubics", "approximate_arcs_with_quads"):
            for sweep in (1.0, -4.0):
                def f():
                    n2 = lambda x, y: (R(x), R(y))
                    a, z, y = n2(4, 2), P("z"), P("y")
                    segs = [("Move", (None, n2(0, 1))), ("Line", (n2(0, 1), a)), ("Arc", (a, z, n2(1, 2), a, n2(1, 4))), ("Line", (z, y)), ("Close", (y, n2(0, 1)))]
                    s = I.start()
                    s, path = new(I, s, "path", "Path")
                    for k, (kind, parts) in enumerate(segs):
                        s, g = raw_segment(I, s, kind, parts, sweep=R(Fraction(sweep)) if kind == "Arc" else None)
                        s, _ = only(method(I, s, path, "append", g))
                    return judge(I, [(s2, v if isinstance(v, Raise) else path) for s2, v in method(I, s, path, m, num(error))])
                rep.each("connected", "%s(%s) of sweep %s" % (m, error, sweep), f)
