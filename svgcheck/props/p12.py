"""P12: the path building methods.  Every method is interpreted in every context (kind of the
previous segment, position within the path) with any number of symbolic point groups; the
segments appended are compared with the ones SVG prescribes."""
from ..pathdata import *

KINDS = {
    "move": "Move", "line": "Line", "horizontal": "Line", "vertical": "Line", "quad": "QuadraticBezier",
    "smooth_quad": "QuadraticBezier", "cubic": "CubicBezier", "smooth_cubic": "CubicBezier", "arc": "Arc", "closed": "Close",
}


def contexts():
    """label -> list of (kind, parts) that make up the path before the call"""
    s, a, b, c, d, e = P("s"), P("a"), P("b"), P("c"), P("d"), P("e")
    base = [("Move", (None, s))]
    last = {
        "Move": [],
        "Line": [("Line", (s, a))],
        "QuadraticBezier": [("QuadraticBezier", (s, b, a))],
        "CubicBezier": [("CubicBezier", (s, b, c, a))],
        "Arc": [("Arc", (s, a, b, c, d))],
        "Close": [("Line", (s, a)), ("Close", (a, s))],
        "Quad, Line": [("QuadraticBezier", (s, b, e)), ("Line", (e, a))],
        "Cubic, Quad": [("CubicBezier", (s, b, c, e)), ("QuadraticBezier", (e, d, a))],
    }
    out = {}
    for k, v in last.items():
        out[k] = base + v
    # a second subpath, so that the first move is not the one that counts
    z, y = P("z"), P("y")
    pre = [("Move", (None, z)), ("Line", (z, y)), ("Close", (y, z)), ("Move", (z, s))]
    for k in ("Move", "Line", "CubicBezier", "Close"):
        out["second subpath, " + k] = pre + last[k]
    out["empty"] = []
    return out


def build(I, ctx):
    s = I.start()
    s, path = new(I, s, "path", "Path")
    for kind, parts in ctx:
        s, g = raw_segment(I, s, kind, parts, sweep=R("w") if kind == "Arc" else None)
        s, _ = only(method(I, s, path, "append", g))
    return s, path


class Spec:
    def __init__(self, ctx):
        self.segs = list(ctx)

    @property
    def cur(self):
        if not self.segs:
            return None
        k, p = self.segs[-1]
        return p[PARTS[k].index("end")]

    @property
    def first(self):
        for k, p in reversed(self.segs):
            if k == "Move":
                return p[1]
        return None

    def reflected(self, kind, ctl):
        if self.segs and self.segs[-1][0] == kind:
            p = self.segs[-1][1][ctl]
            c = self.cur
            return c[0] + c[0] - p[0], c[1] + c[1] - p[1]
        return self.cur

    def call(self, name, groups, relative):
        """segments added for a list of argument groups"""
        n = len(self.segs)
        for k, g in enumerate(groups):
            cur = self.cur
            if name == "move" and k == 0:
                self.segs.append(("Move", (cur, g[0])))
            elif name in ("line", "move"):
                self.segs.append(("Line", (cur, g[0])))
            elif name == "horizontal":
                self.segs.append(("Line", (cur, (g[0] + cur[0] if relative else g[0], cur[1]))))
            elif name == "vertical":
                self.segs.append(("Line", (cur, (cur[0], g[0] + cur[1] if relative else g[0]))))
            elif name == "quad":
                self.segs.append(("QuadraticBezier", (cur, g[0], g[1])))
            elif name == "smooth_quad":
                self.segs.append(("QuadraticBezier", (cur, self.reflected("QuadraticBezier", 1), g[0])))
            elif name == "cubic":
                self.segs.append(("CubicBezier", (cur, g[0], g[1], g[2])))
            elif name == "smooth_cubic":
                self.segs.append(("CubicBezier", (cur, self.reflected("CubicBezier", 2), g[0], g[1])))
            elif name == "closed":
                self.segs.append(("Close", (cur, self.first)))
            elif name == "arc":
                self.segs.append(("Arc", (cur, g[5], "any", "any", "any")))
        return self.segs[n:]


SHAPES = {"move": "p", "line": "p", "horizontal": "n", "vertical": "n", "quad": "pp", "smooth_quad": "p",
          "cubic": "ppp", "smooth_cubic": "pp", "closed": "", "arc": "nnnffp"}


def value(I, s, c, form):
    if form == "tuple":
        return s, Tup((Num(c[0], "f"), Num(c[1], "f")))
    if form == "complex":
        return s, Cx(c[0], c[1])
    return pt(I, s, c)


def scenario(I, ctx, calls, form="Point", as_z=False, each_rel=None):
    """calls: list of (method, number of groups, relative)"""
    def run():
        s, path = build(I, ctx)
        spec = Spec(ctx)
        s, n0 = length_of(I, s, path)
        states = [s]
        n = 0
        want = []
        rels = []
        for name, groups, rel in calls:
            args = []
            gs = []
            for g in range(groups):
                row = []
                for j, ch in enumerate(SHAPES[name]):
                    n += 1
                    if ch == "p":
                        last = j == len(SHAPES[name]) - 1
                        if as_z and last:
                            row.append(spec.first)
                            args.append("z")
                        else:
                            row.append(P("u%d" % n))
                            args.append(row[-1])
                    elif ch == "n":
                        row.append(R("n%d" % n))
                        args.append(Num(row[-1], "f"))
                    else:
                        row.append(True)
                        args.append(Const(bool(n % 2)))
                gs.append(row)
            if name == "closed":
                gs = [[]]
            add = spec.call(name, gs, rel)
            want += add
            rels += [rel] * len(add)
            nxt = []
            for s in states:
                vals = []
                for a in args:
                    if isinstance(a, tuple):
                        s, v = value(I, s, a, form)
                        vals.append(v)
                    elif isinstance(a, str):
                        vals.append(Const(a))
                    else:
                        vals.append(a)
                kw = {} if rel is None else {"relative": Const(rel)}
                rs = method(I, s, path, name, *vals, **kw)
                for s2, v in rs:
                    if isinstance(v, Raise):
                        if feasible(s2):
                            return False, "%s raises %s %s" % (name, v.name, [a for a in v.exc.args][:1]), v.where
                    else:
                        nxt.append(s2)
            states = nxt
        if not states:
            return None, "no outcome"
        res = True, ""
        for s in states:
            s, m = length_of(I, s, path)
            if m != n0 + len(want):
                if feasible(s):
                    return False, "%d segments are added where %d are required" % (m - n0, len(want))
                continue
            for k, (kind, parts) in enumerate(want):
                s, g = seg_at(I, s, path, n0 + k)
                r = cmp_segment(I, s, g, kind, parts, "added #%d " % k, rels[k] if rels[k] is not None else False)
                if r[0] is False:
                    if feasible(s):
                        return r
                elif r[0] is None:
                    res = r
        return res
    return run


def check(rep):
    rep.rule("method", "each method appends its segment from the current point, in every context", 80)
    rep.rule("groups", "further point groups repeat the method, with the same relative flag", 40)
    rep.rule("form", "points may be given as Point, tuple or complex", 12)
    rep.rule("z", "a closing letter in place of the end point stands for the subpath start", 10)
    rep.rule("sequence", "methods compose", 60)
    rep.rule("arc", "an arc starts at the current point and ends at the given one", 3)
    I = rep.interp()
    ctxs = contexts()
    for cn, ctx in ctxs.items():
        for name in SHAPES:
            if name == "arc":
                continue
            if cn == "empty" and name not in ("move", "line", "quad", "cubic"):
                continue
            for rel in (False, True, None) if name != "closed" or rep.thorough else (False, True):
                rep.each("method", "%s after %s relative=%s" % (name, cn, rel), scenario(I, ctx, [(name, 1, rel)]))
            if cn == "empty":
                continue
            if name != "closed" and (cn in ("Move", "QuadraticBezier", "CubicBezier", "second subpath, Line") or rep.thorough):
                for g in (2, 3):
                    for rel in (False, True):
                        rep.each("groups", "%s x%d after %s relative=%s" % (name, g, cn, rel), scenario(I, ctx, [(name, g, rel)]))
            if "p" in SHAPES[name] and cn in ("Line", "second subpath, Line") and name != "move":
                rep.each("z", "%s after %s" % (name, cn), scenario(I, ctx, [(name, 1, False)], as_z=True))
    for form in ("tuple", "complex"):
        for name in SHAPES:
            if "p" in SHAPES[name] and name != "arc":
                rep.each("form", "%s %s" % (name, form), scenario(I, ctxs["second subpath, CubicBezier"], [(name, 2, True)], form))
    names = [n for n in SHAPES if n != "arc"]
    for a in names:
        for b in names:
            rep.each("sequence", "%s, %s" % (a, b), scenario(I, ctxs["second subpath, Move"], [(a, 1, False), (b, 1, True)]))
            if rep.thorough:
                for c in names:
                    rep.each("sequence", "%s, %s, %s" % (a, b, c), scenario(I, ctxs["Line"], [(a, 1, True), (b, 2 if b != "closed" else 1, False), (c, 1, True)]))
    I.max_steps = 4000000
    for rel in (False, True):
        for cn in ("Line", "second subpath, CubicBezier"):
            rep.each("arc", "after %s relative=%s" % (cn, rel), scenario(I, ctxs[cn], [("arc", 1, rel)]))
    for rel in (False, True):
        def two():
            s = I.start()
            s, path = new(I, s, "path", "Path")
            one = lambda x, y: Tup((num(x), num(y)))
            s, _ = only(method(I, s, path, "move", one(0, 0)))
            args = [num(5), num(5), num(0), FALSE, TRUE, one(10, 0), num(3), num(4), num(0), TRUE, FALSE, one(3, 7)]
            def judge(s, v):
                s, m = length_of(I, s, path)
                if m != 3:
                    return False, "%d segments where 3 are required" % m
                res = True, ""
                for k, (a, b) in ((1, ((0, 0), (10, 0))), (2, ((10, 0), (3, 7)))):
                    s, g = seg_at(I, s, path, k)
                    r = cmp_segment(I, s, g, "Arc", (a, b, "any", "any", "any"), "arc %d " % k, rel)
                    if r[0] is not True:
                        res = r
                        break
                return res
            return all_outcomes(method(I, s, path, "arc", *args, relative=Const(rel)), judge)
        rep.each("arc", "two groups relative=%s" % rel, two)
