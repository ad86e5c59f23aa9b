"""P04: completeness and independence of copies, and exclusive ownership of the points of segments.
Copies are interpreted on symbolic originals; the stores reachable from original and copy are
compared field by field and have to be disjoint."""
import ast

from ..edits import *
from ..frame import REPO

OPTIONS = {"relative": True, "smooth": False}


def used_fields(repo=None):
    """class -> attributes of self that some method of it or of its bases reads"""
    classes = {}
    for m in ("basic", "path"):
        tree = ast.parse(open("%s/svgio/%s.py" % (REPO, m), encoding="utf-8").read())
        for c in ast.walk(tree):
            if isinstance(c, ast.ClassDef):
                reads = set()
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and f.name not in ("__init__", "__copy__"):
                        for n in ast.walk(f):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                                reads.add(n.attr)
                            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                                reads.add(n.args[1].value)
                classes[c.name] = ([b.id for b in c.bases if isinstance(b, ast.Name)], reads)

    def all_reads(c):
        if c not in classes:
            return set()
        out = set(classes[c][1])
        for b in classes[c][0]:
            out |= all_reads(b)
        return out
    return {c: all_reads(c) for c in classes}


def scalar(v):
    return isinstance(v, Num) or v in (NONE, TRUE, FALSE)


class Compare:
    def __init__(self, I, used):
        self.I, self.used = I, used

    def diff(self, s, a, b, where, seen):
        """first difference of the state of two values, or None"""
        a, b = self.I.resolve(s, a), self.I.resolve(s, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if (a.addr, b.addr) in seen:
                return None
            seen.add((a.addr, b.addr))
            oa, ob = s.o(a), s.o(b)
            if oa.kind == "module":
                return None
            ka, kb = getattr(oa.cls, "name", None), getattr(ob.cls, "name", None)
            if oa.kind != ob.kind or ka != kb:
                return "%s is a %s, not a %s" % (where, kb or ob.kind, ka or oa.kind)
            use = self.used.get(ka)
            for f, x in sorted(oa.fields.items(), key=lambda t: str(t[0])):
                if use is not None and isinstance(f, str) and f not in use:
                    continue
                if f not in ob.fields:
                    return "%s.%s is missing" % (where, f)
                y = ob.fields[f]
                if isinstance(f, str) and f.startswith("_") and y == NONE and x != NONE:
                    if scalar(x) or isinstance(x, Ref) and s.o(x).kind == "list" and all(scalar(i) for i in s.o(x).items):
                        continue  # remembered value, computed again when needed
                d = self.diff(s, x, y, "%s.%s" % (where, f), seen)
                if d:
                    return d
            if oa.items is not None and not isinstance(oa.items, dict):
                if len(oa.items) != len(ob.items):
                    return "%s has %d items, not %d" % (where, len(ob.items), len(oa.items))
                for k, (x, y) in enumerate(zip(oa.items, ob.items)):
                    d = self.diff(s, x, y, "%s[%d]" % (where, k), seen)
                    if d:
                        return d
            return None
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            for k, (x, y) in enumerate(zip(a.items, b.items)):
                d = self.diff(s, x, y, "%s[%d]" % (where, k), seen)
                if d:
                    return d
            return None
        if isinstance(a, Num) and isinstance(b, Num):
            k = same(s, b.r, a.r, tol=0.0 if a.r.cval() is not None else 1e-15)
            if k is False:
                return "%s is %r, not %r" % (where, s.norm(b.r), s.norm(a.r))
            return None if k else "?"
        if a == b:
            return None
        if isinstance(a, Const) and isinstance(b, Const) or a == NONE or b == NONE:
            return "%s is %s, not %s" % (where, short(b), short(a))
        return "?"


def points_of(I, s, g):
    """addresses of the points a segment holds"""
    return {a for a in mutable_reach(s, g) if kind_of(s, Ref(a)) == "Point"}


def exclusive(I, s, path):
    """no segment occurs twice in a path and no point belongs to two segments"""
    s, n = length_of(I, s, path)
    owner = {}
    segs = {}
    for k in range(n):
        s, g = seg_at(I, s, path, k)
        if not isinstance(g, Ref):
            return None, "segment unknown"
        if g.addr in segs:
            return False, "one segment object at positions %d and %d" % (segs[g.addr], k)
        segs[g.addr] = k
        for a in points_of(I, s, g):
            if a in owner:
                return False, "segments %d and %d share a point" % (owner[a], k)
            owner[a] = k
    return True, ""


def check(rep):
    rep.rule("complete", "a copy carries every piece of state its operations read", 40)
    rep.rule("observed", "a copy has the text of the original", 30)
    rep.rule("independent", "a copy shares nothing changeable with the original", 40)
    rep.rule("kept", "a segment keeps its own points, not the ones it was given", 16)
    rep.rule("exclusive", "segments of a path share no point", 250)
    rep.rule("result", "results of + and * share nothing with the operands", 20)
    I = load(rep.interp())
    I.max_steps = 4000000
    used = used_fields()
    types = value_types()
    plain = lambda l: l
    makes = {}
    for name, (labels, make) in types.items():
        if name == "Subpath":
            continue
        makes[name] = lambda s, make=make: make(I, s, plain)
    for u in ("", "in", "ex", "vw", "Q"):
        makes["Length '%s'" % u] = lambda s, u=u: new(I, s, "basic", "Length", sym("v"), Const(u))
    makes["Length none"] = lambda s: new(I, s, "basic", "Length", NONE)
    makes["Color none"] = lambda s: new(I, s, "basic", "Color", Const("none"))
    makes["Viewbox without aspect"] = lambda s: new(I, s, "basic", "Viewbox", M.mktext([x for k, n in enumerate("abcd") for x in ([" "] if k else []) + [NumPiece("lit", sym(n))]]))
    makes["Viewbox empty"] = lambda s: new(I, s, "basic", "Viewbox", NONE)
    for kind in SEGMENTS:
        for r in (False, True):
            for m in (False, True):
                makes["%s relative=%s smooth=%s" % (kind, r, m)] = lambda s, kind=kind, r=r, m=m: segment(I, s, kind, relative=r, smooth=m)[:2]
        makes[kind + " without start"] = lambda s, kind=kind: loose(I, s, kind, "n", False)

    def flagged(s):
        s, path = new(I, s, "path", "Path")
        for k, (kind, parts) in enumerate(chain(LONG)):
            s, g = raw_segment(I, s, kind, parts, sweep=R("w%d" % k) if kind == "Arc" else None, relative=bool(k % 2), smooth=bool(k % 3))
            s, _ = only(method(I, s, path, "append", g))
        return s, path
    makes["Path with flags"] = flagged
    makes["Path empty"] = lambda s: new(I, s, "path", "Path")

    def ways(name):
        yield "copy", lambda s, a: do(I, s, "copy", a)
        cls = name.split()[0]
        if cls in ("Length", "Color", "Point", "Angle", "Matrix", "Viewbox"):
            yield "constructor", lambda s, a: I.run(s, I.get(s, "basic", cls), a)
        elif cls == "Path":
            yield "constructor", lambda s, a: I.run(s, I.get(s, "path", cls), a)
    for name, mk in makes.items():
        for how, fn in ways(name):
            inst = "%s by %s" % (name, how)

            def comp():
                s, a = mk(I.start())
                res = None, "no outcome"
                for s2, b in fn(s, a):
                    if isinstance(b, Raise):
                        if feasible(s2):
                            return False, "raises %s" % b.name, b.where
                        continue
                    d = Compare(I, used).diff(s2, a, b, kind_of(s2, a) or "value", set())
                    if d == "?":
                        res = None, "state unknown"
                    elif d:
                        if feasible(s2):
                            return False, d
                    elif res[1] == "no outcome":
                        res = True, ""
                return res
            rep.each("complete", inst, comp)

            def obs():
                s, a = mk(I.start())
                n = 0
                for s2, b in fn(s, a):
                    if isinstance(b, Raise):
                        continue
                    for s3, t in do(I, s2, "text", a):
                        for s4, u in do(I, s3, "text", b):
                            if t != u and isinstance(t, (Text, Const)) and isinstance(u, (Text, Const)) and feasible(s4):
                                if text_key(s4, t) != text_key(s4, u):
                                    return False, "the copy is written %s, the original %s" % (short(u), short(t))
                            n += 1
                return n > 0 or None
            if not name.startswith("Viewbox empty"):
                rep.each("observed", inst, obs)

            def indep():
                s, a = mk(I.start())
                res = None
                for s2, b in fn(s, a):
                    if isinstance(b, Raise):
                        continue
                    sh = mutable_reach(s2, a) & mutable_reach(s2, b)
                    if sh:
                        return False, "original and copy share %s" % ", ".join(sorted({str(kind_of(s2, Ref(x)) or s2.o(Ref(x)).kind) for x in sh}))
                    res = True
                return res
            rep.each("independent", inst, indep)
    # points given to constructors
    for kind in SEGMENTS:
        forms = [("positional", lambda ps: (ps, {}))]
        if kind in ("Move", "Line", "Close"):
            forms.append(("keywords", lambda ps: ([], {"start": ps[0], "end": ps[1]})))
        if kind == "Move":
            forms += [("end only", lambda ps: (ps[:1], {})), ("end keyword", lambda ps: (ps[:1], {"end": ps[1]})), ("start keyword", lambda ps: (ps[:1], {"start": ps[1]}))]
        if kind == "Arc":
            forms += [("keywords", lambda ps: ([], {"start": ps[0], "end": ps[1], "center": ps[2], "prx": ps[3], "pry": ps[4], "sweep": sym("w")}))]
        for fname, form in forms:
            def kept():
                s = I.start()
                ps = []
                for j in range(NARGS[kind]):
                    s, p = pt(I, s, P("p%d" % j))
                    ps.append(p)
                args, kw = form(ps)
                if kind == "Arc" and fname == "positional":
                    args = list(args) + [sym("w")]
                res = None
                for s2, g in I.run(s, I.get(s, "path", kind), *args, **kw):
                    if isinstance(g, Raise):
                        continue
                    if any(mutable_reach(s2, p) & mutable_reach(s2, g) for p in ps):
                        return False, "a point given to the constructor is kept"
                    res = True
                return res
            rep.each("kept", "%s %s" % (kind, fname), kept)
    for name, mk in (("SVG arguments", lambda a, b, c: ([a, num(5), num(4), num(30), TRUE, FALSE, b], {})), ("circle through a control", lambda a, b, c: ([], {"start": a, "end": b, "control": c})),
                     ("center", lambda a, b, c: ([], {"start": a, "end": b, "center": c, "ccw": FALSE}))):
        def kept():
            s = I.start()
            ps = []
            for x, y in ((0, 0), (6, 2), (4, 5)):
                s, p = new(I, s, "basic", "Point", num(x), num(y))
                ps.append(p)
            args, kw = mk(*ps)
            res = None
            for s2, g in I.run(s, I.get(s, "path", "Arc"), *args, **kw):
                if isinstance(g, Raise):
                    continue
                if any(mutable_reach(s2, p) & mutable_reach(s2, g) for p in ps):
                    return False, "a point given to the constructor is kept"
                own = [a for a in s2.o(g).fields.values() if isinstance(a, Ref)]
                if len(set(own)) != len(own):
                    return False, "one point is used for two parts of the arc"
                res = True
            return res
        rep.each("kept", "Arc " + name, kept)
    for m, n in {"move": 2, "line": 2, "quad": 4, "smooth_quad": 2, "cubic": 6, "smooth_cubic": 4}.items():
        def kept():
            s, path = path_of(I, I.start(), chain(LONG))
            ps = []
            for j in range(n):
                s, p = pt(I, s, P("p%d" % j))
                ps.append(p)
            res = None
            for s2, v in method(I, s, path, m, *ps):
                if isinstance(v, Raise):
                    continue
                if any(mutable_reach(s2, p) & mutable_reach(s2, path) for p in ps):
                    return False, "a point given to %s is kept" % m
                r = exclusive(I, s2, path)
                if r[0] is not True:
                    return r
                res = True
            return res
        rep.each("kept", "Path.%s" % m, kept)

        def zed():
            s, path = path_of(I, I.start(), chain(LONG))
            ps = []
            for j in range(n // 2 - 1):
                s, p = pt(I, s, P("p%d" % j))
                ps.append(p)
            res = None
            for s2, v in method(I, s, path, m, *(ps + [Const("z")])):
                if isinstance(v, Raise):
                    continue
                r = exclusive(I, s2, path)
                if r[0] is not True:
                    return r
                res = True
            return res
        rep.each("exclusive", "%s to z" % m, zed)
    for t in ("M p L p z", "M p l p p z", "M p Q p p T p z", "M p q p p t p z", "M p C p p p S p p z", "M p c p p p s p p Z M p z", "M p L p z L p", "M p Q p z", "M p C p p z", "M p L z", "m p h 1 v 2 H 3 V 4 z"):
        def parsed():
            s = I.start()
            res = None
            for s2, path in I.run(s, I.get(s, "path", "Path"), text_of(t)):
                if isinstance(path, Raise) or not feasible(s2):
                    continue
                r = exclusive(I, s2, path)
                if r[0] is not True:
                    return r
                res = True
            return res
        rep.each("exclusive", "parse " + t, parsed)
    for e in edits(rep.thorough):
        def excl():
            s, p = path_of(I, I.start(), chain(e.base))
            before = mutable_reach(s, p)
            res = None, "no outcome"
            for s2, v in e.run(I, s, p):
                if isinstance(v, Raise) or not feasible(s2):
                    continue
                r = exclusive(I, s2, v)
                if r[0] is False:
                    return r
                if e.value and mutable_reach(s2, v) & before:
                    return False, "the result shares %s with the operand" % "segments"
                res = r
            return res
        rep.each("exclusive", e.label, excl)
    for m in ("as_cubic_curves", "as_quad_curves"):
        for base in (("Move", "Line", "Arc", "Close"),):
            def conv():
                s, path = path_of(I, I.start(), chain(base))
                s, a = seg_at(I, s, path, 2)
                res = None
                for s2, v in method(I, s, a, m, num(3)):
                    if isinstance(v, Raise) or not feasible(s2):
                        continue
                    for s3, l in do(I, s2, "enum_list", v):
                        gs = items(I, s3, l)
                        owner = {}
                        for k, g in enumerate([a] + list(gs or ())):
                            for x in points_of(I, s3, g):
                                if x in owner:
                                    return False, "curves %d and %d share a point" % (owner[x], k)
                                owner[x] = k
                        res = True if gs else res
                return res
            rep.each("exclusive", m, conv)
    # results of operators
    for kind in SEGMENTS + ("Path", "Subpath", "text"):
        for op_ in ("mul", "add", "flipped mul", "flipped add"):
            for right in ("Matrix", "rotate(30)", "Line", "Path", "Subpath"):
                if (op_[-3:] == "mul") != (right in ("Matrix", "rotate(30)")):
                    continue
                if kind == "text" and right not in ("Path", "Subpath"):
                    continue

                def result():
                    s = I.start()
                    if kind == "Path":
                        s, a = path_of(I, s, chain(("Move", "Line", "CubicBezier", "Close")))
                    elif kind == "Subpath":
                        s, a = path_of(I, s, chain(("Move", "Line", "CubicBezier", "Close", "Move", "Line")))
                        s, a = subpath_of(I, s, a, 0)
                    elif kind == "text":
                        a = Const("L 7,7")
                    else:
                        s, a, _ = segment(I, s, kind)
                    if right == "Subpath":
                        s, b = other_path(I, s)
                        s, b = subpath_of(I, s, b, 0)
                    elif right == "Matrix":
                        s, b, _ = matrix(I, s)
                    elif right == "Line":
                        s, b, _ = segment(I, s, "Line", "o")
                    elif right == "Path":
                        s, b = other_path(I, s)
                    else:
                        b = Const(right)
                    res = None
                    for s2, v in do(I, s, op_[-3:], *((b, a) if "flipped" in op_ else (a, b))):
                        if isinstance(v, Raise):
                            continue
                        for x in (a, b):
                            if isinstance(x, Ref) and mutable_reach(s2, x) & mutable_reach(s2, v):
                                return False, "the result shares a %s with its operand" % kind_of(s2, x)
                        res = True
                    return res
                rep.each("result", "%s %s %s" % (kind, op_, right), result)


def text_key(s, t):
    if isinstance(t, Const):
        return t.v
    return repr([(p if isinstance(p, str) else (getattr(p, "fmt", None), repr(s.norm(p.n.r)) if hasattr(p, "n") and isinstance(p.n, Num) else repr(p))) for p in t.ps]) if hasattr(t, "ps") else repr(t)
