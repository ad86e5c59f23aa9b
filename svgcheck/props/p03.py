"""P03: effects of operations on their operands.  Every operation is interpreted on symbolic
operands and the part of the store reachable from each operand is compared before and after."""
from ..objects import *


def scalarish(s, v):
    """holds no library object and no text: a number, a flag, or a list of such"""
    if isinstance(v, Ref):
        o = s.o(v)
        return o.kind == "list" and all(scalarish(s, x) for x in o.items)
    if isinstance(v, Tup):
        return all(scalarish(s, x) for x in v.items)
    return isinstance(v, Num) or v in (NONE, TRUE, FALSE)


def caches(s, v, out=None, seen=None):
    """private fields of the objects reachable from v that hold numbers only"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(v, Ref) and v.addr not in seen:
        seen.add(v.addr)
        o = s.o(v)
        if o.kind == "module":
            return out
        for f, x in o.fields.items():
            if isinstance(f, str) and f.startswith("_") and scalarish(s, x):
                out.add(f)
            caches(s, x, out, seen)
        for x in (o.items.values() if isinstance(o.items, dict) else o.items) if o.items is not None else ():
            for y in x if isinstance(x, tuple) else (x,):
                caches(s, y, out, seen)
    elif isinstance(v, Tup):
        for x in v.items:
            caches(s, x, out, seen)
    return out


def window(I, s, v):
    """observable shape of a window: its length and the identities of its items"""
    if not is_a(I, s, v, "Subpath"):
        return None
    s, n = length_of(I, s, v)
    return n, tuple(I.get_item(s, v, num(k))[0][1] for k in range(n))


class Before:
    def __init__(self, I, s, ops):
        self.I, self.s, self.ops = I, s.fork(), [o for o in ops if isinstance(o, (Ref, Tup))]
        self.cache = [caches(s, o) for o in self.ops]
        self.win = [window(I, s, o) for o in self.ops]

    def diff(self, s, skip=None):
        for o, c, w in zip(self.ops, self.cache, self.win):
            if skip is not None and o == skip:
                continue
            drop = c & caches(s, o)
            d = snap_diff(snap(self.s, o, skip=drop, by=s), snap(s, o, skip=drop), kind_of(s, o) or "operand")
            if d:
                return d
            if window(self.I, s, o) != w:
                return "the window moved"
        return None


def run_pure(I, make, call):
    def f():
        s, ops_ = make()
        b = Before(I, s, ops_)
        rs = call(s, *ops_)
        if not rs:
            return None, "no outcome"
        n = 0
        for s2, v in rs:
            d = b.diff(s2)
            if d is not None and feasible(s2):
                return False, "modifies its operand: %s%s" % (d, facts_note(s2))
            n += 1
        return True
    return f


def run_inplace(I, make, call, must=True):
    def f():
        s, ops_ = make()
        left = ops_[0]
        b = Before(I, s, ops_)
        rs = call(s, *ops_)
        ok = 0
        for s2, v in rs:
            if isinstance(v, Raise):
                continue
            if not feasible(s2):
                continue
            ok += 1
            if v != left:
                return False, "evaluates to %s, not to the left operand%s" % (kind_of(s2, v) or short(v), facts_note(s2))
            shared = set()
            for o in b.ops:
                if o != left:
                    shared |= mutable_reach(b.s, o) & mutable_reach(b.s, left)
            if shared:
                continue
            d = b.diff(s2, skip=left)
            if d is not None:
                return False, "modifies its right operand: %s" % d
        return (True, "") if ok else (None, "always raises %s" % ([v for _, v in rs][:1],))
    return f


PURE_BINARY = ("equal", "unequal", "add", "sub", "mul", "matmul", "div")
INPLACE = {"add": "iadd", "sub": "isub", "mul": "imul", "matmul": "imatmul"}
UNARY = ("neg", "absolute", "text", "rep", "copy", "size", "number", "integer", "cplx", "hashed", "inv", "enum")


def check(rep):
    rep.rule("binary", "binary operators and comparisons leave both operands as they were", 150)
    rep.rule("unary", "unary operators, conversions, copies and iteration leave the operand as it was", 90)
    rep.rule("query", "read-only properties and queries leave the object and their arguments as they were", 150)
    rep.rule("inplace", "in-place operators change the left operand only and evaluate to it", 35)
    rep.rule("construct", "constructing from objects leaves them as they were", 12)
    I = ops(rep.interp())
    types = value_types()
    plain = lambda l: l
    other = lambda l: "z" + l

    def txt(*ps):
        return lambda I, s: (s, M.mktext([NumPiece("lit", sym(p[1:])) if p.startswith("#") else p for p in ps]))

    def ty(name, f=other):
        return lambda I, s: types[name][1](I, s, f)

    def const(v):
        return lambda I, s: (s, I.wrap(v))

    mtext = txt("matrix(", "#ma", ",", "#mb", ",", "#mc", ",", "#md", ",", "#me", ",", "#mf", ")")
    ptext = txt("M ", "#ma", ",", "#mb", " L ", "#mc", ",", "#md")
    seg_rights = {"Matrix": ty("Matrix"), "matrix text": mtext, "Line": ty("Line"), "CubicBezier": ty("CubicBezier"), "Arc": ty("Arc"), "path text": ptext, "Path": ty("Path")}
    rights = {
        "Point": {"Point": ty("Point"), "Matrix": ty("Matrix"), "number": lambda I, s: (s, sym("k")), "complex": lambda I, s: (s, Cx(R("k"), R("l"))),
                  "tuple": lambda I, s: (s, Tup((sym("k"), sym("l")))), "list": lambda I, s: (s, s.list([sym("k"), sym("l")])), "matrix text": mtext},
        "Matrix": {"Matrix": ty("Matrix"), "matrix text": mtext, "Point": ty("Point"), "Line": ty("Line"), "Path": ty("Path")},
        "Angle": {"Angle": ty("Angle"), "number": lambda I, s: (s, sym("k"))},
        "Color": {"Color": ty("Color"), "text": const("red"), "int": const(255)},
        "Path": {"Path": ty("Path"), "Subpath": ty("Subpath"), "Line": ty("Line"), "Move": ty("Move"), "CubicBezier": ty("CubicBezier"), "Arc": ty("Arc"), "Matrix": ty("Matrix"), "matrix text": mtext, "path text": ptext},
        "Subpath": {"Path": ty("Path"), "Subpath": ty("Subpath"), "Line": ty("Line"), "CubicBezier": ty("CubicBezier"), "Matrix": ty("Matrix"), "matrix text": mtext, "path text": ptext},
        "Viewbox": {"Viewbox": ty("Viewbox")},
    }
    for k in SEGMENTS:
        rights[k] = seg_rights
    for u in ("px", "mm", "%", "pt", "em"):
        rights["Length " + u] = {"Length px": ty("Length px"), "Length mm": ty("Length mm"), "Length %": ty("Length %"), "Length pt": ty("Length pt"), "text": txt("#k", "pt"), "number": lambda I, s: (s, sym("k"))}

    def pair(name, right):
        def make():
            s = I.start()
            s, a = types[name][1](I, s, plain)
            s, b = right(I, s)
            return s, (a, b)
        return make

    for name, rs in rights.items():
        for rn, right in rs.items():
            for o in PURE_BINARY + (("less", "greatereq") if name.startswith("Length") else ()):
                rep.each("binary", "%s %s %s" % (name, o, rn), run_pure(I, pair(name, right), lambda s, a, b: do(I, s, o, a, b)))
                if o not in ("equal", "unequal") and rn not in rights:
                    rep.each("binary", "%s %s %s" % (rn, o, name), run_pure(I, pair(name, right), lambda s, a, b: do(I, s, o, b, a)))
            for o, io in INPLACE.items():
                seg = name in SEGMENTS
                if seg and o != "mul" or name in ("Angle", "Color", "Viewbox") or (name == "Subpath" and rn == "Subpath"):
                    continue
                if o == "matmul" and rn not in ("Matrix", "matrix text"):
                    continue
                if name == "Matrix" and rn in ("Point", "Line", "Path"):
                    continue
                if o == "matmul" and name not in ("Matrix", "Path"):
                    continue
                if seg and rn not in ("Matrix", "matrix text"):
                    continue
                if name in ("Path", "Subpath") and (o == "sub" or (o == "mul") != (rn in ("Matrix", "matrix text")) and o != "matmul"):
                    continue
                if name == "Matrix" and o in ("add", "sub"):
                    continue
                if name == "Point" and o in ("add", "sub") and rn in ("Matrix", "matrix text"):
                    continue
                rep.each("inplace", "%s %s %s" % (name, io, rn), run_inplace(I, pair(name, right), lambda s, a, b: do(I, s, io, a, b)))

    for name, (labels, make) in types.items():
        for o in UNARY:
            if o == "size" and name not in ("Point", "Matrix", "Path", "Subpath") + SEGMENTS:
                continue
            def mk():
                s, a = make(I, I.start(), plain)
                return s, (a,)
            rep.each("unary", "%s %s" % (o, name), run_pure(I, mk, lambda s, a: do(I, s, o, a)))
        # every property of the class
        s, a = make(I, I.start(), plain)
        cls = a.k if isinstance(a, Num) else s.o(a).cls
        for c in cls.mro:
            if not isinstance(c, ClassVal):
                continue
            for pn, pv in c.dict.items():
                if isinstance(pv, Prop) and not pn.startswith("_"):
                    def mk():
                        s, a = make(I, I.start(), plain)
                        return s, (a,)
                    rep.each("query", "%s.%s" % (name, pn), run_pure(I, mk, lambda s, a: I.get_attr(s, a, pn)))
        if isinstance(a, Ref):
            # constructing the same kind from the object, and from its parts
            def mk():
                s, a = make(I, I.start(), plain)
                return s, (a,)
            if name in ("Point", "Matrix", "Color", "Path", "Viewbox", "Subpath") or name.startswith("Length"):
                cn = "Path" if name == "Subpath" else kind_of(s, a)
                mod = "path" if cn in ("Path",) else "basic"
                rep.each("construct", "%s(%s)" % (cn, name), run_pure(I, mk, lambda s, a: I.run(s, I.get(s, mod, cn), a)))

    t = Num(R("t"), "f")
    pairs = ("pt",)
    queries = {
        "Point": [("distance_to", ty("Point")), ("angle_to", ty("Point")), ("reflected_across", ty("Point")), ("conjugate",), ("argz",),
                  ("move_towards arg", ty("Point"))],
        "Matrix": [("vector",), ("is_identity",), ("value_trans_x",), ("value_trans_y",), ("value_scale_x",), ("value_scale_y",), ("value_skew_x",), ("value_skew_y",),
                   ("point_in_inverse_space", ty("Point")), ("point_in_matrix_space", ty("Point"))],
        "Angle": [("normalized",), ("is_orthogonal",)],
        "Color": [("distance_to", ty("Color")), ("distance_to", const("red"))],
        "Viewbox": [],
    }
    for u in ("px", "mm", "%", "pt", "em"):
        queries["Length " + u] = [("in_pixels",), ("in_inches",), ("to_mm",), ("to_cm",), ("to_inch",), ("value",), ("to_mm", const(96))]
    for k in SEGMENTS:
        queries[k] = [("d",), ("d", ty("Point")), ("d", ty("Point"), const(True)), ("d", ty("Point"), const(False)), ("bbox",), ("point", const(0.25)), ("length",)]
    queries["QuadraticBezier"] += [("is_smooth_from", ty("QuadraticBezier")), ("is_smooth_from", ty("Line"))]
    queries["CubicBezier"] += [("is_smooth_from", ty("CubicBezier")), ("is_smooth_from", ty("Line"))]
    queries["Line"] += [("closest_segment_point", ty("Point"))]
    queries["Close"] += [("closest_segment_point", ty("Point"))]
    queries["Arc"] += [("is_circular",), ("get_rotation",), ("get_start_angle",), ("get_end_angle",), ("get_start_t",), ("get_end_t",), ("point_at_angle", const(0.5)),
                       ("point_at_t", const(0.5)), ("angle_at_point", ty("Point")), ("t_at_point", ty("Point")), ("all as_quad_curves", const(2)), ("all as_cubic_curves", const(2))]
    queries["Path"] = [("d",), ("d", const(True)), ("d", const(False)), ("length",), ("point", const(0)), ("point", const(1)), ("subpath", const(0)), ("count_subpaths",), ("all as_subpaths",), ("all as_points",), ("segments",)]
    queries["Subpath"] = [("d",), ("d", const(True)), ("segments",), ("index_to_path_index", const(1)), ("bbox",)]
    for name, qs in queries.items():
        for q in qs:
            qn = q[0]
            arg = qn.endswith(" arg")
            al = qn.startswith("all ")
            m = qn.replace(" arg", "").replace("all ", "")
            def mk():
                s, a = types[name][1](I, I.start(), plain)
                got = [a]
                for r in q[1:]:
                    s, b = r(I, s)
                    got.append(b)
                return s, tuple(got)
            def call(s, a, *rest):
                rs = method(I, s, a, m, *rest)
                if al:
                    out = []
                    for s2, v in rs:
                        out += [(s2, v)] if isinstance(v, Raise) else do(I, s2, "enum", v)
                    return out
                return rs
            inst = "%s.%s(%s)" % (name, qn, ", ".join("%d" % k for k in range(len(q) - 1)) if len(q) > 2 else "x" if len(q) > 1 else "")
            if len(q) > 2:
                s9, b9 = q[2](I, I.start())
                inst += " %s" % (b9.v,)
            if arg:
                # the receiver changes by design, the argument must not
                def f():
                    s, ops_ = mk()
                    b = Before(I, s, ops_[1:])
                    for s2, v in call(s, *ops_):
                        d = b.diff(s2)
                        if d is not None and feasible(s2):
                            return False, "modifies its argument: %s" % d
                    return True
                rep.each("query", inst, f)
            else:
                rep.each("query", inst, run_pure(I, mk, call))
    # arguments of constructors and static functions
    stat = [
        ("Point", "distance", ["Point", "Point"], []), ("Point", "angle", ["Point", "Point"], []), ("Point", "towards", ["Point", "Point"], [num(0.25)]),
        ("Point", "polar", ["Point"], [num(0.5), sym("k")]), ("Point", "orientation", ["Point", "Point", "Point"], []),
        ("Color", "distance", ["Color", "Color"], []), ("Color", "distance_sq", ["Color", "Color"], []), ("Color", "over", ["Color", "Color"], []),
        ("Matrix", "matrix_multiply", ["Matrix", "Matrix"], []),
    ]
    for cn, fn, kinds, rest in stat:
        def mk():
            s = I.start()
            got = []
            for j, k in enumerate(kinds):
                s, b = types[k][1](I, s, lambda l: "%s%d" % (l, j))
                got.append(b)
            return s, tuple(got)
        rep.each("query", "%s.%s" % (cn, fn), run_pure(I, mk, lambda s, *a: method(I, s, I.get(s, "basic", cn), fn, *(list(a) + rest))))
    for kind in SEGMENTS:
        def mk():
            s = I.start()
            got = []
            for j in range(NARGS[kind]):
                s, b = pt(I, s, P("p%d" % j))
                got.append(b)
            return s, tuple(got)
        rep.each("construct", kind, run_pure(I, mk, lambda s, *a: I.run(s, I.get(s, "path", kind), *(list(a) + ([sym("w")] if kind == "Arc" else [])))))
    shapes = {"move": 1, "line": 2, "quad": 2, "smooth_quad": 1, "cubic": 3, "smooth_cubic": 2}
    for m, n in shapes.items():
        def f():
            s, path = types["Path"][1](I, I.start(), plain)
            got = []
            for j in range(n):
                s, b = pt(I, s, P("p%d" % j))
                got.append(b)
            b = Before(I, s, got)
            for s2, v in method(I, s, path, m, *got):
                d = b.diff(s2)
                if d is not None:
                    return False, "modifies its argument: %s" % d
            return True
        rep.each("construct", "Path.%s" % m, f)
    def arc():
        s, path = types["Path"][1](I, I.start(), plain)
        s, e = pt(I, s, P("p"))
        b = Before(I, s, [e])
        for s2, v in method(I, s, path, "arc", num(5), num(4), num(0), FALSE, TRUE, e):
            d = b.diff(s2)
            if d is not None:
                return False, "modifies its argument: %s" % d
        return True
    rep.each("construct", "Path.arc", arc)
