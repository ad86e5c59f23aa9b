"""Symbolic representatives of every value type, and structural snapshots of abstract stores."""
from .pathdata import *
from . import models as M

H = '''
from copy import copy as _copy


def enum(o):
    return [x for x in o]


def enum_list(o):
    return list(o)


def nested(o):
    return [(a, b) for a in o for b in o]


def interleaved(o):
    i = iter(o)
    a = next(i)
    j = iter(o)
    b = next(j)
    c = next(i)
    d = next(j)
    return [a, b, c, d]


def broken_off(o):
    for a in o:
        break
    return [x for x in o]


def at(o, k):
    try:
        return ("item", o[k])
    except IndexError:
        return ("index", None)


def put(o, k, v):
    o[k] = v
    return o[k]


def put_at(o, k, v):
    try:
        o[k] = v
    except IndexError:
        return True
    return False


def size(o):
    return len(o)


def copy(o):
    return _copy(o)


def equal(a, b):
    return a == b


def unequal(a, b):
    return a != b


def less(a, b):
    return a < b


def lesseq(a, b):
    return a <= b


def greater(a, b):
    return a > b


def greatereq(a, b):
    return a >= b


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def mul(a, b):
    return a * b


def div(a, b):
    return a / b


def floordiv(a, b):
    return a // b


def matmul(a, b):
    return a @ b


def power(a, b):
    return a ** b


def iadd(a, b):
    a += b
    return a


def isub(a, b):
    a -= b
    return a


def imul(a, b):
    a *= b
    return a


def imatmul(a, b):
    a @= b
    return a


def neg(a):
    return -a


def pos(a):
    return +a


def inv(a):
    return ~a


def absolute(a):
    return abs(a)


def text(a):
    return str(a)


def rep(a):
    return repr(a)


def number(a):
    return float(a)


def integer(a):
    return int(a)


def cplx(a):
    return complex(a)


def hashed(a):
    return hash(a)


def contains(a, b):
    return b in a


def truth(a):
    return bool(a)
'''


def ops(I):
    if "_ops" not in I.modules:
        I.add_module("_ops", H)
    return I


def do(I, s, name, *args):
    """outcomes of one of the small functions above"""
    ops(I)
    if "_ops" not in I.modules or I.modules["_ops"].addr not in s.heap:
        raise AnalysisLimit("load ops before starting a state")
    return I.run(s, I.get(s, "_ops", name), *args)


def seg_parts(kind, pre=""):
    n = {"Move": "se", "Line": "se", "Close": "se", "QuadraticBezier": "sce", "CubicBezier": "scde", "Arc": "seprq"}[kind]
    return tuple(P(pre + c) for c in n)


def segment(I, s, kind, pre="", **flags):
    parts = seg_parts(kind, pre)
    s, g = raw_segment(I, s, kind, parts, sweep=R(pre + "w") if kind == "Arc" else None, **flags)
    return s, g, parts


SEGMENTS = ("Move", "Line", "Close", "QuadraticBezier", "CubicBezier", "Arc")


def chain(kinds, pre=""):
    """consistent (kind, parts) list: every segment starts where the previous one ends"""
    out = []
    cur = None
    first = None
    for k, kind in enumerate(kinds):
        e = P("%se%d" % (pre, k))
        if kind == "Move":
            out.append((kind, (cur, e)))
            first = e
        elif kind == "Line":
            out.append((kind, (cur, e)))
        elif kind == "Close":
            e = first
            out.append((kind, (cur, e)))
        elif kind == "QuadraticBezier":
            out.append((kind, (cur, P("%sc%d" % (pre, k)), e)))
        elif kind == "CubicBezier":
            out.append((kind, (cur, P("%sc%d" % (pre, k)), P("%sd%d" % (pre, k)), e)))
        else:
            out.append((kind, (cur, e, P("%so%d" % (pre, k)), P("%sp%d" % (pre, k)), P("%sq%d" % (pre, k)))))
        cur = e
    return out


LONG = ("Move", "Line", "QuadraticBezier", "CubicBezier", "Close", "Move", "Arc", "Line", "Close")


def path_of(I, s, segs, pre=""):
    """Path holding the given (kind, parts); sweeps are free numbers"""
    s, path = new(I, s, "path", "Path")
    for k, (kind, parts) in enumerate(segs):
        s, g = raw_segment(I, s, kind, parts, sweep=R("%sw%d" % (pre, k)) if kind == "Arc" else None)
        s, _ = only(method(I, s, path, "append", g))
    return s, path


def subpath_of(I, s, path, k):
    return only(method(I, s, path, "subpath", num(k)))


# ------------------------------------------------------------------ snapshots


def snap(s, v, seen=None, depth=0, skip=(), by=None):
    """structure of everything reachable from a value: comparable between two states
    (numbers are normalised with what state `by` knows)"""
    seen = {} if seen is None else seen
    by = by or s
    if isinstance(v, Ref):
        if v.addr in seen:
            return ("again", seen[v.addr])
        seen[v.addr] = len(seen)
        o = s.o(v)
        if o.kind == "module":
            return ("module", o.meta)
        its = None
        if o.items is not None:
            if isinstance(o.items, dict):
                its = tuple((snap(s, k, seen, depth + 1, skip, by), snap(s, x, seen, depth + 1, skip, by)) for k, x in o.items.values())
            else:
                its = tuple(snap(s, x, seen, depth + 1, skip, by) for x in o.items)
        return (
            o.kind,
            getattr(o.cls, "qual", None) or getattr(o.cls, "name", None),
            tuple((f, snap(s, x, seen, depth + 1, skip, by)) for f, x in sorted(o.fields.items(), key=lambda t: str(t[0])) if f not in skip),
            its,
        )
    if isinstance(v, Tup):
        return ("tuple",) + tuple(snap(s, x, seen, depth + 1, skip, by) for x in v.items)
    if isinstance(v, Num):
        return ("num", by.norm(v.r), v.k if isinstance(v.k, str) else v.k.qual)
    if isinstance(v, Cx):
        return ("cx", by.norm(v.re), by.norm(v.im))
    if isinstance(v, Text):
        return ("text", v)
    return ("v", v)


def snap_diff(a, b, where=""):
    """description of the first difference between two snapshots, or None"""
    if a == b:
        return None
    if type(a) is not tuple or type(b) is not tuple or len(a) != len(b):
        return "%s: %s became %s" % (where or "value", short(a), short(b))
    if len(a) == 4 and isinstance(a[0], str) and isinstance(a[2], tuple) and a[0] == b[0] and a[1] == b[1]:
        fa, fb = dict(a[2]), dict(b[2])
        for f in list(fa) + [f for f in fb if f not in fa]:
            if f not in fb:
                return "%s.%s is gone" % (where, f)
            if f not in fa:
                if str(f).startswith("_"):
                    continue  # a note the object keeps for itself; what it does to results is judged there
                return "%s.%s appeared" % (where, f)
            d = snap_diff(fa[f], fb[f], "%s.%s" % (where, f))
            if d:
                return d
        if (a[3] is None) != (b[3] is None):
            return "%s: number of items changed" % where
        if a[3] is None:
            return None
        if len(a[3]) != len(b[3]):
            return "%s: number of items changed" % where
        for i, (x, y) in enumerate(zip(a[3], b[3])):
            d = snap_diff(x, y, "%s[%d]" % (where, i))
            if d:
                return d
        return None
    if a[0] == "num" and b[0] == "num":
        return "%s: %r became %r" % (where, a[1], b[1])
    for x, y in zip(a, b):
        if x == y:
            continue
        if type(x) is not tuple or type(y) is not tuple:
            return "%s changed" % where
        d = snap_diff(x, y, where)
        if d:
            return d
    return None


def short(x):
    t = repr(x)
    return t if len(t) < 80 else t[:77] + "..."


def mutable_reach(s, v, seen=None):
    """addresses of the changeable objects reachable from a value"""
    seen = set() if seen is None else seen
    if isinstance(v, Ref):
        if v.addr in seen:
            return seen
        o = s.o(v)
        if o.kind in ("module", "frame"):
            return seen
        seen.add(v.addr)
        for x in o.fields.values():
            mutable_reach(s, x, seen)
        if o.items is not None:
            for x in o.items.values() if isinstance(o.items, dict) else o.items:
                if isinstance(x, tuple):
                    for y in x:
                        mutable_reach(s, y, seen)
                else:
                    mutable_reach(s, x, seen)
    elif isinstance(v, Tup):
        for x in v.items:
            mutable_reach(s, x, seen)
    return seen


# ------------------------------------------------------------------ value types by components


def int_atom(st, name, lo=0, hi=255):
    from .sym import atom
    a = atom("int:" + name)
    st.facts[Poly.of(a)] = Interval(Fraction(lo), Fraction(hi))
    return Num(Rat(Poly.of(a)), "i")


def value_types():
    """kind -> (labels, make): make(I, s, f) builds the value whose component l is the number
    named f(l)"""
    out = {}

    def pnt(I, s, f):
        return new(I, s, "basic", "Point", sym(f("x")), sym(f("y")))
    out["Point"] = (["x", "y"], pnt)

    def mat(I, s, f):
        return new(I, s, "basic", "Matrix", *[sym(f(n)) for n in "abcdef"])
    out["Matrix"] = (list("abcdef"), mat)

    def ang(I, s, f):
        return only(method(I, s, I.get(s, "basic", "Angle"), "radians", sym(f("t"))))
    out["Angle"] = (["t"], ang)

    def col(I, s, f):
        t = R(0)
        for n in "RGBA":
            t = t * R(256) + int_atom(s, f(n)).r
        s, c = new(I, s, "basic", "Color")
        rs = I.set_attr(s, c, "rgba", Num(t, "i"))
        s, _ = only(rs)
        return s, c
    out["Color"] = (["R", "G", "B", "A"], col)
    for u in ("px", "mm", "%", "pt", "em"):
        def ln(I, s, f, u=u):
            return new(I, s, "basic", "Length", sym(f("v")), Const(u))
        out["Length " + u] = (["v"], ln)

    def vb(I, s, f):
        ps = []
        for k, n in enumerate(("x", "y", "w", "h")):
            ps += [" " if k else "", NumPiece("lit", sym(f(n)))]
        return new(I, s, "basic", "Viewbox", M.mktext(ps), Const("xMinYMax slice"))
    out["Viewbox"] = (["x", "y", "w", "h"], vb)
    for kind in SEGMENTS:
        names = {"Move": "se", "Line": "se", "Close": "se", "QuadraticBezier": "sce", "CubicBezier": "scde", "Arc": "seprq"}[kind]
        labels = [n + a for n in names for a in "xy"] + (["w"] if kind == "Arc" else [])

        def sg(I, s, f, kind=kind, names=names):
            parts = tuple((R(f(n + "x")), R(f(n + "y"))) for n in names)
            return raw_segment(I, s, kind, parts, sweep=R(f("w")) if kind == "Arc" else None, relative=True)
        out[kind] = (labels, sg)
    kinds = ("Move", "Line", "QuadraticBezier", "Arc", "CubicBezier", "Close")
    labels = []
    for kind, parts in chain(kinds):
        for p in parts:
            for c in p or ():
                n = str(c)
                if n not in labels:
                    labels.append(n)
    labels.append("w3")

    def pth(I, s, f, window=False):
        segs = []
        for kind, parts in chain(kinds):
            segs.append((kind, tuple(None if p is None else tuple(R(f(str(c))) for c in p) for p in parts)))
        s, path = new(I, s, "path", "Path")
        for k, (kind, parts) in enumerate(segs):
            s, g = raw_segment(I, s, kind, parts, sweep=R(f("w3")) if kind == "Arc" else None)
            s, _ = only(method(I, s, path, "append", g))
        if window:
            return subpath_of(I, s, path, 0)
        return s, path
    out["Path"] = (labels, pth)
    out["Subpath"] = (labels, lambda I, s, f: pth(I, s, f, True))
    return out
