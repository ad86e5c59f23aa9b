"""Editing operations of paths and of windows onto them, as interpreted calls on a representative path."""
from .objects import *

H2 = '''
def setitem(o, k, v):
    o[k] = v


def setslice(o, a, b, c, v):
    o[slice(a, b, c)] = v


def delitem(o, k):
    del o[k]


def delslice(o, a, b, c):
    del o[slice(a, b, c)]
'''


def load(I):
    ops(I)
    if "_edits" not in I.modules:
        I.add_module("_edits", H2)
    return I


def call(I, s, name, *args):
    return I.run(s, I.get(s, "_edits", name), *args)


def none_or(k):
    return NONE if k is None else num(k)


def loose(I, s, kind, pre, placed=True):
    """a new segment; not placed: without a start point"""
    parts = list(seg_parts(kind, pre))
    if not placed:
        parts[0] = None
    return raw_segment(I, s, kind, tuple(parts), sweep=R(pre + "w") if kind == "Arc" else None)


def seglist(I, s, kinds, pre, placed=True):
    out = []
    for k, kind in enumerate(kinds):
        s, g = loose(I, s, kind, "%s%d" % (pre, k), placed)
        out.append(g)
    return s, s.list(out)


def other_path(I, s, kinds=("Move", "Line", "QuadraticBezier", "Close"), pre="o"):
    return path_of(I, s, chain(kinds, pre), pre)


def text_of(spec):
    """path text of literal tokens: 'M p L p z'"""
    ps = []
    n = 0
    for w in spec.split():
        if ps:
            ps.append(" ")
        if w == "p":
            ps += [NumPiece("lit", sym("t%d" % n)), " ", NumPiece("lit", sym("t%d" % (n + 1)))]
            n += 2
        else:
            ps.append(w)
    return M.mktext(ps)


class Edit:
    def __init__(self, label, fn, base=LONG, value=False, window=None, changes=True):
        self.label, self.fn, self.base, self.value, self.window, self.changes = label, fn, base, value, window, changes

    def run(self, I, s, path):
        """outcomes of (state, object that holds the edited segments)"""
        target = path
        if self.window is not None:
            s, target = subpath_of(I, s, path, self.window)
        out = []
        for s2, v in self.fn(I, s, target):
            if isinstance(v, Raise):
                out.append((s2, v))
            else:
                out.append((s2, v if self.value else path))
        return out


def edits(thorough=False):
    out = []

    def add(label, fn, **kw):
        out.append(Edit(label, fn, **kw))
    n = len(LONG)
    pos = list(range(-n - 1, n + 2)) if thorough else [-n, -5, -4, -3, -1, 0, 1, 3, 4, 5, 6, n - 1]
    kinds = SEGMENTS if thorough else ("Move", "Line", "CubicBezier", "Close")
    for kind in SEGMENTS:
        for placed in (True, False):
            def f(I, s, p, kind=kind, placed=placed):
                s, g = loose(I, s, kind, "n", placed)
                return method(I, s, p, "append", g)
            add("append(%s%s)" % (kind, "" if placed else " without start"), f)
    for t in ("L p", "Q p p", "M p", "z", "M p L p Q p p z", "T p", "h 5", "l p"):
        if t[0] != "h":
            add("append(%r)" % t, lambda I, s, p, t=t: method(I, s, p, "append", text_of(t)))
        if t[0] not in "hz":
            add("extend(%r)" % t, lambda I, s, p, t=t: method(I, s, p, "extend", text_of(t)))
        add("+= %r" % t, lambda I, s, p, t=t: do(I, s, "iadd", p, text_of(t)))
        if t[0] not in "hl":
            add("path + %r" % t, lambda I, s, p, t=t: do(I, s, "add", p, text_of(t)), value=True)
    add("'M L' + path", lambda I, s, p: do(I, s, "add", text_of("M p L p"), p), value=True)
    for kind in kinds:
        def f(I, s, p, kind=kind):
            s, g = loose(I, s, kind, "n")
            return do(I, s, "iadd", p, g)
        add("+= %s" % kind, f)

        def f(I, s, p, kind=kind):
            s, g = loose(I, s, kind, "n")
            return do(I, s, "add", p, g)
        add("path + %s" % kind, f, value=True)

        def f(I, s, p, kind=kind):
            s, g = loose(I, s, kind, "n")
            return do(I, s, "add", g, p)
        add("%s + path" % kind, f, value=True)
        for k in pos:
            for placed in (True, False) if thorough else (True,):
                def f(I, s, p, kind=kind, k=k, placed=placed):
                    s, g = loose(I, s, kind, "n", placed)
                    return method(I, s, p, "insert", num(k), g)
                add("insert(%d, %s%s)" % (k, kind, "" if placed else " without start"), f)
                if -n <= k < n:
                    def f(I, s, p, kind=kind, k=k, placed=placed):
                        s, g = loose(I, s, kind, "n", placed)
                        return call(I, s, "setitem", p, num(k), g)
                    add("[%d] = %s%s" % (k, kind, "" if placed else " without start"), f)
    for k in pos:
        if -n <= k < n:
            add("del [%d]" % k, lambda I, s, p, k=k: call(I, s, "delitem", p, num(k)))
            add("[%d] = 'M p'" % k, lambda I, s, p, k=k: call(I, s, "setitem", p, num(k), text_of("M p")))
        add("insert(%d, 'M p')" % k, lambda I, s, p, k=k: method(I, s, p, "insert", num(k), text_of("M p")))
    slices = [(1, 3, None), (2, 5, None), (5, 7, None), (0, 5, None), (None, None, 2), (-3, -1, None), (4, 4, None), (1, None, None), (None, None, -3)]
    if thorough:
        slices += [(a, b, None) for a in range(0, n + 1) for b in range(a, n + 1, 2)]
    for a, b, c in slices:
        nm = "[%s:%s%s]" % ("" if a is None else a, "" if b is None else b, "" if c is None else ":%d" % c)
        add("del %s" % nm, lambda I, s, p, a=a, b=b, c=c: call(I, s, "delslice", p, none_or(a), none_or(b), none_or(c)))
        if c is None:
            for ks in ((), ("Line",), ("CubicBezier", "Line", "Close"), ("Move", "Arc")):
                def f(I, s, p, a=a, b=b, c=c, ks=ks):
                    s, l = seglist(I, s, ks, "n")
                    return call(I, s, "setslice", p, none_or(a), none_or(b), none_or(c), l)
                add("%s = [%s]" % (nm, ", ".join(ks)), f)
            add("%s = 'M L'" % nm, lambda I, s, p, a=a, b=b, c=c: call(I, s, "setslice", p, none_or(a), none_or(b), none_or(c), text_of("M p L p")))

            def f(I, s, p, a=a, b=b, c=c):
                s, o = other_path(I, s)
                return call(I, s, "setslice", p, none_or(a), none_or(b), none_or(c), o)
            add("%s = Path" % nm, f)
        else:
            size = len(range(*slice(a, b, c).indices(n)))

            def f(I, s, p, a=a, b=b, c=c, size=size):
                s, l = seglist(I, s, ("Line",) * size, "n")
                return call(I, s, "setslice", p, none_or(a), none_or(b), none_or(c), l)
            add("%s = [Line] * %d" % (nm, size), f)
    for ks in (("Line",), ("Line", "Close", "Move", "CubicBezier"), ("Close",), ("Move", "Line", "Close")):
        def f(I, s, p, ks=ks):
            s, l = seglist(I, s, ks, "n")
            return method(I, s, p, "extend", l)
        add("extend([%s])" % ", ".join(ks), f)

    def f(I, s, p):
        s, o = other_path(I, s)
        return method(I, s, p, "extend", o)
    add("extend(Path)", f)
    for how, value in (("iadd", False), ("add", True)):
        def f(I, s, p, how=how):
            s, o = other_path(I, s)
            return do(I, s, how, p, o)
        add("path %s Path" % ("+=" if how == "iadd" else "+"), f, value=value)

        def f(I, s, p, how=how):
            s, o = path_of(I, s, chain(LONG, "o"), "o")
            s, w = subpath_of(I, s, o, 1)
            return do(I, s, how, p, w)
        add("path %s Subpath" % ("+=" if how == "iadd" else "+"), f, value=value)
        add("path %s itself" % ("+=" if how == "iadd" else "+"), lambda I, s, p, how=how: do(I, s, how, p, p), value=value, base=("Move", "Line", "CubicBezier", "Close"))
    for how, value in (("imul", False), ("mul", True), ("imatmul", False), ("matmul", True)):
        def f(I, s, p, how=how):
            s, m, A = matrix(I, s)
            return do(I, s, how, p, m)
        add("path %s Matrix" % how, f, value=value)
        add("path %s 'rotate'" % how, lambda I, s, p, how=how: do(I, s, how, p, Const("rotate(30)")), value=value)
    for base in (LONG, ("Move", "Line", "QuadraticBezier"), ("Move", "Line", "Close", "Move", "CubicBezier", "Line"), ("Move", "Line", "Move", "Line"), ("Move", "Arc", "Close"), ("Move",), ("Move", "Close"),
                 ("Move", "Line", "Close", "Line", "Close"), ("Move", "Move", "Line", "Close")):
        b = "".join(k[0] if k != "CubicBezier" else "B" for k in base)
        add("reverse() of %s" % b, lambda I, s, p: method(I, s, p, "reverse"), base=base)
        add("direct_close() of %s" % b, lambda I, s, p: method(I, s, p, "direct_close"), base=base)
    for m in ("move", "line", "horizontal", "vertical", "quad", "smooth_quad", "cubic", "smooth_cubic", "closed"):
        shape = {"move": "p", "line": "pp", "horizontal": "n", "vertical": "nn", "quad": "pp", "smooth_quad": "p", "cubic": "ppp", "smooth_cubic": "pppp", "closed": ""}[m]

        def f(I, s, p, m=m, shape=shape):
            args = []
            for j, ch in enumerate(shape):
                if ch == "p":
                    s, v = pt(I, s, P("n%d" % j))
                else:
                    v = sym("n%d" % j)
                args.append(v)
            return method(I, s, p, m, *args)
        add("%s()" % m, f)
    add("parse('L M L z')", lambda I, s, p: method(I, s, p, "parse", text_of("L p M p L p z")))
    # windows
    for w, size in ((0, 5), (1, 4)):
        for k in (range(-size, size) if thorough else (-size, -1, 0, 1, size - 1)):
            add("window %d: del [%d]" % (w, k), lambda I, s, p, k=k: call(I, s, "delitem", p, num(k)), window=w)
            for kind in kinds:
                def f(I, s, p, kind=kind, k=k):
                    s, g = loose(I, s, kind, "n")
                    return call(I, s, "setitem", p, num(k), g)
                add("window %d: [%d] = %s" % (w, k, kind), f, window=w)
        for a, b, c in ((1, 3, None), (0, 2, None), (-2, None, None), (None, None, 2)):
            nm = "[%s:%s%s]" % ("" if a is None else a, "" if b is None else b, "" if c is None else ":%d" % c)
            add("window %d: del %s" % (w, nm), lambda I, s, p, a=a, b=b, c=c: call(I, s, "delslice", p, none_or(a), none_or(b), none_or(c)), window=w)
            if c is None:
                def f(I, s, p, a=a, b=b, c=c):
                    s, l = seglist(I, s, ("Line", "CubicBezier", "Line"), "n")
                    return call(I, s, "setslice", p, none_or(a), none_or(b), none_or(c), l)
                add("window %d: %s = [Line, CubicBezier, Line]" % (w, nm), f, window=w)
        for kind in kinds:
            def f(I, s, p, kind=kind):
                s, g = loose(I, s, kind, "n")
                return do(I, s, "iadd", p, g)
            add("window %d: += %s" % (w, kind), f, window=w)
        add("window %d: += 'L Q'" % w, lambda I, s, p: do(I, s, "iadd", p, text_of("M p L p Q p p")), window=w)

        def f(I, s, p):
            s, o = other_path(I, s)
            return do(I, s, "iadd", p, o)
        add("window %d: += Path" % w, f, window=w)
        add("window %d: reverse()" % w, lambda I, s, p: method(I, s, p, "reverse"), window=w)
    return out


def all_windows(I):
    """editing operations of windows that leave the connections of a path to the caller"""
    out = []
    for w in (0, 1):
        for how in ("imul",):
            def f(I, s, p, how=how):
                s, m, A = matrix(I, s)
                return do(I, s, how, p, m)
            out.append(Edit("window %d: %s Matrix" % (w, how), f, window=w))
            out.append(Edit("window %d: %s 'rotate'" % (w, how), lambda I, s, p, how=how: do(I, s, how, p, Const("rotate(30)")), window=w))
    return out
