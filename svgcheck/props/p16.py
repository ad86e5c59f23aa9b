"""P16: transform text -> matrix.  Constant propagation of the function name through the
parser, value numbering of the arguments (each number is a literal token that stands for
any number), comparison of the closed form of every field with the specified matrix."""
from ..frame import *
from ..spec import *
from .. import models as M


def matrix_fields(I, s, m):
    out = []
    for n in "abcdef":
        (s2, v), = I.get_attr(s, m, n)
        out.append(rat_of(I, s2, v))
    return out


def compare(I, s, m, want):
    for n, g, w in zip("abcdef", matrix_fields(I, s, m), want):
        if g is None:
            return None, "field %s is not a closed form" % n
        r = same(s, g, w)
        if r is not True:
            return r, "%s = %r where the specification gives %r" % (n, g, w)
    return True, ""


def T(I, *ps):
    out = []
    for p in ps:
        out.append(p if isinstance(p, str) else NumPiece("lit", p))
    return M.mktext(out)


def run_matrix(I, text, want):
    st = I.start()
    rs = I.run(st, I.get(st, "basic", "Matrix"), text)
    if not rs:
        return None, "no outcome"
    res = True, ""
    for s, v in rs:
        if isinstance(v, Raise):
            if not feasible(s):
                continue
            return False, "raises %s" % v.name, v.where
        r = compare(I, s, v, want)
        if r[0] is False:
            return r
        if r[0] is None:
            res = r
    return res


def forms():
    """(label, function name, argument count and units) -> specified matrix"""
    a, b, c, d, e, f = (sym(n) for n in "abcdef")
    out = []

    def add(label, name, args, want):
        out.append((label, name, args, want))

    add("matrix", "matrix", [a, b, c, d, e, f], Aff(a.r, b.r, c.r, d.r, e.r, f.r))
    add("translate/1", "translate", [a], translate(a.r))
    add("translate/2", "translate", [a, b], translate(a.r, b.r))
    add("translateX", "translateX", [a], translate(a.r))
    add("translateY", "translateY", [a], translate(0, a.r))
    add("scale/1", "scale", [a], scale(a.r))
    add("scale/2", "scale", [a, b], scale(a.r, b.r))
    add("scaleX", "scaleX", [a], scale(a.r, 1))
    add("scaleY", "scaleY", [a], scale(1, a.r))
    for u in ("", "deg", "rad", "grad", "turn"):
        k = ANGLE[u]
        add("rotate/1" + u, "rotate", [(a, u)], rotate(a.r * k))
        add("rotate/3" + u, "rotate", [(a, u), b, c], about(rotate(a.r * k), b.r, c.r))
        add("skewX" + u, "skewX", [(a, u)], skew(a.r * k))
        add("skewY" + u, "skewY", [(a, u)], skew(0, a.r * k))
        add("skew/1" + u, "skew", [(a, u)], skew(a.r * k))
        add("skew/2" + u, "skew", [(a, u), (b, u)], skew(a.r * k, b.r * k))
        add("skewX/3" + u, "skewX", [(a, u), b, c], about(skew(a.r * k), b.r, c.r))
        add("skewY/3" + u, "skewY", [(a, u), b, c], about(skew(0, a.r * k), b.r, c.r))
        add("skew/4" + u, "skew", [(a, u), (b, u), c, d], about(skew(a.r * k, b.r * k), c.r, d.r))
    add("rotate/2", "rotate", [a, b], about(rotate(a.r * ANGLE[""]), b.r, 0))
    add("skewX/2", "skewX", [a, b], about(skew(a.r * ANGLE[""]), b.r, 0))
    add("skewY/2", "skewY", [a, b], about(skew(0, a.r * ANGLE[""]), b.r, 0))
    add("skew/3", "skew", [a, b, c], about(skew(a.r * ANGLE[""], b.r * ANGLE[""]), c.r, 0))
    for u in ("px",):
        add("translate/2" + u, "translate", [(a, u), (b, u)], translate(a.r, b.r))
        add("translateX" + u, "translateX", [(a, u)], translate(a.r))
        add("translateY" + u, "translateY", [(a, u)], translate(0, a.r))
    return out


def text_of(I, name, args, sep=", ", rename=None, pre="", post=""):
    ps = [pre + name + "("]
    for i, x in enumerate(args):
        if i:
            ps.append(sep)
        if isinstance(x, tuple):
            n, u = x
        else:
            n, u = x, ""
        if rename:
            n = Num(R(rename + n.r.num.lead()[0][0].name), "f")
        ps.append(n)
        ps.append(u)
    ps.append(")" + post)
    return ps


def check(rep):
    rep.rule("function", "one transform function, for every numeric argument, contributes the matrix of the specification", 20)
    rep.rule("spelling", "letter case, separators and number spelling do not matter", 10)
    rep.rule("composition", "a list of functions composes left to right, the rightmost applied first", 30)
    I = rep.interp()
    fs = forms()
    for label, name, args, want in fs:
        rep.each("function", label, lambda: run_matrix(I, T(I, *text_of(I, name, args)), want))
    for label, name, args, want in fs:
        for cn, cf in (("lower", str.lower), ("upper", str.upper)):
            rep.each("spelling", "%s %s" % (label, cn), lambda: run_matrix(I, T(I, *text_of(I, cf(name), args)), want))
        for sn, sep in (("space", " "), ("comma", ",")):
            rep.each("spelling", "%s %s" % (label, sn), lambda: run_matrix(I, T(I, *text_of(I, name, args, sep)), want))
        rep.each("spelling", "%s blanks" % label, lambda: run_matrix(I, T(I, *text_of(I, name, args, "  ,  ", None, "  ", " ")), want))
        for style in ("integer", "exponent"):
            def styled():
                I.lits, I.lit_style = {}, style
                try:
                    return run_matrix(I, T(I, *text_of(I, name, args)), want)
                finally:
                    I.lits, I.lit_style = {}, "decimal"
            rep.each("spelling", "%s %s" % (label, style), styled)
        neg = []
        def negated():
            from ..sym import subst
            ps = text_of(I, name, args)
            out = []
            for p in ps:
                if not isinstance(p, str):
                    out.append("-")
                out.append(p)
            mp = {}
            for x in args:
                n = x[0] if isinstance(x, tuple) else x
                at = n.r.num.lead()[0][0]
                mp[at] = -n.r
            w = Aff(*[subst(v, mp) for v in want.v])
            return run_matrix(I, T(I, *out), w)
        rep.each("spelling", "%s negative" % label, negated)
    base = [x for x in fs if not any(x[0].endswith(u) for u in ("rad", "turn", "px")) or x[0].startswith("translate/2")]
    base = [x for x in base if not x[0].endswith(("deg", "px"))]
    from ..sym import subst, atom
    n = 0
    for l1, n1, a1, w1 in base:
        for l2, n2, a2, w2 in base:
            if not rep.thorough and (l1 not in ("translate/2", "rotate/1", "scale/2", "matrix") and l2 not in ("translate/2", "rotate/1", "scale/2", "matrix")):
                continue
            ren = {}
            for x in a2:
                nn = x[0] if isinstance(x, tuple) else x
                at = nn.r.num.lead()[0][0]
                ren[at] = R("q" + at.name)
            w2q = Aff(*[subst(v, ren) for v in w2.v])
            want = w2q.then(w1)
            for sep in ((" ",) if not rep.thorough else (" ", ",", "")):
                ps = text_of(I, n1, a1) + [sep] + text_of(I, n2, a2, rename="q")
                rep.each("composition", "%s %s%s" % (l1, l2, " sep=%r" % sep if sep != " " else ""), lambda: run_matrix(I, T(I, *ps), want))
