"""P17: algebra of affine maps.  Value numbering of the fields of Matrix through every
public operation; comparison with the specified closed forms."""
from ..helpers import *
from .. import models as M


def check(rep):
    rep.rule("product", "A then B for every spelling of the product", 6)
    rep.rule("apply", "a point is mapped by all six coefficients", 4)
    rep.rule("vector", "vectors ignore the translation", 2)
    rep.rule("inverse", "the inverse undoes the matrix when the determinant is non-zero", 3)
    rep.rule("prepost", "pre_/post_ operations compose the named map, about the given centre", 20)
    rep.rule("factory", "each factory builds the named map", 8)
    I = rep.interp()

    # products
    for name in ("MatMult", "Mult"):
        for inplace in (False, True):
            def f():
                s, m, A = matrix(I, I.start(), "p")
                s, n, B = matrix(I, s, "q")
                rs = (iop if inplace else op)(I, s, name, m, n)
                return all_outcomes(rs, lambda s, v: cmp_matrix(I, s, v, A.then(B)))
            rep.each("product", "Matrix %s%s Matrix" % (name, " in place" if inplace else ""), f)

            def g():
                s, m, A = matrix(I, I.start(), "p")
                t = [sym("q" + c) for c in "abcdef"]
                ps = ["matrix("]
                for i, x in enumerate(t):
                    ps += ["," if i else "", NumPiece("lit", x)]
                txt = M.mktext(ps + [")"])
                B = Aff(*[x.r for x in t])
                rs = (iop if inplace else op)(I, s, name, m, txt)
                return all_outcomes(rs, lambda s, v: cmp_matrix(I, s, v, A.then(B)))
            rep.each("product", "Matrix %s%s text" % (name, " in place" if inplace else ""), g)

        def h():
            s, m, A = matrix(I, I.start(), "p")
            t = [sym("q" + c) for c in "abcdef"]
            ps = ["matrix("]
            for i, x in enumerate(t):
                ps += ["," if i else "", NumPiece("lit", x)]
            txt = M.mktext(ps + [")"])
            B = Aff(*[x.r for x in t])
            return all_outcomes(op(I, s, name, txt, m), lambda s, v: cmp_matrix(I, s, v, B.then(A)))
        rep.each("product", "text %s Matrix" % name, h)

    def chain():
        s, m, A = matrix(I, I.start(), "p")
        s, n, B = matrix(I, s, "q")
        s, k, C = matrix(I, s, "r")
        s, mn = only(op(I, s, "MatMult", m, n))
        s, mnk = only(op(I, s, "MatMult", mn, k))
        s, nk = only(op(I, s, "MatMult", n, k))
        s, m_nk = only(op(I, s, "MatMult", m, nk))
        a = cmp_matrix(I, s, mnk, matrix_fields(I, s, m_nk))
        return a if a[0] is not True else cmp_matrix(I, s, mnk, A.then(B).then(C))
    rep.each("product", "associativity of three", chain)

    x, y = R("x"), R("y")

    # application
    def app(fn):
        def run():
            s, m, A = matrix(I, I.start())
            s, p = point(I, s, "x", "y")
            return all_outcomes(fn(s, m, p), lambda s, v: cmp_point(I, s, v, A.apply(x, y)))
        return run
    rep.each("apply", "Point * Matrix", app(lambda s, m, p: op(I, s, "Mult", p, m)))
    rep.each("apply", "Point *= Matrix", app(lambda s, m, p: iop(I, s, "Mult", p, m)))
    rep.each("apply", "Matrix.point_in_matrix_space", app(lambda s, m, p: method(I, s, m, "point_in_matrix_space", p)))
    rep.each("apply", "Matrix.transform_point", app(lambda s, m, p: method(I, s, m, "transform_point", p)))
    rep.each("apply", "Point.matrix_transform", app(lambda s, m, p: method(I, s, p, "matrix_transform", m)))
    rep.each("apply", "point_in_matrix_space(tuple)", app(lambda s, m, p: method(I, s, m, "point_in_matrix_space", Tup((sym("x"), sym("y"))))))

    def twice():
        s, m, A = matrix(I, I.start(), "p")
        s, n, B = matrix(I, s, "q")
        s, p = point(I, s, "x", "y")
        s, mn = only(op(I, s, "MatMult", m, n))
        s, p1 = only(op(I, s, "Mult", p, mn))
        s, p2 = only(op(I, s, "Mult", p, m))
        s, p3 = only(op(I, s, "Mult", p2, n))
        return cmp_point(I, s, p1, xy(I, s, p3))
    rep.each("apply", "p*(A@B) is (p*A)*B", twice)

    def vec(fn):
        def run():
            s, m, A = matrix(I, I.start())
            return all_outcomes(fn(s, m), lambda s, v: cmp_matrix(I, s, v, Aff(*(list(A)[:4] + [0, 0]))))
        return run
    rep.each("vector", "Matrix.vector", vec(lambda s, m: method(I, s, m, "vector")))

    def tv():
        s, m, A = matrix(I, I.start())
        s, p = point(I, s, "x", "y")
        return all_outcomes(method(I, s, m, "transform_vector", p), lambda s, v: cmp_point(I, s, v, A.vec(x, y)))
    rep.each("vector", "Matrix.transform_vector", tv)

    # inverse
    def inv(fn):
        def run():
            s, m, A = matrix(I, I.start())
            a, b, c, d, e, f = A
            s.assume(("eq", a * d - b * c), False)
            return all_outcomes(fn(s, m), lambda s, v: cmp_matrix(I, s, v, A.inv()))
        return run
    rep.each("inverse", "~Matrix", inv(lambda s, m: I.unary(s, "Invert", m)))
    rep.each("inverse", "Matrix.inverse", inv(lambda s, m: method(I, s, m, "inverse")))

    def invp():
        s, m, A = matrix(I, I.start())
        a, b, c, d, e, f = A
        s.assume(("eq", a * d - b * c), False)
        s, p = point(I, s, "x", "y")
        return all_outcomes(method(I, s, m, "point_in_inverse_space", p), lambda s, v: cmp_point(I, s, v, A.inv().apply(x, y)))
    rep.each("inverse", "Matrix.point_in_inverse_space", invp)

    def invinv():
        s, m, A = matrix(I, I.start())
        a, b, c, d, e, f = A
        s.assume(("eq", a * d - b * c), False)
        out = []
        for s2, n in normal(I.unary(s, "Invert", m)):
            out += op(I, s2, "MatMult", m, n)
        return all_outcomes(out, lambda s, v: cmp_matrix(I, s, v, Aff()))
    rep.each("inverse", "M @ ~M is the identity", invinv)

    def det():
        s, m, A = matrix(I, I.start())
        a, b, c, d, e, f = A
        rs = I.get_attr(s, m, "determinant")
        return all_outcomes(rs, lambda s, v: cmp_rats(s, ["determinant"], [rat_of(I, s, v)], [a * d - b * c]))
    rep.each("inverse", "Matrix.determinant", det)

    # pre / post
    p, q, u, v = (sym(n) for n in ("p", "q", "u", "v"))
    ops = {
        "scale": (2, lambda p, q: scale(p, q)),
        "scale_x": (1, lambda p: scale(p, 1)),
        "scale_y": (1, lambda p: scale(1, p)),
        "rotate": (1, lambda p: rotate(p)),
        "skew": (2, lambda p, q: skew(p, q)),
        "skew_x": (1, lambda p: skew(p, 0)),
        "skew_y": (1, lambda p: skew(0, p)),
        "translate": (2, lambda p, q: translate(p, q)),
        "translate_x": (1, lambda p: translate(p, 0)),
        "translate_y": (1, lambda p: translate(0, p)),
    }
    for name, (n, fn) in ops.items():
        args = [p, q][:n]
        base = fn(*[t.r for t in args])
        for where in ("pre", "post"):
            variants = [("plain", args, {}, base)]
            if name == "scale":
                variants.append(("uniform", [p], {}, scale(p.r)))
                variants.append(("uniform about", [p], {"x": u, "y": v}, about(scale(p.r), u.r, v.r)))
            if name in ("skew", "translate"):
                variants.append(("first only", [p], {}, fn(p.r, ZERO)))
            if not name.startswith("translate"):
                variants.append(("about", args, {"x": u, "y": v}, about(base, u.r, v.r)))
                variants.append(("about positional", args + [u, v], {}, about(base, u.r, v.r)))
                variants.append(("about x only", args, {"x": u}, about(base, u.r, 0)))
                variants.append(("about y only", args, {"y": v}, about(base, 0, v.r)))
                variants.append(("centre None", args, {"x": NONE, "y": NONE}, base))
            for label, a, kw, F in variants:
                def run():
                    s, m, A = matrix(I, I.start())
                    want = A.then(F) if where == "post" else F.then(A)
                    rs = method(I, s, m, where + "_" + name, *a, **kw)
                    return all_outcomes(rs, lambda s, r: cmp_matrix(I, s, m, want))
                rep.each("prepost", "%s_%s %s" % (where, name, label), run)

                def fixed():
                    # the centre is a fixed point of the operation itself
                    s, m = new(I, I.start(), "basic", "Matrix")
                    rs = method(I, s, m, where + "_" + name, *a, **kw)
                    def j(s, r):
                        g = Aff(*matrix_fields(I, s, m))
                        return cmp_rats(s, "xy", g.apply(u.r, v.r), (u.r, v.r))
                    return all_outcomes(rs, j)
                if label == "about":
                    rep.each("prepost", "%s_%s keeps the centre" % (where, name), fixed)
    for where in ("pre", "post"):
        for form in ("six numbers", "matrix"):
            def run():
                s, m, A = matrix(I, I.start(), "p")
                t = [sym("q" + c) for c in "abcdef"]
                B = Aff(*[z.r for z in t])
                if form == "matrix":
                    s, o, B = matrix(I, s, "q")
                    t = [o]
                want = A.then(B) if where == "post" else B.then(A)
                return all_outcomes(method(I, s, m, where + "_cat", *t), lambda s, r: cmp_matrix(I, s, m, want))
            rep.each("prepost", "%s_cat %s" % (where, form), run)

    # factories
    for name, (n, fn) in ops.items():
        def run(a, want):
            s = I.start()
            c = I.get(s, "basic", "Matrix")
            return all_outcomes(method(I, s, c, name, *a), lambda s, r: cmp_matrix(I, s, r, want))
        args = [p, q][:n]
        rep.each("factory", name, run, args, fn(*[t.r for t in args]))
        if name == "scale":
            rep.each("factory", name + " uniform", run, [p], scale(p.r))
        if name in ("skew", "translate"):
            rep.each("factory", name + " first only", run, [p], fn(p.r, ZERO))
        rep.each("factory", name + " default", run, [], Aff())

    def ident():
        s = I.start()
        c = I.get(s, "basic", "Matrix")
        return all_outcomes(method(I, s, c, "identity"), lambda s, r: cmp_matrix(I, s, r, Aff()))
    rep.each("factory", "identity", ident)

    def reset():
        s, m, A = matrix(I, I.start())
        return all_outcomes(method(I, s, m, "reset"), lambda s, r: cmp_matrix(I, s, m, Aff()))
    rep.each("factory", "reset", reset)

    def isid():
        s, m, A = matrix(I, I.start())
        res = True, ""
        for s, b in method(I, s, m, "is_identity"):
            for s2, t in I.truth(s, b):
                if t is True:
                    r = cmp_matrix(I, s2, m, Aff())
                    if r[0] is not True:
                        return r
                elif t is False:
                    if cmp_matrix(I, s2, m, Aff())[0] is True:
                        return False, "the identity is not recognised"
        return res
    rep.each("factory", "is_identity", isid)
