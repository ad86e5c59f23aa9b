"""P06: one table of units.  The analysis partitions the operations of Length by the pair of
units (constant propagation) and by the sign facts of the amounts, value-numbers the amount
of every result and compares its linear form with the CSS ratios (relative tolerance 1e-4)."""
from ..helpers import *
from .. import models as M
from ..sym import subst, atom

TOL = Fraction(2, 10000)
PX = {"px": Fraction(1), "": Fraction(1), "pt": Fraction(4, 3), "pc": Fraction(16)}
IN = {"in": Fraction(1), "cm": Fraction(100, 254), "mm": Fraction(10, 254)}
OTHER = ["%", "em", "ex", "vw", "vh", "vmin", "vmax", "rem", "ch"]
UNITS = list(PX) + list(IN) + OTHER


def ratio(u, v):
    """size of one u in v, or None when the units cannot be related"""
    for g in (PX, IN):
        if u in g and v in g:
            return g[u] / g[v]
    return Fraction(1) if u == v else None


def length(I, s, amount, unit):
    return new(I, s, "basic", "Length", Num(R(amount), "f"), Const(unit))


def parts(I, s, v):
    s, a = attr(I, s, v, "amount")
    s, u = attr(I, s, v, "units")
    return rat_of(I, s, a), u.v if isinstance(u, Const) else None


def both_nonzero(s):
    """a witness of the partition with two non-zero amounts"""
    rng = random.Random(11)
    for _ in range(8):
        env = sample_env(s, [R("a"), R("b")], rng)
        if env is None:
            return False
        if abs(env["a"]) > 1e-9 and abs(env["b"]) > 1e-9:
            return True
    return False


def close(c, w):
    return abs(c - w) <= TOL * max(abs(c), abs(w))


def linear(r, names):
    """coefficients of a linear form over named atoms, or None"""
    if r.den.cval() is None:
        return None
    d = r.den.cval()
    at = {atom(n): n for n in names}
    out = {n: Fraction(0) for n in names}
    out[None] = Fraction(0)
    for m, c in r.num.t.items():
        if m == ():
            out[None] += c / d
        elif len(m) == 1 and m[0][1] == 1 and m[0][0] in at:
            out[at[m[0][0]]] += c / d
        else:
            return None
    return out


def sum_ok(s, got, unit, u, v, sign):
    """does got (in unit) equal a u + sign*b v ?"""
    k1, k2 = ratio(u, unit), ratio(v, unit)
    if k1 is None or k2 is None:
        # one of the operands must be zero here
        az = s.decide(("eq", R("a"))) is True
        bz = s.decide(("eq", R("b"))) is True
        if k1 is None and az:
            k1 = Fraction(0)
        if k2 is None and bz:
            k2 = Fraction(0)
        if k1 is None or k2 is None:
            return None if (az or bz) else False
    g = linear(s.norm(got), "ab")
    w = linear(s.norm(R(k1) * R("a") + R(sign * k2) * R("b")), "ab")
    if g is None or w is None:
        r = same(s, got, R(k1) * R("a") + R(sign * k2) * R("b"), tol=3e-4)
        return r
    return all(close(g[n], w[n]) for n in g)


def operand(I, s, form, name, unit):
    if form == "Length":
        return length(I, s, name, unit)
    if form == "text":
        return s, M.mktext([NumPiece("lit", sym(name)), unit])
    return s, sym(name)


def arith(I, opname, inplace, u, v, lf, rf):
    s = I.start()
    s, l = operand(I, s, lf, "a", u)
    s, r = operand(I, s, rf, "b", v)
    sign = 1 if opname == "Add" else -1
    rs = (iop if inplace else op)(I, s, opname, l, r)
    related = ratio(u, v) is not None

    def j(s, x):
        if not isinstance(x, Ref):
            if related or not isinstance(x, (Num, Const)):
                return (False, "evaluates to %r" % (x,)) if isinstance(x, (Num, Const)) else (None, "result %r" % (x,))
            return False, "combined %s with %s into the bare number %r" % (u, v, x)
        amt, unit = parts(I, s, x)
        if amt is None or unit is None:
            return None, "amount not in closed form"
        if not related:
            if both_nonzero(s):
                return False, "%s and %s cannot be related but give %r %s%s" % (u, v, amt, unit, facts_note(s))
        k = sum_ok(s, amt, unit, u, v, sign)
        return k, "gives %r %s%s" % (amt, unit, facts_note(s))

    res = True, ""
    for s2, x in rs:
        if isinstance(x, Raise):
            if x.name == "ValueError" and not related:
                continue
            if not feasible(s2):
                continue
            return False, "raises %s %s" % (x.name, facts_note(s2)), x.where
        k = j(s2, x)
        if k[0] is False and feasible(s2):
            return k
        if k[0] is None:
            res = k
    return res


def division(I, u, v, rf):
    s = I.start()
    s, l = length(I, s, "a", u)
    s, r = operand(I, s, rf, "b", v)
    s.assume(("eq", R("b")), False)
    k = ratio(u, v)
    res = True, ""
    for s2, x in op(I, s, "Div", l, r):
        if isinstance(x, Raise):
            if x.name == "ValueError" and k is None:
                continue
            if feasible(s2):
                return False, "raises %s%s" % (x.name, facts_note(s2)), x.where
            continue
        if isinstance(x, Ref):
            return False, "a quotient of two lengths keeps units: %r" % (parts(I, s2, x),)
        g = rat_of(I, s2, x)
        if g is None:
            res = None, "not closed: %r" % (x,)
            continue
        if s2.decide(("eq", R("a"))) is True:
            if same(s2, g, ZERO) is False:
                return False, "zero divided gives %r" % g
            continue
        if k is None:
            if both_nonzero(s2):
                return False, "%s / %s cannot be related but give %r" % (u, v, g)
            continue
        r = same(s2, g, R(k) * R("a") / R("b"), tol=float(TOL))
        if r is False:
            return False, "%s / %s gives %r, expected about %s a/b" % (u, v, g, float(k))
        if r is None:
            res = None, "undecided"
    return res


def ordering(I, opname, u, v, rf):
    s = I.start()
    s, l = length(I, s, "a", u)
    s, r = operand(I, s, rf, "b", v)
    k = ratio(u, v)
    res = True, ""
    test = {"Lt": lambda d: d < 0, "LtE": lambda d: d <= 0, "Gt": lambda d: d > 0, "GtE": lambda d: d >= 0}[opname]
    I.handlers, I.depth, I.callstack, I.steps = [], 0, [], 0
    rs = I.compare(s, opname, l, r)
    for s2, x in rs:
        if isinstance(x, Raise):
            if x.name == "ValueError" and k is None:
                continue
            if feasible(s2):
                return False, "raises %s%s" % (x.name, facts_note(s2)), x.where
            continue
        for s3, t in I.truth(s2, x):
            if isinstance(t, Raise):
                return None, "truth raises"
            if k is None and both_nonzero(s3):
                return False, "%s and %s cannot be related but compare as %s%s" % (u, v, t, facts_note(s3))
            rng = random.Random(5)
            n = 0
            for _ in range(10):
                env = sample_env(s3, [R("a"), R("b")], rng)
                if env is None:
                    break
                d = env["a"] * float(k if k is not None else 1) - env["b"]
                if k is None:
                    d = env["a"] - env["b"]  # one of them is zero
                if abs(d) < 1e-3 * max(abs(env["a"]), abs(env["b"])) and d != 0:
                    continue
                n += 1
                if test(d) != t:
                    return False, "%.4g%s %s %.4g%s evaluates to %s" % (env["a"], u, opname, env["b"], v, t)
    if u == v or {u, v} == {"px", ""}:
        s = I.start()
        s, l = length(I, s, "a", u)
        s, r = operand(I, s, rf, "a", v)
        I.steps = 0
        for s2, x in I.compare(s, opname, l, r):
            if isinstance(x, Raise):
                continue
            for s3, t in I.truth(s2, x):
                if t is not test(0):
                    return False, "equal lengths: %s evaluates to %s" % (opname, t)
    return res


def tight(s):
    """linear constraints a partition imposes up to rounding: list of Rat that are ~0"""
    out = []
    for a, e in s.sub.items():
        out.append(Rat(Poly.of(a)) - e)
    for p, iv in s.facts.items():
        if iv.hi is None or iv.lo is None:
            # |q| <= eps has lo implied
            if iv.hi is not None and iv.hi <= Fraction(1, 10**6) and len(p.t) == 1:
                (m, c), = p.t.items()
                if len(m) == 1 and m[0][0].name == "abs":
                    out.append(m[0][0].args[0])
            continue
        if iv.hi - iv.lo <= Fraction(1, 10**6):
            if len(p.t) == 1:
                (m, c), = p.t.items()
                if len(m) == 1 and m[0][0].name == "abs":
                    out.append(m[0][0].args[0])
                    continue
            out.append(Rat(p) - R((iv.hi + iv.lo) / 2))
    return out


def equality(I, opname, u, v, rf):
    s = I.start()
    s, l = length(I, s, "a", u)
    s, r = operand(I, s, rf, "b", v)
    k = ratio(u, v)
    want_true = opname == "Eq"
    I.handlers, I.depth, I.callstack, I.steps = [], 0, [], 0
    res = True, ""
    for s2, x in I.compare(s, opname, l, r):
        if isinstance(x, Raise):
            if feasible(s2):
                return False, "raises %s" % x.name, x.where
            continue
        for s3, t in I.truth(s2, x):
            if isinstance(t, Raise):
                return None, "truth raises"
            if t is not want_true:
                continue
            # this partition says: equal
            cons = tight(s3)
            az = any(linear(c, "ab") and linear(c, "ab")["b"] == 0 and linear(c, "ab")["a"] != 0 for c in cons)
            ok = False
            for c in cons:
                g = linear(c, "ab")
                if g is None:
                    continue
                if k is not None and g["b"] != 0 and close(-g["a"] / g["b"], k) and g[None] == 0:
                    ok = True
                if len(cons) > 1 and g[None] == 0:
                    ok = ok or (k is None)
            if ok:
                continue
            if len([c for c in cons if linear(c, "ab")]) >= 2:
                continue  # both pinned (zero amounts)
            env = sample_env(s3, [R("a"), R("b")], random.Random(3))
            if env is None and cons:
                # solve the single constraint for b
                g = linear(cons[0], "ab")
                if g and g["b"] != 0:
                    env = {"a": 3.0, "b": float(-(g["a"] * 3 + g[None]) / g["b"])}
                elif g and g["a"] != 0:
                    env = {"a": float(-g[None] / g["a"]), "b": 7.0}
            if env is None:
                res = None, "equal-partition not understood"
                continue
            if k is None:
                if env["a"] == 0 and env["b"] == 0:
                    continue
                return False, "%.4g%s == %.4g%s" % (env["a"], u, env["b"], v)
            if abs(env["a"] * float(k) - env["b"]) > 1e-3 * max(abs(env["a"]), abs(env["b"])):
                return False, "%.4g%s == %.4g%s" % (env["a"], u, env["b"], v)
    if u == v or {u, v} == {"px", ""}:
        s = I.start()
        s, l = length(I, s, "a", u)
        s, r = operand(I, s, rf, "a", v)
        I.steps = 0
        for s2, x in I.compare(s, opname, l, r):
            if isinstance(x, Raise):
                continue
            for s3, t in I.truth(s2, x):
                if t is not want_true and feasible(s3):
                    return False, "identical lengths do not compare equal"
    return res


def viewbox(I, s, w, h):
    return M.mktext(["0 0 ", NumPiece("lit", sym(w)), " ", NumPiece("lit", sym(h))])


def resolve(I, unit, kw, want, how):
    """want: Rat, or None when it must stay unresolved"""
    s = I.start()
    s, l = length(I, s, "a", unit)
    args = {}
    for k, x in kw.items():
        if callable(x):
            s, x = x(s)
        args[k] = x
    if how == "text":
        s, l = new(I, s, "basic", "Length", M.mktext([NumPiece("lit", sym("a")), unit]))

    def j(s, x):
        if want is None:
            if isinstance(x, Ref):
                amt, un = parts(I, s, x)
                if un == unit:
                    r = same(s, amt, R("a"))
                    return r, "unresolved %s length changed to %r" % (unit, amt)
                return None, "resolved into %s" % un
            if isinstance(x, Num) and s.decide(("eq", R("a"))) is True:
                return True, ""
            return (False, "%s cannot be resolved here but gives %r" % (unit or "unitless", x)) if isinstance(x, Num) else (None, repr(x))
        g = rat_of(I, s, x)
        if g is None:
            if isinstance(x, Ref) or isinstance(x, Const):
                if isinstance(x, Ref):
                    amt, un = parts(I, s, x)
                    if amt is not None and same(s, amt, ZERO) is True and same(s, want, ZERO) is True:
                        return True, ""
                return False, "%s length stays unresolved or is lost (%r)" % (unit, x)
            return None, "result %r" % (x,)
        return same(s, g, want, tol=float(TOL), ranges={"w": (1, 50), "h": (1, 50), "ppi": (20, 600)}), "%s resolves to %r, expected %r" % (unit, g, want)

    rs = method(I, s, l, "value", **args)
    return all_outcomes(rs, j, allow=() if want is not None else ("ValueError",))


def convert(I, unit, name, target, ppi):
    s = I.start()
    s, l = length(I, s, "a", unit)
    kw = {"ppi": sym("ppi")} if ppi else {}
    P = R("ppi") if ppi else R(96)
    s.assume(("lt", -R("ppi")), True)
    per_in = {"mm": R(Fraction(254, 10)), "cm": R(Fraction(254, 100)), "in": R(1)}[target]
    if unit in IN:
        want = R("a") * R(IN[unit]) * per_in
    elif unit in PX:
        want = R("a") * R(PX[unit]) / P * per_in
    else:
        want = None

    def j(s, x):
        if not isinstance(x, Ref):
            return (False, "gives %r" % (x,)) if isinstance(x, (Num, Const)) else (None, repr(x))
        amt, un = parts(I, s, x)
        if amt is None:
            return None, "amount not closed"
        if want is None:
            if s.decide(("eq", amt)) is True and s.decide(("eq", R("a"))) is True:
                return True, ""
            if un != unit:
                return False, "%s without a reference becomes %r%s" % (unit, amt, un)
            return same(s, amt, R("a")), "unresolved %s length changed to %r" % (unit, amt)
        if un != target:
            return False, "unit of the result is %r" % un
        return same(s, amt, want, tol=float(TOL), ranges={"ppi": (20, 600)}), "%s to %s: %r, expected %r" % (unit, target, amt, want)

    return all_outcomes(method(I, s, l, name, **kw), j, allow=() if want is not None else ("ValueError",))


def check(rep):
    rep.rule("arith", "sum and difference of two units: linear form with the CSS ratio, or ValueError", 60)
    rep.rule("divide", "quotient of two units: ratio, or ValueError", 40)
    rep.rule("order", "ordering of two units agrees with the ratio, or ValueError", 60)
    rep.rule("equal", "equality of two units implies equal sizes", 40)
    rep.rule("resolve", "value() resolves each unit against its own reference, or leaves it", 25)
    rep.rule("convert", "conversion to mm, cm, in", 20)
    I = rep.interp()
    forms = ["Length", "text"]
    for u in UNITS:
        for v in UNITS:
            small = u in PX or u in IN or v in PX or v in IN or u == v or rep.thorough
            if not small:
                continue
            for f in forms:
                if f == "text" and not (rep.thorough or (u in PX or u in IN) and (v in PX or v in IN)):
                    continue
                for o in ("Add", "Sub"):
                    rep.each("arith", "%s %s %s %s" % (u or "none", o, v or "none", f), arith, I, o, False, u, v, "Length", f)
                    if f == "Length":
                        rep.each("arith", "%s %s= %s" % (u or "none", o, v or "none"), arith, I, o, True, u, v, "Length", f)
                    elif rep.thorough or u in ("px", "in"):
                        rep.each("arith", "text %s %s %s" % (u or "none", o, v or "none"), arith, I, o, False, u, v, "text", "Length")
                rep.each("divide", "%s / %s %s" % (u or "none", v or "none", f), division, I, u, v, f)
                for o in ("Lt", "LtE", "Gt", "GtE"):
                    if f == "text" and o != "Lt" and not rep.thorough:
                        continue
                    rep.each("order", "%s %s %s %s" % (u or "none", o, v or "none", f), ordering, I, o, u, v, f)
                for o in ("Eq", "NotEq"):
                    rep.each("equal", "%s %s %s %s" % (u or "none", o, v or "none", f), equality, I, o, u, v, f)
        for o in ("Add", "Sub"):
            rep.each("arith", "%s %s number" % (u or "none", o), arith, I, o, False, u, "", "Length", "number")
            rep.each("arith", "number %s %s" % (o, u or "none"), arith, I, o, False, "", u, "number", "Length")
        rep.each("equal", "%s == number" % (u or "none"), equality, I, "Eq", u, "", "number")
    a, p, rl, fs, fh, w, h = (R(x) for x in ("a", "ppi", "rel", "fs", "fh", "w", "h"))
    hund = R(100)
    full = {
        "ppi": sym("ppi"), "relative_length": sym("rel"), "font_size": sym("fs"), "font_height": sym("fh"),
    }
    vb = lambda s: (s, viewbox(I, s, "w", "h"))
    full["viewbox"] = vb
    want = {
        "px": a, "": a, "pt": a * R(Fraction(4, 3)), "pc": a * R(16), "in": a * p, "cm": a * p / R(Fraction(254, 100)),
        "mm": a * p / R(Fraction(254, 10)), "%": a * rl / hund, "em": a * fs, "ex": a * fh, "vw": a * w / hund, "vh": a * h / hund,
        "vmin": a * fun_("min", w, h) / hund, "vmax": a * fun_("max", w, h) / hund, "rem": None, "ch": None,
    }
    needs = {"in": "ppi", "cm": "ppi", "mm": "ppi", "%": "relative_length", "em": "font_size", "ex": "font_height",
             "vw": "viewbox", "vh": "viewbox", "vmin": "viewbox", "vmax": "viewbox"}
    for u in UNITS:
        for how in ("object", "text"):
            rep.each("resolve", "%s all references (%s)" % (u or "none", how), resolve, I, u, full, want[u], how)
        if u in needs:
            rep.each("resolve", "%s without %s" % (u, needs[u]), resolve, I, u, {k: x for k, x in full.items() if k != needs[u]}, None, "object")
            rep.each("resolve", "%s only %s" % (u, needs[u]), resolve, I, u, {needs[u]: full[needs[u]]}, want[u], "object")
        else:
            rep.each("resolve", "%s no references" % (u or "none"), resolve, I, u, {}, want[u], "object")
    rep.each("resolve", "unknown unit", resolve, I, "zz", full, None, "object")
    vbo = lambda s: new(I, s, "basic", "Viewbox", viewbox(I, s, "w", "h"))
    for u in ("vw", "vh", "vmin", "vmax"):
        rep.each("resolve", "%s of a Viewbox object" % u, resolve, I, u, {"viewbox": vbo}, want[u], "object")
    rels = {
        "number": (sym("rel"), rl),
        "text px": (M.mktext([NumPiece("lit", sym("rel")), "px"]), rl),
        "text mm": (M.mktext([NumPiece("lit", sym("rel")), "mm"]), rl * p / R(Fraction(254, 10))),
        "text in": (M.mktext([NumPiece("lit", sym("rel")), "in"]), rl * p),
        "Length px": (lambda s: length(I, s, "rel", "px"), rl),
        "Length pt": (lambda s: length(I, s, "rel", "pt"), rl * R(Fraction(4, 3))),
        "Length cm": (lambda s: length(I, s, "rel", "cm"), rl * p / R(Fraction(254, 100))),
        "Length em": (lambda s: length(I, s, "rel", "em"), rl * fs),
    }
    for u, k in (("pc", rl * R(16)), ("mm", rl * p / R(Fraction(254, 10))), ("in", rl * p), ("ex", rl * fh), ("vw", rl * w / hund), ("vh", rl * h / hund),
                 ("vmin", rl * fun_("min", w, h) / hund), ("vmax", rl * fun_("max", w, h) / hund), ("", rl)):
        rels["Length %s" % (u or "none")] = ((lambda s, u=u: length(I, s, "rel", u)), k)
    for u, k in (("pt", rl * R(Fraction(4, 3))), ("pc", rl * R(16)), ("cm", rl * p / R(Fraction(254, 100))), ("em", rl * fs), ("ex", rl * fh), ("vw", rl * w / hund), ("vh", rl * h / hund)):
        rels["text %s" % u] = (M.mktext([NumPiece("lit", sym("rel")), u]), k)
    for n, (x, k) in rels.items():
        kw = dict(full)
        kw["relative_length"] = x
        rep.each("resolve", "%% of %s" % n, resolve, I, "%", kw, a * k / hund, "object")
    for u in UNITS:
        for name, t in (("to_mm", "mm"), ("to_cm", "cm"), ("to_inch", "in")):
            for ppi in (False, True):
                rep.each("convert", "%s %s%s" % (u or "none", name, " ppi" if ppi else ""), convert, I, u, name, t, ppi)
    for u in UNITS:
        def flt():
            s = I.start()
            s, l = length(I, s, "a", u)
            rs = I.run(s, BuiltinClass("float"), l)
            if u in PX:
                return all_outcomes(rs, lambda s, x: (same(s, rat_of(I, s, x), R("a") * R(PX[u]), tol=float(TOL)), "float gives %r" % (x,)))
            bad = [x for s2, x in rs if not isinstance(x, Raise) and s2.decide(("eq", R("a"))) is not True]
            return (False, "float of %s without references gives %r" % (u, bad[0])) if bad else True
        rep.each("resolve", "float(%s)" % (u or "none"), flt)


def fun_(name, *a):
    from ..sym import fun
    return fun(name, *a)
