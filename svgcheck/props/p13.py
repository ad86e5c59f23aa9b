"""P13: writing path data.  d() and str() are interpreted on segments, paths and windows with symbolic
coordinates; the written text (constant characters and formatted numbers) is read back by the
package's own parser with every number as an opaque token, and the operations it yields have to be
the ones the segments stand for.  Number formats are checked for twelve significant digits."""
import math
import re

from ..edits import *
from ..values import NumPiece as NP

OP = {"Move": "move", "Line": "line", "Close": "closed", "QuadraticBezier": "quad", "CubicBezier": "cubic", "Arc": "arc"}
DIGITS = re.compile(r"^%?[-+ 0#]*(\d*)(?:\.(\d+))?([a-zA-Z])?~?$")


def spell(s, v):
    """the written text with its numbers turned into tokens -> (text, None) or (None, (verdict, why))"""
    if isinstance(v, Const) and isinstance(v.v, str):
        return v, None
    if not isinstance(v, Text):
        return None, (None, "text is %r" % (v,))
    out = []
    for p in v.pieces:
        if isinstance(p, str):
            out.append(p)
            continue
        if not isinstance(p, NP):
            return None, (None, "piece %r" % (p,))
        if p.fmt not in ("str", "repr", "lit"):
            m = DIGITS.match(p.fmt.rstrip("~"))
            c = p.num.r.cval() if isinstance(p.num, Num) else None
            whole = isinstance(p.num, Num) and p.num.k == "i"
            if m is None:
                return None, (None, "format %r" % p.fmt)
            t, n = (m.group(3) or "g"), m.group(2)
            if "~" in p.fmt:
                return None, (False, "a number written with %r is cut afterwards" % p.fmt)
            if t in "gG":
                if int(n or 6) < 12 and not whole:
                    return None, (False, "a coordinate is written with format %r: fewer than 12 significant digits" % p.fmt)
            elif t in "eE":
                if int(n or 6) < 11 and not whole:
                    return None, (False, "a coordinate is written with format %r: fewer than 12 significant digits" % p.fmt)
            elif t in "dn":
                if not whole:
                    return None, (False, "a coordinate is cut to a whole number (%r)" % p.fmt)
            elif t in "fF":
                if not whole:
                    return None, (False, "a coordinate is written with format %r: small magnitudes lose their digits" % p.fmt)
            else:
                return None, (None, "format %r" % p.fmt)
        out.append(NP("lit", p.num))
    return M.mktext(out), None


def choose(s, text):
    """digits that stand for an undecided truth value: one partition per value"""
    out = [(s, [])]
    for p in text.pieces if isinstance(text, Text) else [text.v]:
        nxt = []
        for s1, ps in out:
            c = None
            if isinstance(p, NP) and isinstance(p.num, Num):
                m = list(s1.norm(p.num.r).all_atoms())
                if len(m) == 1 and isinstance(m[0].name, tuple) and m[0].name[0] == "bool" and s1.norm(p.num.r) == Rat(Poly.of(m[0])):
                    c = m[0].name
            if c is None:
                nxt.append((s1, ps + [p]))
                continue
            for val in (True, False):
                f = s1.fork()
                if f.assume(c[1], val):
                    nxt.append((f, ps + [str(int(val != c[2]))]))
        out = nxt
    return [(s1, M.mktext(ps)) for s1, ps in out]


def want_ops(I, s, segs, flags):
    """operations a list of (kind, parts) stands for"""
    out = []
    for (kind, parts), rel in zip(segs, flags):
        if kind == "Close":
            out.append(("closed", [], rel))
        elif kind in ("Move", "Line"):
            out.append((OP[kind], [parts[1]], rel))
        elif kind == "Arc":
            out.append(("arc", parts, rel))
        else:
            out.append((OP[kind], list(parts[1:]), rel))
    return out


def sampled(s, rats, pred):
    k = always(s, lambda env: pred(env), [r for r in rats if r is not None], n=12)
    return k


def cmp_arc(I, s, args, parts, sweep, nm):
    st, e, c, p, q = parts
    got = [rat_of(I, s, a) for a in args[:3]]
    fl = [flag_of(I, s, a) for a in args[3:5]]
    if any(g is None for g in got) or any(f is None for f in fl):
        return None, nm + " undecided"
    r = cmp_point(I, s, args[5], e, nm + " end")
    if r[0] is not True:
        return r
    d = lambda u, v: [u[0] - v[0], u[1] - v[1]]
    px, py = d(p, c)
    qx, qy = d(q, c)
    need = [s.norm(x) for x in (px, py, qx, qy, sweep)]

    def ok(env):
        w = [evaluate(x, env) for x in need]
        g = [evaluate(s.norm(x), env) for x in got]
        if abs(g[0] - math.hypot(w[0], w[1])) > 1e-6 * max(1, abs(g[0])):
            return False
        if abs(g[1] - math.hypot(w[2], w[3])) > 1e-6 * max(1, abs(g[1])):
            return False
        dd = (g[2] - math.degrees(math.atan2(w[1], w[0]))) % 180.0
        if min(dd, 180.0 - dd) > 1e-5:
            return False
        if abs(abs(w[4]) - math.pi) > 1e-9 and fl[0] != (abs(w[4]) > math.pi):
            return False
        return abs(w[4]) < 1e-9 or fl[1] == (w[4] > 0)
    k = always(s, ok, need + [s.norm(x) for x in got], n=16)
    return k, "" if k else "%s: radii %r %r, rotation %r, flags %s do not describe the arc%s" % (nm, got[0], got[1], got[2], fl, facts_note(s))


def cmp_written(I, s, log, want, sweeps, label):
    rows = items(I, s, log)
    if rows is None:
        return None, "log is %r" % (log,)
    rows = [items(I, s, r) for r in rows]
    names = [r[0].v if isinstance(r[0], Const) else None for r in rows]
    if None in names:
        return None, "operations unknown"
    full = [{"smooth_cubic": "cubic", "smooth_quad": "quad"}.get(n, n) for n in names]
    if full != [w[0] for w in want]:
        return False, "%sreads back as %s where %s is meant" % (label, names, [w[0] for w in want])
    res = True, ""
    cur, ctrl, first = None, None, None
    for k, (name, (_, ps, r), (wn, args, rel)) in enumerate(zip(names, rows, want)):
        ps = items(I, s, ps)
        nm = "%s%s #%d" % (label, name, k)
        f = flag_of(I, s, r)
        if rel is not None and f is not None and f != rel:
            return False, "%s is written %s" % (nm, "relative" if f else "absolute")
        q = True, ""
        if wn == "closed":
            cur, ctrl = first, None
        elif wn == "arc":
            q = cmp_arc(I, s, ps, args, sweeps[k], nm)
            cur, ctrl = args[1], None
        else:
            given = list(args)
            if name.startswith("smooth"):
                same_kind = ctrl is not None and ctrl[0] == wn
                implied = (R(2) * cur[0] - ctrl[1][0], R(2) * cur[1] - ctrl[1][1]) if same_kind else cur
                for ax in (0, 1):
                    t = same(s, implied[ax], given[0][ax], tol=1e-7)
                    if t is False:
                        return False, "%s: the omitted control point is %r, the reader takes %r%s" % (nm, given[0], implied, facts_note(s))
                    if t is None:
                        q = None, nm + " omitted control point undecided"
                given = given[1:]
            if len(ps) != len(given):
                return False, "%s has %d operands where %d are meant" % (nm, len(ps), len(given))
            for j, (p, a) in enumerate(zip(ps, given)):
                c = cmp_point(I, s, p, a, "%s operand %d" % (nm, j))
                if c[0] is False:
                    return c
                if c[0] is None:
                    q = c
            cur = args[-1]
            ctrl = (wn, args[-2]) if wn in ("cubic", "quad") else None
            if wn == "move":
                first = cur
        if q[0] is False:
            return q
        if q[0] is None:
            res = q
    return res


def check(rep):
    rep.rule("segment", "the data of one segment reads back as that segment, in the case asked for", 150)
    rep.rule("text", "str() of a segment reads back as that segment", 10)
    rep.rule("path", "the data of a path reads back as its segments, whatever case and shorthands are asked for", 200)
    rep.rule("window", "the data of a subpath window reads back as its segments", 6)
    rep.rule("shorthand", "a curve whose control point is the reflection reads back as the same curve", 20)
    rep.rule("numbers", "points and segments write 12 significant digits", 8)
    I = load(harness(rep.interp()))
    I.max_steps = 6000000

    def read(rs, before, want, sweeps, label=""):
        """judge every outcome of a writing call: read the text back and compare"""
        def one(s, v):
            v = I.resolve(s, v)
            t, why = spell(s, v)
            if t is None:
                return why
            text = M.mktext(list(before) + list(t.pieces if isinstance(t, Text) else [t.v]))
            out = []
            for s2, text in choose(s, text):
                I.handlers = []
                out += I.run(s2, I.get(s2, "_target", "drive"), text)
            return all_outcomes(out, lambda s2, log: cmp_written(I, s2, log, want, sweeps, label))
        return all_outcomes(rs, one)

    def lit_point(p):
        return [NP("lit", Num(p[0], "f")), ",", NP("lit", Num(p[1], "f")), " "]
    tri = (None, True, False)
    for kind in SEGMENTS:
        curve = kind in ("QuadraticBezier", "CubicBezier")
        for flag in (True, False):
            for given in (True, False):
                for relative in tri:
                    for smooth in tri if curve else (None,):
                        if smooth is True:
                            continue

                        def one():
                            s, g, parts = segment(I, I.start(), kind, relative=flag)
                            kw = {}
                            if given:
                                s, cp = pt(I, s, parts[0])
                                kw["current_point"] = cp
                            if relative is not None:
                                kw["relative"] = Const(relative)
                            if smooth is not None:
                                kw["smooth"] = Const(smooth)
                            rel = (flag if relative is None else relative) if given else False
                            want = [("move", [parts[0]], False)] + want_ops(I, s, [(kind, parts)], [rel])
                            return read(method(I, s, g, "d", **kw), ["M "] + lit_point(parts[0]), want, [None, R("w")])
                        rep.each("segment", "%s flagged %s current %s relative=%s smooth=%s" % (kind, flag, given, relative, smooth), one)

            def text():
                s, g, parts = segment(I, I.start(), kind, relative=flag)
                want = [("move", [parts[0]], None)] + want_ops(I, s, [(kind, parts)], [None])
                return read(do(I, s, "text", g), [], want, [None, R("w")])
            rep.each("text", "%s flagged %s" % (kind, flag), text)

            def alone():
                s, g = raw_segment(I, I.start(), kind, (None,) + seg_parts(kind)[1:], sweep=R("w") if kind == "Arc" else None, relative=flag)
                parts = seg_parts(kind)
                want = [("move", [(R("mx"), R("my"))], False)] + want_ops(I, s, [(kind, parts)], [None])
                return read(do(I, s, "text", g), ["M "] + lit_point((R("mx"), R("my"))), want, [None, R("w")])
            if kind != "Arc":
                rep.each("text", "%s without start flagged %s" % (kind, flag), alone)

    def path_flags(s, kinds, pre, flags):
        segs = chain(kinds, pre)
        s, path = new(I, s, "path", "Path")
        for k, (kind, parts) in enumerate(segs):
            s, g = raw_segment(I, s, kind, parts, sweep=R("%sw%d" % (pre, k)) if kind == "Arc" else None, relative=flags[k])
            s, _ = only(method(I, s, path, "append", g))
        return s, path, segs

    def write(kinds, flags, relative, smooth, window=None):
        s, path, segs = path_flags(I.start(), kinds, "", flags)
        obj = path
        sel = list(range(len(segs)))
        if window is not None:
            s, obj = subpath_of(I, s, path, window[0])
            sel = list(range(window[1], window[2]))
        kw = {}
        if relative is not None:
            kw["relative"] = Const(relative)
        if smooth is not None:
            kw["smooth"] = Const(smooth)
        rels = [flags[k] if relative is None else relative for k in sel]
        want = want_ops(I, s, [segs[k] for k in sel], rels)
        return read(method(I, s, obj, "d", **kw), [], want, [R("w%d" % k) for k in sel])
    DRAW = ("Line", "QuadraticBezier", "CubicBezier", "Arc")
    for a in DRAW + ("Close", "Move"):
        for b in DRAW + ("Close",):
            for relative in tri:
                for smooth in tri if b in DRAW[1:3] else (None,):
                    kinds = ("Move", "Line", a, b) if a != "Close" else ("Move", "Line", a, "Move", b)
                    if a == "Close":
                        rep.each("path", "after close %s relative=%s smooth=%s" % (b, relative, smooth), write, ("Move", "Line", a, b), [True, False, True, True], relative, smooth)
                    rep.each("path", "%s relative=%s smooth=%s" % (" ".join(kinds), relative, smooth), write, kinds, [k % 2 == 0 for k in range(len(kinds))], relative, smooth)
                    if relative is None:
                        rep.each("path", "%s other flags smooth=%s" % (" ".join(kinds), smooth), write, kinds, [k % 2 == 1 for k in range(len(kinds))], relative, smooth)
    for relative in tri:
        for smooth in tri:
            rep.each("path", "long relative=%s smooth=%s" % (relative, smooth), write, ("Move", "Line", "Close", "Move", "Line", "Close", "Line"), [True, False, True, False, True, False, True], relative, smooth)
        rep.each("window", "first relative=%s" % relative, write, LONG, [False] * 9, relative, False, (0, 0, 5))
        rep.each("window", "second relative=%s" % relative, write, LONG, [False] * 9, relative, False, (1, 5, 9))
        rep.each("window", "second flagged relative=%s" % relative, write, LONG, [True] * 9, relative, False, (1, 5, 9))

    def reflected(kind, prev, relative, smooth, flag, how):
        """the first control point is written as the exact reflection"""
        n = {"QuadraticBezier": 1, "CubicBezier": 2}
        s = I.start()
        m, a = P("m"), P("a")
        segs = [("Move", (None, m))]
        if prev == "same":
            cs = [P("c%d" % k) for k in range(n[kind])]
            segs.append((kind, tuple([m] + cs + [a])))
            c1 = (R(2) * a[0] - cs[-1][0], R(2) * a[1] - cs[-1][1])
        elif prev == "other":
            o = "CubicBezier" if kind == "QuadraticBezier" else "QuadraticBezier"
            cs = [P("c%d" % k) for k in range(n[o])]
            segs.append((o, tuple([m] + cs + [a])))
            c1 = a if how == "current" else (R(2) * a[0] - cs[-1][0], R(2) * a[1] - cs[-1][1])
        else:
            segs.append(("Line", (m, a)))
            c1 = a
        rest = [P("d")] if kind == "CubicBezier" else []
        segs.append((kind, tuple([a, c1] + rest + [P("e")])))
        s, path = new(I, s, "path", "Path")
        for k, (kd, parts) in enumerate(segs):
            s, g = raw_segment(I, s, kd, parts, relative=flag)
            s, _ = only(method(I, s, path, "append", g))
        kw = {}
        if relative is not None:
            kw["relative"] = Const(relative)
        if smooth is not None:
            kw["smooth"] = Const(smooth)
        want = want_ops(I, s, segs, [flag if relative is None else relative] * 3)
        return read(method(I, s, path, "d", **kw), [], want, [None] * 3)
    for kind in ("QuadraticBezier", "CubicBezier"):
        for prev, how in (("same", ""), ("other", "current"), ("other", "mirrored"), ("line", "")):
            for relative in tri:
                for smooth in tri:
                    rep.each("shorthand", "%s after %s %s relative=%s smooth=%s" % (kind, prev, how, relative, smooth), reflected, kind, prev, relative, smooth, relative is None, how)

    def number(name):
        s = I.start()
        if name == "Point":
            s, p = point(I, s, "x", "y")
            rs = do(I, s, "text", p)
            want = [R("x"), R("y")]
        else:
            s, g, parts = segment(I, s, name)
            rs = method(I, s, g, "d", smooth=Const(False))
            want = None

        def one(s2, v):
            v = I.resolve(s2, v)
            t, why = spell(s2, v)
            if t is None:
                return why
            if want is None:
                return True, ""
            got = [p.num for p in t.pieces if isinstance(p, NP)]
            return cmp_rats(s2, "xy", [g.r for g in got], want) if len(got) == 2 else (False, "%d numbers" % len(got))
        return all_outcomes(rs, one)
    for name in ("Point",) + SEGMENTS:
        rep.each("numbers", name, number, name)
