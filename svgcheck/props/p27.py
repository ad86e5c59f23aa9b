"""P27: lengths of single segments.  Every closed form that a length method can return is extracted as a
decision tree and compared, on valuations of every branch, with the integral of the speed of the curve;
numerical integration is decided by the integrand, bounds and accuracy it is given; the recursive
refinement by one activation on unknown arguments (an induction step)."""
import math

from ..engine import Anchor, Builtin
from ..frame import holds, show
from ..objects import *
from ..edits import load
from ..helpers import method
from .. import sym as SY
from .p26 import arc_env, ell_of, kinds_of

NODES = None


def gauss(n=24):
    """nodes and weights of Gauss-Legendre quadrature on 0..1"""
    global NODES
    if NODES is None:
        out = []
        for k in range(n):
            x = math.cos(math.pi * (k + 0.75) / (n + 0.5))
            for _ in range(50):
                p0, p1 = 1.0, x
                for j in range(2, n + 1):
                    p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
                d = n * (x * p1 - p0) / (x * x - 1)
                x -= p1 / d
            out.append(((x + 1) / 2, 1 / ((1 - x * x) * d * d)))
        NODES = out
    return NODES


def integral(f, a, b, pieces=40):
    h = (b - a) / pieces
    return sum(w * h * f(a + h * (k + x)) for k in range(pieces) for x, w in gauss())


def ellipeinc(phi, m):
    return integral(lambda u: math.sqrt(max(0.0, 1 - m * math.sin(u) ** 2)), 0.0, phi, max(4, int(abs(phi) * 6)))


SY._FN["ellipeinc"] = ellipeinc


def speed(ps, t):
    """of a Bezier curve"""
    n = len(ps) - 1
    d = [sum(math.comb(n - 1, k) * n * (ps[k + 1][ax] - ps[k][ax]) * t ** k * (1 - t) ** (n - 1 - k) for k in range(n)) for ax in (0, 1)]
    return math.hypot(*d)


def scipy(log):
    def model(I, st, name, args=None, kw=None):
        if args is None:
            return Builtin("scipy." + name) if name in ("integrate", "special") else None
        if name == "special.ellipeinc":
            a = [rat_of(I, st, x) for x in args]
            if len(a) != 2 or kw or None in a:
                return None
            return [(st, Num(SY.fun("ellipeinc", *a), "f"))]
        if name == "integrate.quad":
            t = R("%u")
            st = st.fork()
            st.facts[Poly.of(atom("%u"))] = Interval(Fraction(0), Fraction(1), True, True)
            out = []
            names = ["func", "a", "b", "args", "full_output", "epsabs", "epsrel", "limit"]
            given = dict(zip(names, args))
            given.update(kw)
            for s2, v in I.call(st, given["func"], [Num(t, "f")], {}):
                if isinstance(v, Raise):
                    out.append((s2, v))
                    continue
                log.append((s2, given, rat_of(I, s2, v)))
                out.append((s2, Tup((Num(R("%%quad%d" % (len(log) - 1)), "f"), Num(R("%quaderr"), "f")))))
            return out
        return None
    return model


def part_of(model, pre):
    def f(I, st, name, args=None, kw=None):
        if args is None:
            return Builtin("scipy.%s.%s" % (pre, name))
        return model(I, st, "%s.%s" % (pre, name), args, kw)
    return f


def check(rep):
    rep.rule("closed", "a length in closed form is the integral of the speed of the curve", 10)
    rep.rule("integral", "numerical integration is given the speed of the whole curve and the accuracy asked for", 2)
    rep.rule("fallback", "a length without closed form is refined over the whole curve to the accuracy asked for", 4)
    rep.rule("refine", "refinement adds the halves, and stops only where it is accurate and deep enough", 6)
    n = 300 if rep.thorough else 80

    def interp(log=None):
        I = load(rep.interp())
        I.max_steps = 4000000
        I.missing.add("numpy")
        if log is None:
            I.missing.add("scipy")
        else:
            m = scipy(log)
            I.present["scipy"] = m
            I.present["scipy.special"] = part_of(m, "special")
            I.present["scipy.integrate"] = part_of(m, "integrate")
        return I
    names = {"Line": ("s", "e"), "Close": ("s", "e"), "QuadraticBezier": ("s", "c", "e"), "CubicBezier": ("s", "c", "d", "e")}

    def points(kind, env):
        return [(env[p + "x"], env[p + "y"]) for p in names[kind]]

    # closed forms ---------------------------------------------------------------------
    def anywhere(kind):
        def env(rng, k):
            return {p + x: rng.uniform(-30, 30) for p in names[kind] for x in "xy"}
        return env

    def closed(I, kind, env, fixed=None):
        s = I.start()
        if fixed:
            # positions on a line through the start, as multiples of a free step
            ps = [(R("sx") + R("ux") * R(f), R("sy") + R("uy") * R(f)) for f in fixed]
            s, g = raw_segment(I, s, kind, tuple(ps))
        else:
            s, g, _ = segment(I, s, kind)

        def one(s2, v, env):
            r = rat_of(I, s2, v)
            if r is None:
                return None
            got = evaluate(r, env)
            if fixed:
                ps = [(env["sx"] + env["ux"] * f, env["sy"] + env["uy"] * f) for f in fixed]
            else:
                ps = points(kind, env)
            want = integral(lambda t: speed(ps, t), 0.0, 1.0)
            size = max(1.0, want)
            return abs(got - want) <= 2e-3 * size if fixed else abs(got - want) <= 1e-5 * size, "length %.9g where the curve is %.9g long" % (got, want)
        return cover(method(I, s, g, "length"), env, one, n)

    I = interp()
    for kind in ("Line", "Close", "QuadraticBezier"):
        rep.each("closed", kind, closed, I, kind, anywhere(kind))

    def step(rng, k):
        u = rng.choice(((3, 4), (-4, 3), (5, -12), (-8, -15), (7, 0), (0, -6)))
        return {"sx": rng.randint(-9, 9), "sy": rng.randint(-9, 9), "ux": u[0], "uy": u[1]}
    # start, control, end as multiples of a step: straight on, back and forth, half way, degenerate
    for f in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (0, 1, 0), (0, 2, 1), (0, 3, 2), (0, 1, -1), (0, -1, 2), (0, 5, 3), (0, 0, 1), (0, 1, 1), (0, -2, 1), (0, 1, -5), (0, 7, 8)):
        rep.each("closed", "QuadraticBezier along a line %s" % (f,), closed, I, "QuadraticBezier", step, f)

    def refiner(I):
        f, owner = I.find(I.get(I.start(), "path", "PathSegment"), "segment_length")
        f = getattr(f, "fn", f)
        if getattr(f, "info", None) is None:
            raise Anchor("PathSegment.segment_length")
        return f

    # rounding ----------------------------------------------------------------------------
    def stable(I, ends):
        """curves that are straight but for a tiny bend: a logarithm near 0 must not be magnified.  Its argument is
        rounded, so the result is off by at least its derivative in the logarithm times the machine precision"""
        s, g, _ = segment(I, I.start(), "QuadraticBezier")
        rs = method(I, s, g, "length")

        def env(rng, k):
            bend = 2.0 ** -rng.randint(26, 44)
            return dict(zip(("sx", "sy", "cx", "cy", "ex", "ey"), ends(bend, 2.0 ** rng.randint(-2, 3))))

        import random
        rng = random.Random(5)
        done = 0
        for k in range(n // 2):
            e = env(rng, k)
            size = math.dist((e["sx"], e["sy"]), (e["ex"], e["ey"]))
            for s2, v in rs:
                r = rat_of(I, s2, v) if not isinstance(v, Raise) else None
                try:
                    if r is None or not holds(s2, e, fine=True):
                        continue
                except (ZeroDivisionError, ValueError, OverflowError):
                    continue
                done += 1
                for x in r.num.atoms():
                    if x.name != "log" or abs(evaluate(x.args[0], e) - 1) > 1e-3:
                        continue
                    # the derivative of the result in the logarithm
                    rest = {m: c for m, c in r.num.t.items() if any(a == x for a, _ in m)}
                    if any(p != 1 for m in rest for a, p in m if a == x):
                        continue
                    num_ = Rat(Poly({tuple((a, p) for a, p in m if a != x): c for m, c in rest.items()}))
                    off = abs(evaluate(num_, e) / evaluate(Rat(r.den), e)) * 2.0 ** -53
                    if off > 1e-6 * size:
                        return False, "rounding moves the length %g by %g for %s" % (size, off, show(e))
        return True if done else None
    for cn, ends in {"bent aside": lambda b, u: (0, 0, u, 0, 2 * u, b), "bent along": lambda b, u: (0, 0, u, 0, 2 * u + b, 0), "bent back": lambda b, u: (0, 0, 0, u, 0, 2 * u - b)}.items():
        rep.each("closed", "QuadraticBezier %s" % cn, stable, I, ends)

    # arcs ------------------------------------------------------------------------------
    def arc_length(e, w, t0):
        return abs(integral(lambda t: math.hypot(e.a * math.sin(t), e.b * math.cos(t)), t0, t0 + w, 60))

    def arc(log, env, exact):
        I = interp(log)
        f = refiner(I)
        # refinement is decided by its own rules
        I.hooks[f.info.qual] = lambda I, st, args, kw: [(st, Num(R("%refined"), "f"))]
        s, g, _ = segment(I, I.start(), "Arc")

        def one(s2, v, env):
            r = rat_of(I, s2, v)
            if r is None:
                return None
            got = evaluate(r, env)
            e = ell_of(env)
            want = arc_length(e, env["w"], e.t((env["sx"], env["sy"])))
            return abs(got - want) <= 1e-5 * max(1.0, want), "length %.9g where the arc is %.9g long" % (got, want)
        return cover(method(I, s, g, "length"), env, one, n)
    ks = kinds_of()
    rep.each("closed", "Arc of a full circle", arc, [], arc_env(circle=True, full=True), False)
    rep.each("closed", "Arc of a circle", arc, [], ks["circle"], False)
    for kn in ("any", "upright", "full"):
        rep.each("closed", "Arc with elliptic integrals, %s" % kn, arc, [], ks[kn], True)

    # numerical integration -----------------------------------------------------------------
    def quadrature(asked):
        log = []
        I = interp(log)
        s, g, _ = segment(I, I.start(), "CubicBezier")
        kw = {}
        if asked:
            kw["error"] = num(Fraction(1, 1000))
        rs = method(I, s, g, "length", **kw)
        env0 = anywhere("CubicBezier")
        for s2, v in rs:
            r = None if isinstance(v, Raise) else rat_of(I, s2, v)
            if r is None:
                return None
            used = [k for k in range(len(log)) if r == R("%%quad%d" % k)]
            if not used:
                return None if any(str(a.name).startswith("%quad") for a in r.all_atoms()) else (False, "with integration at hand the length is %r" % (r,))
            st, given, form = log[used[0]]
            lo, hi = rat_of(I, st, given["a"]), rat_of(I, st, given["b"])
            if lo is None or hi is None or form is None:
                return None
            if lo.cval() != 0 or hi.cval() != 1:
                return False, "integrates from %r to %r" % (lo, hi)
            tol = rat_of(I, st, given["epsabs"]) if "epsabs" in given else R(Fraction(149, 10 ** 10))
            if tol is None or tol.cval() is None:
                return None
            if tol.cval() > (Fraction(1, 1000) if asked else Fraction(1, 10 ** 6)):
                return False, "integrates to %g" % float(tol.cval())

            def one(s3, v3, env):
                u = env["%u"]
                got, want = evaluate(form, env), speed(points("CubicBezier", env), u)
                return abs(got - want) <= 1e-6 * max(1.0, want), "integrand %.9g where the speed at %g is %.9g" % (got, u, want)

            def env(rng, k):
                e = env0(rng, k)
                e["%u"] = rng.uniform(0, 1)
                return e
            r = cover([(s2, v)], env, one, n)
            if r is not True and (not isinstance(r, tuple) or r[0] is not True):
                return r
        return bool(rs)
    rep.each("integral", "CubicBezier", quadrature, False)
    rep.each("integral", "CubicBezier to 0.001", quadrature, True)

    # recursive refinement --------------------------------------------------------------------
    def bound(info, args, kw):
        """values of a call by parameter name"""
        a = info.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        out = dict(zip(ps, args))
        out.update(kw)
        ds = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        import ast
        for p in ps:
            if p not in out and p in ds:
                try:
                    v = ast.literal_eval(ds[p])
                except ValueError:
                    continue
                out[p] = NONE if v is None else num(Fraction(v).limit_denominator(10 ** 12))
        return out

    def fallback(kind, asked):
        I = interp()
        f = refiner(I)
        calls = []

        def hook(I, st, args, kw):
            calls.append((st, bound(f.info, args, kw)))
            return [(st, Num(R("%%refined%d" % (len(calls) - 1)), "f"))]
        I.hooks[f.info.qual] = hook
        s, g, _ = segment(I, I.start(), kind)
        kw = {"error": num(Fraction(1, 1000)), "min_depth": num(9)} if asked else {}
        rs = method(I, s, g, "length", **kw)
        seen = 0
        for s2, v in rs:
            if isinstance(v, Raise):
                return False, "raises %s" % v
            r = rat_of(I, s2, v)
            if r is None:
                return None
            used = [k for k in range(len(calls)) if r == R("%%refined%d" % k)]
            if not used:
                if any(str(a.name).startswith("%refined") for a in r.all_atoms()):
                    return False, "the length is %r" % (r,)
                continue
            st, c = calls[used[0]]
            seen += 1
            if c.get("curve") != g:
                return False, "refines another curve"
            for nm, want in (("start", 0), ("end", 1)):
                x = rat_of(I, st, c[nm]) if nm in c else None
                if x is None or x.cval() is None:
                    return None
                if x.cval() != want:
                    return False, "%s is %r" % (nm, x)
            for nm, want in (("start_point", None), ("end_point", None)):
                if nm in c and c[nm] != NONE:
                    return None
            if asked:
                for nm, want, worse in (("error", Fraction(1, 1000), lambda a, b: a > b), ("min_depth", 9, lambda a, b: a < b)):
                    if nm not in c:
                        return False, "%s is not passed on" % nm
                    x = rat_of(I, st, c[nm])
                    if x is None or x.cval() is None:
                        return None
                    if worse(x.cval(), want):
                        return False, "%s is %r where %s was asked for" % (nm, x, want)
            if "depth" in c:
                x = rat_of(I, st, c["depth"])
                if x is None or x.cval() is None:
                    return None
                if x.cval() > 0:
                    return False, "refinement starts at depth %r" % x
        return True if seen else None
    for kind in ("CubicBezier", "Arc"):
        for asked in (False, True):
            rep.each("fallback", "%s%s" % (kind, " to given accuracy" if asked else ""), fallback, kind, asked)

    def refine(kind, given, goal):
        I = interp()
        f = refiner(I)
        s, g, _ = segment(I, I.start(), kind)
        depth, mind, err = sym("dep", "i"), sym("mind", "i"), sym("err")
        s.facts[Poly.of(atom("err"))] = Interval(Fraction(0), None, False, True)
        a, b = sym("u"), sym("v")
        rec = []

        def hook(I, st, args, kw):
            c = bound(f.info, args, kw)
            rec.append((st, c))
            return [(st, Num(R("%%half%d" % (len(rec) - 1)), "f"))]
        if given:
            s, p = pt(I, s, P("A"))
            s, q = pt(I, s, P("B"))
        else:
            p = q = NONE
        # the first activation is interpreted, those it starts are recorded
        I.hooks[f.info.qual] = hook
        first = [True]

        def enter(I, st, args, kw):
            if first[0]:
                first[0] = False
                return None
            return hook(I, st, args, kw)
        I.hooks[f.info.qual] = enter
        rs = I.run(s, f, g, a, b, p, q, err, mind, depth)
        deep = 0

        def env(rng, k):
            e = {x: rng.uniform(-30, 30) for pn in names[kind] for x in (pn + "x", pn + "y")}
            e["u"] = rng.uniform(0, 1)
            e["v"] = rng.uniform(0, 1)
            e["dep"], e["mind"] = rng.randint(0, 6), rng.randint(0, 6)
            e["err"] = math.exp(rng.uniform(-12, 4))
            if k % 3 == 0:
                e["v"] = e["u"] + rng.uniform(-0.05, 0.05)
            if given:
                A, B = at(e, e["u"]), at(e, e["v"])
                e["Ax"], e["Ay"], e["Bx"], e["By"] = A + B
            for k in range(len(rec)):
                e["%%half%d" % k] = 1000.0 + 17 * k
            return e

        def at(env, t):
            ps = points(kind, env)
            m = len(ps) - 1
            return tuple(sum(math.comb(m, k) * pp[ax] * t ** k * (1 - t) ** (m - k) for k, pp in enumerate(ps)) for ax in (0, 1))

        def one(s2, v, env):
            r = rat_of(I, s2, v)
            if r is None:
                return None
            u, w = env["u"], env["v"]
            m = (u + w) / 2
            A, M, B = at(env, u), at(env, m), at(env, w)
            chord, two = math.dist(A, B), math.dist(A, M) + math.dist(M, B)
            got = evaluate(r, env)
            halves = [k for k in range(len(rec)) if any(x.name == "%%half%d" % k for x in r.all_atoms())]
            enough = two - chord <= env["err"] and env["dep"] >= env["mind"]
            if abs(two - chord - env["err"]) < 1e-6:
                return None
            if not halves:
                if abs(got - two) > 1e-6 * max(1.0, two):
                    return False, "returns %.9g where the two chords are %.9g long" % (got, two)
                return enough, "stops at depth %d of %d where the chords differ by %g with an error of %g" % (env["dep"], env["mind"], two - chord, env["err"])
            if abs(got - sum(1000.0 + 17 * k for k in halves)) > 1e-6 or len(halves) != 2:
                return False, "the sum of the halves is not returned"
            spans = []
            for k in halves:
                st, c = rec[k]
                if c.get("curve") != g:
                    return False, "refines another curve"
                vals = {}
                for nm in ("start", "end", "error", "min_depth", "depth"):
                    x = rat_of(I, s2, c[nm]) if nm in c else None
                    if x is None:
                        return (False, "%s is not passed on" % nm) if nm not in c else None
                    vals[nm] = evaluate(x, env)
                if vals["error"] > env["err"] * (1 + 1e-9):
                    return False, "the error grows to %g from %g" % (vals["error"], env["err"])
                if vals["min_depth"] - vals["depth"] < env["mind"] - env["dep"] - 1 - 1e-9:
                    return False, "depth %g of %g follows depth %d of %d" % (vals["depth"], vals["min_depth"], env["dep"], env["mind"])
                if vals["min_depth"] - vals["depth"] > env["mind"] - env["dep"] - 1 + 1e-9:
                    return False, "depth %g of %g follows depth %d of %d: refinement never gets deep enough" % (vals["depth"], vals["min_depth"], env["dep"], env["mind"])
                for nm, t in (("start_point", vals["start"]), ("end_point", vals["end"])):
                    pv = c.get(nm, NONE)
                    if pv == NONE:
                        continue
                    z = xy(I, s2, pv)
                    if z is None or any(x is None for x in z):
                        return None
                    z = tuple(evaluate(x, env) for x in z)
                    if math.dist(z, at(env, t)) > 1e-6 * 100:
                        return False, "%s is (%g, %g) which is not the point at %g" % ((nm,) + z + (t,))
                spans.append((vals["start"], vals["end"]))
            want = {(round(u, 9), round(m, 9)), (round(m, 9), round(w, 9))}
            if {(round(x, 9), round(y, 9)) for x, y in spans} != want:
                return False, "the halves of %g..%g are taken to be %s" % (u, w, spans)
            return True
        return cover(rs, env, one, 4 * n)
    for kind in ("QuadraticBezier", "CubicBezier", "Line"):
        for given in (False, True):
            rep.each("refine", "%s %s" % (kind, "with end points" if given else "alone"), refine, kind, given, None)
