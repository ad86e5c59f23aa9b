"""P26: elliptical arcs.  Every way to build an arc and every query of one is interpreted on symbolic
points, radii and angles and extracted as a decision tree of closed forms; on valuations of every branch
(consistent arcs of every orientation, eccentricity and sweep) the forms have to describe the ellipse
that SVG's implementation notes, or the defining points of the arc, prescribe."""
import math

from ..engine import Anchor
from ..objects import *
from ..edits import call, load
from ..helpers import matrix_fields
from .. import nd
from .. import sym as SY

TAU = math.tau


class Ell:
    """an ellipse: centre, semi-axes, rotation; the sign of a sweep alone says which way an arc runs"""

    def __init__(self, cx, cy, a, b, phi):
        self.c, self.a, self.b, self.phi = (cx, cy), a, b, phi

    @classmethod
    def of(cls, c, p, q):
        a = math.hypot(p[0] - c[0], p[1] - c[1])
        b = math.hypot(q[0] - c[0], q[1] - c[1])
        phi = math.atan2(p[1] - c[1], p[0] - c[0])
        return cls(c[0], c[1], a, b, phi)

    def at(self, t):
        x, y = self.a * math.cos(t), self.b * math.sin(t)
        cp, sp = math.cos(self.phi), math.sin(self.phi)
        return self.c[0] + x * cp - y * sp, self.c[1] + x * sp + y * cp

    def inv(self, p):
        """coordinates in which the ellipse is the unit circle"""
        x, y = p[0] - self.c[0], p[1] - self.c[1]
        cp, sp = math.cos(self.phi), math.sin(self.phi)
        return (x * cp + y * sp) / self.a, (-x * sp + y * cp) / self.b

    def t(self, p):
        u, v = self.inv(p)
        return math.atan2(v, u)

    def off(self, p):
        return abs(math.hypot(*self.inv(p)) - 1)


def turn(x):
    """distance of an angle from the nearest whole turn"""
    x = math.fmod(x, TAU)
    return min(abs(x), abs(abs(x) - TAU))


def near(p, q, size, tol=1e-6):
    return math.hypot(p[0] - q[0], p[1] - q[1]) <= tol * max(1.0, size)


def arc_env(circle=False, quarter=None, phi=None, full=False):
    """valuations of the points of a consistent arc"""
    def make(rng, k):
        a = rng.uniform(0.5, 40)
        b = a if circle else a * math.exp(rng.uniform(-2, 2))
        f = rng.uniform(-math.pi, math.pi) if phi is None else phi
        e = Ell(rng.uniform(-30, 30), rng.uniform(-30, 30), a, b, f)
        t0 = rng.uniform(-math.pi, math.pi)
        w = rng.choice((-1, 1)) * rng.uniform(0.05, TAU - 0.05)
        if full:
            w = rng.choice((-TAU, TAU))
        if quarter is not None:
            w = quarter
        s, z, p, q = e.at(t0), e.at(t0 + w), e.at(0), e.at(math.pi / 2)
        if full:
            z = s
        return {"sx": s[0], "sy": s[1], "ex": z[0], "ey": z[1], "px": e.c[0], "py": e.c[1],
                "rx": p[0], "ry": p[1], "qx": q[0], "qy": q[1], "w": w, "t": rng.uniform(0.02, 0.98), "ang": rng.uniform(-10, 10)}
    return make


def kinds_of():
    return {"any": arc_env(), "circle": arc_env(circle=True), "upright": arc_env(phi=0.0), "full": arc_env(full=True)}


def ell_of(env):
    return Ell.of((env["px"], env["py"]), (env["rx"], env["ry"]), (env["qx"], env["qy"]))


def size_of(env):
    return max(abs(v) for v in env.values())


def check(rep):
    rep.rule("svg", "an arc built from SVG parameters is the one the implementation notes prescribe", 8)
    rep.rule("point", "points along an arc lie on its ellipse at their share of the sweep", 10)
    rep.rule("query", "radii, rotation and parameters of an arc are those of its ellipse", 12)
    rep.rule("box", "the box of an arc is spanned by its ends and the extremes it sweeps over", 0)
    rep.rule("curves", "curves that replace an arc join its ends and follow its ellipse", 8)
    rep.rule("moved", "a moved or reversed arc is the image of the arc", 12)
    rep.rule("built", "an arc built from other measures satisfies them", 10)
    n = 400 if rep.thorough else 80

    def interp(numpy=False):
        I = load(rep.interp())
        I.max_steps = 4000000
        if numpy:
            I.present["numpy"] = nd.numpy
        else:
            I.missing.add("numpy")
        I.missing.add("scipy")
        return I

    def defining(I, s, g, env):
        """numbers of the defining points and the sweep of an arc"""
        out = {}
        for name in ("start", "end", "center", "prx", "pry"):
            p = part(I, s, g, name)
            if p is None or any(x is None for x in p):
                return None
            out[name] = tuple(evaluate(x, env) for x in p)
        w = rat_of(I, *attr(I, s, g, "sweep"))
        if w is None:
            return None
        out["sweep"] = evaluate(w, env)
        return out

    def walk(d, size):
        """does the sweep lead from the start to the end on the ellipse"""
        e = Ell.of(d["center"], d["prx"], d["pry"])
        if abs((d["prx"][0] - d["center"][0]) * (d["pry"][0] - d["center"][0]) + (d["prx"][1] - d["center"][1]) * (d["pry"][1] - d["center"][1])) > 1e-6 * e.a * e.b:
            return "its axes are not at right angles"
        if e.off(d["start"]) > 1e-5:
            return "the start is not on the ellipse"
        if e.off(d["end"]) > 1e-5:
            return "the end is not on the ellipse"
        z = e.at(e.t(d["start"]) + d["sweep"])
        if not near(z, d["end"], size, 1e-4):
            return "sweeping by %g from the start leads to (%g, %g) instead of the end (%g, %g)" % ((d["sweep"],) + z + d["end"])

    def small_terms(fn):
        """with large terms named early: their value is wanted, not their normal form"""
        def run(*a):
            SY.LIMIT, old = 8, SY.LIMIT
            try:
                return fn(*a)
            finally:
                SY.LIMIT = old
        return run

    # SVG parameters ------------------------------------------------------------------
    I = interp()
    for fa in (0, 1):
        for fs in (0, 1):
            for rot, sign in ((None, 0), (0, 0), (90, 0), (None, 1), (None, 2), (None, 3)):
                def svg():
                    s = I.start()
                    s, a = pt(I, s, P("s"))
                    s, z = pt(I, s, P("e"))
                    r = sym("rot") if rot is None else num(rot)
                    rs = I.run(s, I.get(s, "path", "Arc"), a, sym("a"), sym("b"), r, num(fa), num(fs), z)

                    def env(rng, k):
                        e = {x: rng.uniform(-20, 20) for x in ("sx", "sy", "ex", "ey")}
                        d = math.hypot(e["sx"] - e["ex"], e["sy"] - e["ey"])
                        e["a"] = d * math.exp(rng.uniform(-1.5, 2))
                        e["b"] = d * math.exp(rng.uniform(-1.5, 2))
                        e["rot"] = rng.uniform(-200, 400)
                        if sign & 1:
                            e["a"] = -e["a"]
                        if sign & 2:
                            e["b"] = -e["b"]
                        return e

                    def one(s2, g, env):
                        d = defining(I, s2, g, env)
                        if d is None:
                            return None
                        ph = math.radians(env["rot"] if rot is None else rot)
                        a, b = abs(env["a"]), abs(env["b"])
                        hx, hy = (env["sx"] - env["ex"]) / 2, (env["sy"] - env["ey"]) / 2
                        x1, y1 = math.cos(ph) * hx + math.sin(ph) * hy, -math.sin(ph) * hx + math.cos(ph) * hy
                        lam = (x1 / a) ** 2 + (y1 / b) ** 2
                        if abs(lam - 1) < 1e-3:
                            return None
                        k = max(1, math.sqrt(lam))
                        e = Ell.of(d["center"], d["prx"], d["pry"])
                        if not (near(d["start"], (env["sx"], env["sy"]), 20) and near(d["end"], (env["ex"], env["ey"]), 20)):
                            return False, "the ends are moved"
                        for got, want, nm in ((e.a, a * k, "rx"), (e.b, b * k, "ry")):
                            if abs(got - want) > 1e-6 * want:
                                return False, "%s is %g where %g is required" % (nm, got, want)
                        if turn(2 * (e.phi - ph)) > 1e-5:
                            return False, "rotation is %g degrees where %g is required" % (math.degrees(e.phi), math.degrees(ph))
                        w = d["sweep"]
                        if (w > 0) != bool(fs):
                            return False, "the sweep is %g with the sweep flag %d" % (w, fs)
                        if lam < 1 and (abs(w) > math.pi) != bool(fa):
                            return False, "the sweep is %g with the large arc flag %d" % (w, fa)
                        bad = walk(d, 20)
                        return (False, bad) if bad else True
                    return cover(rs, env, one, n)
                rep.each("svg", "flags %d %d rotation %s%s" % (fa, fs, "any" if rot is None else rot, ("", " rx negative", " ry negative", " both negative")[sign]), small_terms(svg))

    # points --------------------------------------------------------------------------
    kinds = kinds_of()

    def arc(I):
        s, g, _ = segment(I, I.start(), "Arc")
        return s, g

    def pair(I, s, v, env):
        r = None
        if nd.is_nd(s, v):
            r = nd.rows_of(I, s, v)
            r = r[0] if r and len(r) == 1 else r
            r = [rat_of(I, s, x) for x in r] if isinstance(r, list) else None
        else:
            r = xy(I, s, v)
        if r is None or any(x is None for x in r):
            return None
        return tuple(evaluate(x, env) for x in r)

    for numpy in (False, True):
        lib = "numpy" if numpy else "no numpy"
        I = interp(numpy)
        for kn, env in kinds.items():
            def along():
                s, g = arc(I)
                t = sym("t")
                s.facts[Poly.of(atom("t"))] = Interval(Fraction(0), Fraction(1), True, True)

                def one(s2, v, env):
                    p = pair(I, s2, v, env)
                    if p is None:
                        return None
                    e = ell_of(env)
                    q = e.at(e.t((env["sx"], env["sy"])) + env["w"] * env["t"])
                    return near(p, q, size_of(env), 1e-5), "point (%g, %g) where (%g, %g) is required" % (p + q)
                return cover(method(I, s, g, "point", t), env, one, n)
            rep.each("point", "%s %s" % (kn, lib), along)

            def several():
                s, g = arc(I)
                ts = [num(0), sym("t"), num(1)]
                s.facts[Poly.of(atom("t"))] = Interval(Fraction(0), Fraction(1), True, True)
                arg = s.list(list(ts))

                def one(s2, v, env):
                    rows = nd.rows_of(I, s2, v) if nd.is_nd(s2, v) else items(I, s2, v)
                    if rows is None:
                        return None
                    if len(rows) != 3:
                        return False, "%d points for 3 positions" % len(rows)
                    e = ell_of(env)
                    for r, u in zip(rows, (0, env["t"], 1)):
                        r = [rat_of(I, s2, x) for x in r] if isinstance(r, list) else xy(I, s2, r)
                        if r is None or any(x is None for x in r):
                            return None
                        p = tuple(evaluate(x, env) for x in r)
                        q = e.at(e.t((env["sx"], env["sy"])) + env["w"] * u)
                        if not near(p, q, size_of(env), 1e-5):
                            return False, "point at %g is (%g, %g) where (%g, %g) is required" % ((u,) + p + q)
                    return True
                return cover(method(I, s, g, "npoint", arg), env, one, n)
            rep.each("point", "several %s %s" % (kn, lib), several)

    # queries -------------------------------------------------------------------------
    I = interp()

    def query(name, args, want, env, angle=False, prop=False):
        s, g = arc(I)
        if prop:
            I.handlers = []
            rs = I.get_attr(s, g, name)
        else:
            rs = method(I, s, g, name, *args)

        def one(s2, v, env):
            e = ell_of(env)
            w = want(e, env)
            if isinstance(w, tuple):
                p = pair(I, s2, v, env)
                if p is None:
                    return None
                return near(p, w, size_of(env), 1e-5), "%s is (%g, %g) where (%g, %g) is required" % ((name,) + p + w)
            r = rat_of(I, s2, v)
            if r is None:
                return None
            r = evaluate(r, env)
            ok = turn(r - w) < 1e-5 if angle else abs(r - w) <= 1e-6 * max(1, abs(w))
            return ok, "%s is %g where %g is required" % (name, r, w)
        return cover(rs, env, one, n)
    start = lambda v: (v["sx"], v["sy"])
    end = lambda v: (v["ex"], v["ey"])
    direction = lambda c, p: math.atan2(p[1] - c[1], p[0] - c[0])

    def ray(e, ang):
        """point of the ellipse in a direction from its centre"""
        x, y = e.c[0] + math.cos(ang), e.c[1] + math.sin(ang)
        u, v = e.inv((x, y))
        k = math.hypot(u, v)
        return e.c[0] + math.cos(ang) / k, e.c[1] + math.sin(ang) / k
    ang, t = sym("ang"), sym("t")
    cases = {
        "rx": ((), lambda e, v: e.a, False, True),
        "ry": ((), lambda e, v: e.b, False, True),
        "radius": ((), lambda e, v: (e.a, e.b), False, True),
        "get_rotation": ((), lambda e, v: e.phi, True, False),
        "get_start_t": ((), lambda e, v: e.t(start(v)), True, False),
        "get_end_t": ((), lambda e, v: e.t(end(v)), True, False),
        "get_start_angle": ((), lambda e, v: direction(e.c, start(v)), True, False),
        "get_end_angle": ((), lambda e, v: direction(e.c, end(v)), True, False),
        "point_at_t": ((ang,), lambda e, v: e.at(v["ang"]), False, False),
        "point_at_angle": ((ang,), lambda e, v: ray(e, v["ang"]), False, False),
    }
    for kn in ("any", "circle", "upright"):
        for name, (args, want, angle, prop) in cases.items():
            rep.each("query", "%s of %s" % (name, kn), query, name, args, want, kinds[kn], angle, prop)

        def at_point():
            s, g = arc(I)
            s, p = pt(I, s, (R("zx"), R("zy")))

            def env(rng, k):
                v = kinds[kn](rng, k)
                v["zx"], v["zy"] = ell_of(v).at(v["ang"])
                return v

            def one(s2, v, env):
                r = rat_of(I, s2, v)
                if r is None:
                    return None
                r = evaluate(r, env)
                return turn(r - env["ang"]) < 1e-5, "t is %g where %g is required" % (r, env["ang"])
            return cover(method(I, s, g, "t_at_point", p), env, one, n)
        rep.each("query", "t_at_point of %s" % kn, at_point)

        def legacy(name, want):
            s, g = arc(I)
            I.handlers = []

            def one(s2, v, env):
                r = rat_of(I, s2, v)
                if r is None:
                    return None
                r, w = evaluate(r, env), want(env)
                return turn(math.radians(r - w)) < 1e-5, "%s is %g where %g is required" % (name, r, w)
            return cover(I.get_attr(s, g, name), kinds[kn], one, n)
        rep.each("query", "theta of %s" % kn, legacy, "theta", lambda v: math.degrees(ell_of(v).t(start(v))))
        rep.each("query", "delta of %s" % kn, legacy, "delta", lambda v: math.degrees(v["w"]))

    def ellipse(env):
        s, g = arc(I)
        out = []
        for s2, v in method(I, s, g, "get_ellipse"):
            out.append((s2, v))

        def one(s2, v, env):
            got = {}
            for nm in ("cx", "cy", "rx", "ry"):
                r = rat_of(I, *attr(I, s2, v, nm))
                if r is None:
                    return None
                got[nm] = evaluate(r, env)
            s3, m = attr(I, s2, v, "transform")
            fs = matrix_fields(I, s3, m)
            if any(x is None for x in fs):
                return None
            a, b, c, d, k, h = [evaluate(x, env) for x in fs]
            e = ell_of(env)
            for u in (0, 1, 2.5, 4):
                x, y = got["cx"] + got["rx"] * math.cos(u), got["cy"] + got["ry"] * math.sin(u)
                q = a * x + c * y + k, b * x + d * y + h
                if e.off(q) > 1e-6:
                    return False, "the ellipse passes (%g, %g), which is not on that of the arc" % q
            return True
        return cover(out, env, one, n)

    for kn in ("any", "circle", "upright"):
        rep.each("query", "get_ellipse of %s" % kn, ellipse, kinds[kn])

    def circular(want, env):
        s, g = arc(I)

        def one(s2, v, env):
            return v is want, "is_circular is %s for radii %g and %g" % (v, ell_of(env).a, ell_of(env).b)
        return cover([q for s2, v in method(I, s, g, "is_circular") for q in ([(s2, v)] if isinstance(v, Raise) else I.truth(s2, v))], env, one, n)
    rep.each("query", "is_circular of an ellipse", circular, False, kinds["any"])

    def round_env(rng, k):
        # exactly representable: the axes on the axes of the coordinate system
        r = float(rng.randint(1, 40))
        v = kinds["circle"](rng, k)
        v.update(px=1.0, py=2.0, rx=1.0 + r, ry=2.0, qx=1.0, qy=2.0 + r)
        return v
    rep.each("query", "is_circular of a circle", circular, True, round_env)

    # boxes ---------------------------------------------------------------------------
    def extremes(e, t0, w):
        xs, ys = [], []
        axx = math.atan2(-e.b * math.sin(e.phi), e.a * math.cos(e.phi))
        axy = math.atan2(e.b * math.cos(e.phi), e.a * math.sin(e.phi))
        ts = [t0, t0 + w]
        for base in (axx, axy):
            for k in range(-8, 9):
                t = base + k * math.pi
                if min(t0, t0 + w) <= t <= max(t0, t0 + w):
                    ts.append(t)
        for t in ts:
            x, y = e.at(t)
            xs.append(x)
            ys.append(y)
        return min(xs), min(ys), max(xs), max(ys)
    # the start parameter and the sweep are fixed shares of a turn, the rotation is free: how far each of
    # these is what the arc's points say is decided by the query rule
    B = interp()
    given = {}

    def fixed(name, fn):
        f, owner = B.find(B.get(B.start(), "path", "Arc"), name)
        if getattr(f, "info", None) is None:
            raise Anchor("Arc.%s" % name)
        B.hooks[f.info.qual] = fn

    def rotation(I, st, args, kw):
        (s2, f), = I.get_attr(st, I.get(st, "basic", "Angle"), "radians")
        return I.call(s2, f, [Num(R("phi"), "f")], {})
    fixed("get_rotation", rotation)
    fixed("get_start_t", lambda I, st, args, kw: [(st, Num(SY.TAU * R(Fraction(given["t0"], 360)), "f"))])

    def box(t0, w, phi, shape):
        given["t0"] = t0
        s = B.start()
        s, g = raw_segment(B, s, "Arc", seg_parts("Arc"), sweep=SY.TAU * R(Fraction(w, 360)))

        def env(rng, k):
            a = rng.uniform(0.5, 40)
            b = a if shape == "circle" else a * math.exp(rng.uniform(-2, 2))
            f = rng.uniform(-math.pi, math.pi) if phi is None else phi
            e = Ell(rng.uniform(-30, 30), rng.uniform(-30, 30), a, b, f)
            r, v = math.radians(t0), math.radians(w)
            s, z, p, q = e.at(r), e.at(r + v), e.at(0), e.at(math.pi / 2)
            return {"sx": s[0], "sy": s[1], "ex": z[0], "ey": z[1], "px": e.c[0], "py": e.c[1],
                    "rx": p[0], "ry": p[1], "qx": q[0], "qy": q[1], "phi": f}

        def one(s2, v, env):
            xs = items(B, s2, v)
            if xs is None or len(xs) != 4:
                return False, "the box is %r" % (v,)
            got = [rat_of(B, s2, x) for x in xs]
            if any(x is None for x in got):
                return None
            got = [evaluate(x, env) for x in got]
            want = extremes(ell_of(env), math.radians(t0), math.radians(w))
            for nm, a, b in zip(("xmin", "ymin", "xmax", "ymax"), got, want):
                if abs(a - b) > 1e-5 * size_of(env):
                    return False, "%s is %g where the arc reaches %g" % (nm, a, b)
            return True
        return cover(method(B, s, g, "bbox"), env, one, 2 * n)
    for t0 in (0, 17, 95, 180, 250, 355, -40) if not rep.thorough else range(-85, 360, 15):
        for w in (20, 100, 190, 340, -20, -100, -190, -340):
            rep.each("box", "from %d by %d" % (t0, w), box, t0, w, None, "ellipse")
        rep.each("box", "circle from %d by 130" % t0, box, t0, 130, None, "circle")
        for turned in (0, 90, 180, -90):
            rep.each("box", "rotation %d from %d by -130" % (turned, t0), box, t0, -130, math.radians(turned), "ellipse")

    # replacing an arc by curves ---------------------------------------------------------
    def bez(ps, t):
        m = len(ps) - 1
        return tuple(sum(math.comb(m, k) * p[ax] * t ** k * (1 - t) ** (m - k) for k, p in enumerate(ps)) for ax in (0, 1))

    def curves(name, count, fixed, env):
        s = I.start()
        s, g = raw_segment(I, s, "Arc", seg_parts("Arc"), sweep=R("w") if fixed is None else R(fixed))
        out = []
        args = (num(count),) if count is not None else ()
        for s2, v in method(I, s, g, name, *args):
            if isinstance(v, Raise):
                out.append((s2, v))
            else:
                out.extend(do(I, s2, "enum_list", v))

        def one(s2, v, env):
            gs = items(I, s2, v)
            if gs is None:
                return None
            e, sz = ell_of(env), size_of(env)
            w = env["w"]
            m = len(gs)
            if count is not None and m != count:
                return False, "%d curves for %d" % (m, count)
            t0 = e.t(start(env))
            last = start(env)
            fine = abs(w) / m <= TAU / 12 + 1e-9
            if count is None and not fine:
                return False, "only %d curves for a sweep of %g" % (m, w)
            for k, c in enumerate(gs):
                kind = kind_of(s2, c)
                want = "CubicBezier" if "cubic" in name else "QuadraticBezier"
                if kind != want:
                    return False, "a %s instead of a %s" % (kind, want)
                ps = []
                for nm in FIELDS_OF[kind]:
                    q = part(I, s2, c, nm)
                    if q is None or any(x is None for x in q):
                        return None
                    ps.append(tuple(evaluate(x, env) for x in q))
                if not near(ps[0], last, sz, 1e-5):
                    return False, "curve %d starts at (%g, %g) instead of (%g, %g)" % ((k,) + ps[0] + last)
                to = e.at(t0 + w * (k + 1) / m) if k < m - 1 else end(env)
                if not near(ps[-1], to, sz, 1e-5):
                    return False, "curve %d ends at (%g, %g) instead of (%g, %g)" % ((k,) + ps[-1] + to)
                if fine:
                    for u in (0.25, 0.5, 0.75):
                        q = bez(ps, u)
                        r = e.at(t0 + w * (k + u) / m)
                        d = e.off(q)
                        if d > (1e-4 if kind == "CubicBezier" else 1e-2):
                            return False, "curve %d leaves the ellipse by %g of its radius" % (k, d)
                        a, b = e.inv(q), e.inv(r)
                        if math.hypot(a[0] - b[0], a[1] - b[1]) > 0.05:
                            return False, "curve %d is elsewhere on the ellipse" % k
                last = ps[-1]
            return True
        return cover(out, env, one, n)
    FIELDS_OF = {"CubicBezier": ("start", "control1", "control2", "end"), "QuadraticBezier": ("start", "control", "end")}
    for name in ("as_cubic_curves", "as_quad_curves"):
        for count in (1, 2, 3, 12):
            for kn in ("any", "upright"):
                if count < 12 or kn == "any":
                    rep.each("curves", "%s %d %s" % (name, count, kn), small_terms(curves), name, count, None, kinds[kn])
        for w in (Fraction(1, 2), Fraction(-1, 4), Fraction(-4, 3), 2):
            rep.each("curves", "%s for a sweep of %s" % (name, w), small_terms(curves), name, None, w, arc_env(quarter=float(w)))

    # moving and turning round -------------------------------------------------------------
    def moved(matrix, env):
        s, g = arc(I)
        fs = [R(x) if isinstance(x, (str, int)) else x for x in matrix]
        ms = I.run(s, I.get(s, "basic", "Matrix"), *[Num(f, "f") for f in fs])
        (s, m), = ms
        t = sym("t")
        s.facts[Poly.of(atom("t"))] = Interval(Fraction(0), Fraction(1), True, True)
        out = []
        for s2, g2 in do(I, s, "mul", g, m):
            out.extend([(s2, g2)] if isinstance(g2, Raise) else method(I, s2, g2, "point", t))

        def one(s2, v, env):
            p = pair(I, s2, v, env)
            if p is None:
                return None
            e = ell_of(env)
            x, y = e.at(e.t((env["sx"], env["sy"])) + env["w"] * env["t"])
            a, b, c, d, k, h = [evaluate(f, env) for f in fs]
            q = a * x + c * y + k, b * x + d * y + h
            return near(p, q, max(size_of(env), abs(q[0]), abs(q[1])), 1e-5), "the point moves to (%g, %g) where (%g, %g) is required" % (p + q)
        return cover(out, env, one, n)

    def with_matrix(base):
        def env(rng, k):
            v = base(rng, k)
            for x in "abcd":
                v["m" + x] = rng.choice((-1, 1)) * rng.uniform(0.2, 3)
            v["mk"], v["mh"] = rng.uniform(-20, 20), rng.uniform(-20, 20)
            return v
        return env
    for mn, m in {"shift": (1, 0, 0, 1, "mk", "mh"), "turn and scale": ("ma", "mb", -R("mb"), "ma", "mk", "mh"), "mirror": ("ma", "mb", "mb", -R("ma"), "mk", "mh"),
                  "flip x": (-1, 0, 0, 1, "mk", 0), "flip y": (1, 0, 0, -1, 0, "mh"), "quarter": (0, 1, -1, 0, 0, 0)}.items():
        for kn in ("any", "circle"):
            rep.each("moved", "%s by %s" % (kn, mn), small_terms(moved), m, with_matrix(kinds[kn]))
    for mn, m in {"scale": ("ma", 0, 0, "md", "mk", "mh"), "scale and swap": (0, "mb", "mc", 0, "mk", "mh")}.items():
        rep.each("moved", "upright by %s" % mn, small_terms(moved), m, with_matrix(kinds["upright"]))
    rep.each("moved", "any by skew", small_terms(moved), (1, 0, "mc", 1, 0, 0), with_matrix(kinds["any"]))

    def turned(env):
        s, g = arc(I)
        t = sym("t")
        s.facts[Poly.of(atom("t"))] = Interval(Fraction(0), Fraction(1), True, True)
        out = []
        for s2, v in method(I, s, g, "reverse"):
            out.extend([(s2, v)] if isinstance(v, Raise) else method(I, s2, g, "point", t))

        def one(s2, v, env):
            p = pair(I, s2, v, env)
            if p is None:
                return None
            e = ell_of(env)
            q = e.at(e.t((env["sx"], env["sy"])) + env["w"] * (1 - env["t"]))
            return near(p, q, size_of(env), 1e-5), "point (%g, %g) where (%g, %g) is required" % (p + q)
        return cover(out, env, one, n)
    for kn, env in kinds.items():
        rep.each("moved", "%s reversed" % kn, small_terms(turned), env)

    # other measures -----------------------------------------------------------------------
    def built(kw, extra, positional=(), env=None, want=None):
        s = I.start()
        kv, args = {}, []
        for nm, v in kw.items():
            if isinstance(v, str):
                s, v = pt(I, s, P(v))
            elif isinstance(v, bool):
                v = Const(v)
            kv[nm] = v
        for v in positional:
            s, v = pt(I, s, P(v))
            args.append(v)
        rs = I.run(s, I.get(s, "path", "Arc"), *args, **kv)

        def one(s2, g, env):
            d = defining(I, s2, g, env)
            if d is None:
                return None
            sz = size_of(env)
            bad = walk(d, sz)
            if bad:
                return False, bad
            for nm, v in list(kw.items()) + list(zip(("start", "end", "center"), positional)):
                if isinstance(v, str) and nm in d and not near(d[nm], (env[v + "x"], env[v + "y"]), sz, 1e-5):
                    return False, "%s is (%g, %g) where (%g, %g) was given" % ((nm,) + d[nm] + (env[v + "x"], env[v + "y"]))
            bad = want(d, Ell.of(d["center"], d["prx"], d["pry"]), env)
            return (False, bad) if bad else True
        return cover(rs, env, one, n)

    def on_ellipse(d, e, v):
        r = ell_of(v)
        for got, w, nm in ((e.a, r.a, "rx"), (e.b, r.b, "ry")):
            if abs(got - w) > 1e-5 * w:
                return "%s is %g where %g is required" % (nm, got, w)
        if not near(e.c, r.c, size_of(v), 1e-5):
            return "centre (%g, %g) where (%g, %g) is required" % (e.c + r.c)

    def turning(sign):
        def f(d, e, v):
            if d["sweep"] * sign < -1e-9 or abs(d["sweep"]) > TAU + 1e-9:
                return "the sweep is %g" % d["sweep"]
            return on_ellipse(d, e, v)
        return f

    def swept(d, e, v):
        if abs(d["sweep"] - v["w"]) > 1e-5:
            return "the sweep is %g where %g was given" % (d["sweep"], v["w"])
        return on_ellipse(d, e, v)

    def through(point):
        def f(d, e, v):
            c = point(v)
            if abs(e.a - e.b) > 1e-5 * e.a:
                return "the arc is not circular"
            if e.off(c) > 1e-5:
                return "it does not pass (%g, %g)" % c
            u = math.fmod((e.t(c) - e.t(d["start"])) * (1 if d["sweep"] > 0 else -1), TAU)
            if u < 0:
                u += TAU
            if u > abs(d["sweep"]) + 1e-6:
                return "it passes (%g, %g) on the other side" % c
        return f

    def mid_env(rng, k):
        v = kinds["circle"](rng, k)
        e = ell_of(v)
        v["cx"], v["cy"] = e.at(e.t(start(v)) + v["w"] * rng.uniform(0.1, 0.9))
        v["g"] = rng.choice((-1, 1)) * rng.uniform(0.05, 4)
        return v

    def bulged(depth):
        def f(v):
            s, z = start(v), end(v)
            L = math.hypot(z[0] - s[0], z[1] - s[1])
            h = depth(v, L)
            a = math.atan2(z[1] - s[1], z[0] - s[0]) - TAU / 4
            return (s[0] + z[0]) / 2 + h * math.cos(a), (s[1] + z[1]) / 2 + h * math.sin(a)
        return f

    def radius_env(rng, k):
        v = kinds["circle"](rng, k)
        L = math.hypot(v["sx"] - v["ex"], v["sy"] - v["ey"])
        v["g"] = L * rng.uniform(0.52, 3)
        return v

    def of_radius(sign):
        def f(d, e, v):
            if abs(e.a - v["g"]) > 1e-5 * v["g"] or abs(e.b - v["g"]) > 1e-5 * v["g"]:
                return "radii %g, %g where %g was given" % (e.a, e.b, v["g"])
            if sign and d["sweep"] * sign < 0:
                return "the sweep is %g" % d["sweep"]
        return f

    def quarter(sign):
        def f(d, e, v):
            if abs(d["sweep"] - sign * TAU / 4) > 1e-9:
                return "the sweep is %g" % d["sweep"]
            for got, w, nm in ((e.a, abs(v["sx"] - v["ex"]), "rx"), (e.b, abs(v["sy"] - v["ey"]), "ry")):
                if abs(got - w) > 1e-5 * w:
                    return "%s is %g where %g is required" % (nm, got, w)
        return f

    def corner(rng, k):
        v = {x: rng.uniform(-20, 20) for x in ("sx", "sy", "ex", "ey")}
        v["a"], v["b"] = abs(v["sx"] - v["ex"]), abs(v["sy"] - v["ey"])
        return v

    def measured(base):
        def env(rng, k):
            v = base(rng, k)
            e = ell_of(v)
            v["a"], v["b"], v["rot"] = e.a, e.b, e.phi
            v["x1"], v["x2"], v["y1"], v["y2"] = e.c[0] - e.a, e.c[0] + e.a, e.c[1] - e.b, e.c[1] + e.b
            return v
        return env
    circ, el = kinds["circle"], kinds["any"]
    up = measured(kinds["upright"])
    aa, bb, rot = sym("a"), sym("b"), sym("rot")
    sides = dict(left=sym("x1"), right=sym("x2"), top=sym("y1"), bottom=sym("y2"))
    w, gg = sym("w"), sym("g")
    cases = {
        "start, end, center": (dict(start="s", end="e", center="p"), circ, turning(1)),
        "start, end, center, clockwise": (dict(start="s", end="e", center="p", ccw=False), circ, turning(1)),
        "start, end, center, counterclockwise": (dict(start="s", end="e", center="p", ccw=True), circ, turning(-1)),
        "start, end, center, prx, pry": (dict(start="s", end="e", center="p", prx="r", pry="q"), el, turning(1)),
        "start, end, center, prx, pry, counterclockwise": (dict(start="s", end="e", center="p", prx="r", pry="q", ccw=True), el, turning(-1)),
        "start, center, prx, pry, sweep": (dict(start="s", center="p", prx="r", pry="q", sweep=w), el, swept),
        "end, center, prx, pry, sweep": (dict(end="e", center="p", prx="r", pry="q", sweep=w), el, swept),
        "start, center, sweep": (dict(start="s", center="p", sweep=w), circ, swept),
        "end, center, sweep": (dict(end="e", center="p", sweep=w), circ, swept),
        "start, end, control": (dict(start="s", end="e", control="c"), mid_env, through(lambda v: (v["cx"], v["cy"]))),
        "start, end, bulge": (dict(start="s", end="e", bulge=gg), mid_env, through(bulged(lambda v, L: v["g"] * L / 2))),
        "start, end, sagitta": (dict(start="s", end="e", sagitta=gg), mid_env, through(bulged(lambda v, L: v["g"]))),
        "start, end, center, rx, ry": (dict(start="s", end="e", center="p", rx=aa, ry=bb), up, turning(1)),
        "start, end, center, rx, ry, rotation": (dict(start="s", end="e", center="p", rx=aa, ry=bb, rotation=rot), measured(el), turning(1)),
        "start, end, center, rx, ry, rotation, counterclockwise": (dict(start="s", end="e", center="p", rx=aa, ry=bb, rotation=rot, ccw=True), measured(el), turning(-1)),
        "start, center, rx, ry, rotation, sweep": (dict(start="s", center="p", rx=aa, ry=bb, rotation=rot, sweep=w), measured(el), swept),
        "start, center, rx, ry, sweep": (dict(start="s", center="p", rx=aa, ry=bb, sweep=w), up, swept),
        "start, center, r, sweep": (dict(start="s", center="p", r=aa, sweep=w), measured(circ), swept),
        "start, end, sides": (dict(start="s", end="e", **sides), up, turning(1)),
        "start, sides, sweep": (dict(start="s", sweep=w, **sides), up, swept),
        "end, sides, sweep": (dict(end="e", sweep=w, **sides), up, swept),
        "start, end, rx, ry": (dict(start="s", end="e", rx=aa, ry=bb), corner, quarter(1)),
        "start, end, rx, ry, scooped": (dict(start="s", end="e", rx=aa, ry=bb, scooped=True), corner, quarter(-1)),
        "start, end, r": (dict(start="s", end="e", r=gg), radius_env, of_radius(0)),
        "start, end, r, counterclockwise": (dict(start="s", end="e", r=gg, ccw=True), radius_env, of_radius(-1)),
    }
    for cn, (kw, env, want) in cases.items():
        rep.each("built", cn, small_terms(built), kw, (), (), env, want)
        if "start" in kw and "end" in kw:
            rest = {k: v for k, v in kw.items() if k not in ("start", "end")}
            rep.each("built", cn + " (ends positional)", small_terms(built), rest, (), ("s", "e"), env, want)
