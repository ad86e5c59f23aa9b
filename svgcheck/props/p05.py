"""P05: coherence of ==, != and hash.  Both operators are interpreted on symbolic operands; the
branches of == are refined and != has to contradict each of them.  For every component of a value,
two values differing in that component only must not be reported equal."""
from ..objects import *

RANGE = 1e-3


def truths(I, rs):
    """[(state, True/False/None)] of a list of outcomes"""
    out = []
    for s, v in rs:
        if isinstance(v, Raise):
            out.append((s, v))
            continue
        for s2, b in I.truth(s, v):
            out.append((s2, b))
    return out


def as_bool(b):
    if isinstance(b, bool):
        return b
    if isinstance(b, Const):
        return b.v
    return b


def opposite(I, s, a, b):
    """!= contradicts == on every branch"""
    eqs = truths(I, do(I, s, "equal", a, b))
    if not eqs:
        return None, "no outcome"
    res = True, ""
    for s1, e in eqs:
        e = as_bool(e)
        if not feasible(s1):
            continue
        nes = truths(I, do(I, s1, "unequal", a, b))
        if not nes:
            return None, "no outcome of !="
        for s2, n in nes:
            n = as_bool(n)
            if not feasible(s2):
                continue
            if isinstance(e, Raise) or isinstance(n, Raise):
                if isinstance(e, Raise) and isinstance(n, Raise) and e.name == n.name:
                    continue
                return False, "== gives %s but != gives %s" % (e, n), (n if isinstance(n, Raise) else e).where
            if e == n:
                env = sample_env(s2, [], random.Random(5))
                return False, "== and != both give %s%s" % (e, facts_note(s2))
    return res


def check(rep):
    rep.rule("opposite", "a != b is the opposite of a == b", 120)
    rep.rule("foreign", "== and != agree about values of other types", 80)
    rep.rule("component", "values that differ in one component are not equal", 70)
    rep.rule("reflexive", "a value equals one built from the same components, and != says so", 12)
    rep.rule("symmetric", "a == b and b == a agree", 18)
    rep.rule("hash", "equal values have equal hashes where they have any", 12)
    I = ops(rep.interp())
    types = value_types()
    plain = lambda l: l
    other = lambda l: "z" + l

    for name, (labels, make) in types.items():
        def two(fa, fb):
            s = I.start()
            s, a = make(I, s, fa)
            s, b = make(I, s, fb)
            return s, a, b

        def opp():
            return opposite(I, *two(plain, other))
        rep.each("opposite", "%s, %s" % (name, name), opp)
        for l in labels if rep.thorough else labels[:2] + labels[-1:]:
            def opp1():
                return opposite(I, *two(plain, lambda x: "z" + x if x == l else x))
            rep.each("opposite", "%s differing in %s" % (name, l), opp1)

        def refl():
            s, a, b = two(plain, plain)
            for q in ("equal", "unequal"):
                for s2, t in truths(I, do(I, s, q, a, b)):
                    t = as_bool(t)
                    if not feasible(s2):
                        continue
                    if isinstance(t, Raise):
                        return False, "%s raises %s" % (q, t.name), t.where
                    if t != (q == "equal"):
                        return False, "%s values with the same components: %s" % (q, t)
            return True
        if name != "Viewbox":
            rep.each("reflexive", name, refl)

        def symm():
            s, a, b = two(plain, other)
            for s1, e in truths(I, do(I, s, "equal", a, b)):
                e = as_bool(e)
                if isinstance(e, Raise) or not feasible(s1):
                    continue
                for s2, n in truths(I, do(I, s1, "equal", b, a)):
                    n = as_bool(n)
                    if isinstance(n, Raise) or n == e:
                        continue
                    if feasible(s2):
                        return False, "a == b is %s but b == a is %s%s" % (e, n, facts_note(s2))
            return True
        rep.each("symmetric", name, symm)

        for l in labels:
            def comp():
                s, a, b = two(plain, lambda x: "z" + x if x == l else x)
                pre = "int:" if name == "Color" else ""
                res = None, "never equal"
                n = 0
                for s1, e in truths(I, do(I, s, "equal", a, b)):
                    if as_bool(e) is not True:
                        n += as_bool(e) is False
                        continue
                    def near(env):
                        d = abs(env[pre + l] - env[pre + "z" + l])
                        if name == "Angle":
                            d = min(d % math.tau, -d % math.tau)
                        return d <= RANGE
                    k = always(s1, near, [R(pre + l), R(pre + "z" + l)], n=20)
                    if k is False:
                        return False, "reported equal although %s differs%s" % (l, facts_note(s1))
                    n += 1
                return (True, "") if n else res
            if name != "Viewbox":
                rep.each("component", "%s %s" % (name, l), comp)

        for l in (labels[0], labels[-1]):
            for d in (13, 11, 9, 6, 3, 0):
                def step():
                    return opposite(I, *two(plain, lambda x: R(x) + R(Fraction(1, 10 ** d)) if x == l else x))
                if name not in ("Color", "Viewbox"):
                    rep.each("opposite", "%s, %s larger by 1e-%d" % (name, l, d), step)

        def hashes():
            s, a, b = two(plain, lambda x: R(x) + R(Fraction(1, 10 ** 13)) if name not in ("Color", "Viewbox") else x)
            ha = do(I, s, "hashed", a)
            if all(isinstance(v, Raise) and v.name == "TypeError" for _, v in ha):
                return True
            res = True, ""
            for s1, e in truths(I, do(I, s, "equal", a, b)):
                if as_bool(e) is not True:
                    continue
                for s2, x in do(I, s1, "hashed", a):
                    for s3, y in do(I, s2, "hashed", b):
                        if isinstance(x, Raise) or isinstance(y, Raise):
                            return False, "hashing raises %s" % x
                        if x != y and not same_key(s3, x, y):
                            if feasible(s3):
                                return False, "equal values hash differently: %s, %s%s" % (short(x), short(y), facts_note(s3))
            return res
        rep.each("hash", name, hashes)

        def samehash():
            s, a, b = two(plain, plain)
            for s1, x in do(I, s, "hashed", a):
                if isinstance(x, Raise):
                    continue
                for s2, y in do(I, s1, "hashed", b):
                    if isinstance(y, Raise) or x != y and not same_key(s2, x, y):
                        if feasible(s2):
                            return False, "the same components hash differently: %s, %s" % (short(x), short(y))
            return True
        if name != "Viewbox":
            rep.each("hash", name + ", same components", samehash)

    # values of other types
    foreign = {
        "None": lambda I, s: (s, NONE),
        "int": lambda I, s: (s, num(3)),
        "float": lambda I, s: (s, num(2.5)),
        "text": lambda I, s: (s, Const("foo")),
        "number text": lambda I, s: (s, Const("3")),
        "tuple": lambda I, s: (s, Tup((num(1), num(2)))),
        "empty tuple": lambda I, s: (s, Tup(())),
        "complex": lambda I, s: (s, Cx(R(1), R(2))),
        "list": lambda I, s: (s, s.list([])),
    }
    for name, (labels, make) in types.items():
        for fn, fm in foreign.items():
            def f():
                s, a = make(I, I.start(), plain)
                s, b = fm(I, s)
                return opposite(I, s, a, b)
            rep.each("foreign", "%s, %s" % (name, fn), f)
            if rep.thorough:
                def g():
                    s, a = make(I, I.start(), plain)
                    s, b = fm(I, s)
                    return opposite(I, s, b, a)
                rep.each("foreign", "%s, %s" % (fn, name), g)
        for name2, (labels2, make2) in types.items():
            if name2 == name or name.split()[0] == name2.split()[0] == "Length" and not rep.thorough:
                continue
            if not rep.thorough and (len(labels) > 8 and len(labels2) > 8) and {name, name2} != {"Path", "Subpath"}:
                continue
            def h():
                s, a = make(I, I.start(), plain)
                s, b = make2(I, s, other)
                return opposite(I, s, a, b)
            rep.each("opposite", "%s, %s" % (name, name2), h)
    # lengths in different units
    for u, v in (("px", "mm"), ("px", "pt"), ("mm", "in"), ("mm", "cm"), ("%", "px"), ("em", "ex"), ("pc", "pt"), ("", "px")):
        def f():
            s = I.start()
            s, a = new(I, s, "basic", "Length", sym("v"), Const(u))
            s, b = new(I, s, "basic", "Length", sym("zv"), Const(v))
            return opposite(I, s, a, b)
        rep.each("opposite", "Length %s, %s" % (u, v), f)
    for k, seg in enumerate(("Move", "Line", "QuadraticBezier")):
        def f():
            s = I.start()
            s, a = path_of(I, s, chain(("Move", "Line", "QuadraticBezier", "Close")))
            s, b = path_of(I, s, chain(("Move", "Line", "QuadraticBezier", "Close")[: k + 1]))
            for q, w in (("equal", False), ("unequal", True)):
                for x, y in ((a, b), (b, a)):
                    for s2, t in truths(I, do(I, s, q, x, y)):
                        if as_bool(t) is not w and feasible(s2):
                            return False, "%s paths of different length: %s" % (q, t)
            return True
        rep.each("component", "Path length %d" % (k + 1), f)

        def g():
            """a window against longer, shorter and equal paths and windows"""
            s = I.start()
            s, p = path_of(I, s, chain(("Move", "Line", "QuadraticBezier", "Move", "Line", "Close")))
            s, a = subpath_of(I, s, p, 0)
            s, b = path_of(I, s, chain(("Move", "Line", "QuadraticBezier", "Line")[: (k + 2) if k else 1]))
            if k == 1:
                s, b = path_of(I, s, chain(("Move", "Line", "QuadraticBezier", "Line")))
            elif k == 2:
                s, q = path_of(I, s, chain(("Move", "Line", "QuadraticBezier", "Line", "Move")))
                s, b = subpath_of(I, s, q, 0)
            for q, w in (("equal", False), ("unequal", True)):
                for x, y in ((a, b), (b, a)):
                    for s2, t in truths(I, do(I, s, q, x, y)):
                        if not isinstance(t, Raise) and as_bool(t) is not w and feasible(s2):
                            return False, "%s, a window and a sequence of different length: %s" % (q, t)
            return True
        rep.each("component", "Subpath length %d" % k, g)

    def none_color():
        s = I.start()
        s, a = new(I, s, "basic", "Color", "none")
        s, b = types["Color"][1](I, s, plain)
        for x, y in ((a, b), (b, a)):
            for s2, t in truths(I, do(I, s, "equal", x, y)):
                if as_bool(t) is not False:
                    return False, "no colour equals a colour"
        return opposite(I, s, a, b)
    rep.each("component", "Color none", none_color)


def same_key(s, x, y):
    def norm(v):
        if isinstance(v, Num):
            return ("n", s.norm(v.r))
        if isinstance(v, Tup):
            return ("t",) + tuple(norm(i) for i in v.items)
        if isinstance(v, Opaque):
            return ("o", v.t) + tuple(norm(i) for i in v.key) if isinstance(v.key, tuple) else ("o", v.key)
        return v
    return norm(x) == norm(y)
