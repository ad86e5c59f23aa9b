"""Construction and observation of library objects in abstract stores, public names only."""
from .frame import *
from .spec import *


def attr(I, s, v, name):
    """single-outcome attribute read -> (state, value|Raise)"""
    rs = I.get_attr(s.fork(), v, name)
    if len(rs) != 1:
        raise AnalysisLimit("reading %s has %d outcomes" % (name, len(rs)))
    return rs[0]


def matrix_fields(I, s, m):
    out = []
    for n in "abcdef":
        s2, v = attr(I, s, m, n)
        out.append(None if isinstance(v, Raise) else rat_of(I, s2, v))
    return out


def cmp_rats(s, names, got, want, **kw):
    res = True, ""
    for n, g, w in zip(names, got, want):
        if g is None:
            return None, "%s is not a closed form" % n
        r = same(s, g, R(w), **kw)
        if r is False:
            return False, "%s = %r where %r is required%s" % (n, g, R(w), facts_note(s))
        if r is None:
            res = None, "%s undecided" % n
    return res


def facts_note(s):
    out = []
    for p, iv in list(s.facts.items())[:4]:
        out.append("%r in %r" % (p, iv))
    for a, v in list(s.sub.items())[:4]:
        out.append("%r = %r" % (a, v))
    return " (when %s)" % ", ".join(out) if out else ""


def cmp_matrix(I, s, m, want):
    return cmp_rats(s, "abcdef", matrix_fields(I, s, m), want)


def is_a(I, s, v, cls):
    """is v an instance of the repository class with this name"""
    return isinstance(v, Ref) and isinstance(s.o(v).cls, ClassVal) and any(
        isinstance(c, ClassVal) and c.name == cls for c in s.o(v).cls.mro
    )


def kind_of(s, v):
    if isinstance(v, Ref):
        return getattr(s.o(v).cls, "name", None)
    return None


def xy(I, s, p):
    """coordinates of a Point -> (rat, rat) or None"""
    if not isinstance(p, Ref):
        if isinstance(p, Cx):
            return s.norm(p.re), s.norm(p.im)
        return None
    out = []
    for n in ("x", "y"):
        s2, v = attr(I, s, p, n)
        if isinstance(v, Raise):
            return None
        r = rat_of(I, s2, v)
        if r is None:
            return None
        out.append(r)
    return tuple(out)


def cmp_point(I, s, p, want, name="point"):
    g = xy(I, s, p)
    if g is None:
        return False if isinstance(p, (Const, Raise)) else None, "%s is %r" % (name, p)
    return cmp_rats(s, (name + ".x", name + ".y"), g, want)


def all_outcomes(rs, fn, allow=()):
    """combine a judgement over every outcome; exceptions not allowed are violations"""
    if not rs:
        return None, "no outcome"
    res = True, ""
    for s, v in rs:
        if isinstance(v, Raise):
            if v.name in allow:
                continue
            if not feasible(s):
                continue
            return False, "raises %s %s%s" % (v.name, [a for a in v.exc.args][:1], facts_note(s)), v.where
        r = fn(s, v)
        if not isinstance(r, tuple):
            r = (r, "")
        if r[0] is False:
            if not feasible(s):
                res = None, "infeasible partition?"
                continue
            return r
        if r[0] is None and res[0] is True:
            res = r
    return res


def new(I, s, module, cls, *args, **kw):
    rs = I.run(s, I.get(s, module, cls), *args, **kw)
    ok = [(x, v) for x, v in rs if not isinstance(v, Raise)]
    if len(ok) != 1:
        raise AnalysisLimit("constructing %s.%s gave %d outcomes %s" % (module, cls, len(ok), [v for _, v in rs if isinstance(v, Raise)][:1]))
    return ok[0]


def matrix(I, s, pre=""):
    """Matrix of six independent numbers -> (state, ref, Aff)"""
    ns = [sym(pre + n) for n in "abcdef"]
    s, m = new(I, s, "basic", "Matrix", *ns)
    return s, m, Aff(*[n.r for n in ns])


def point(I, s, x, y):
    X = sym(x) if isinstance(x, str) else Num(R(x), "f")
    Y = sym(y) if isinstance(y, str) else Num(R(y), "f")
    return new(I, s, "basic", "Point", X, Y)


def method(I, s, recv, name, *args, **kw):
    """call a method by public name; the receiver may also be a class"""
    I.handlers = []
    I.depth = 0
    I.callstack = []
    I.steps = 0
    args = [I.wrap(a) for a in args]
    kw = {k: I.wrap(v) for k, v in kw.items()}
    out = []
    for s2, f in I.get_attr(s.fork(), recv, name):
        if isinstance(f, Raise):
            out.append((s2, f))
        else:
            out.extend(I.call(s2, f, list(args), kw))
    return out


def op(I, s, name, l, r):
    I.handlers = []
    I.depth = 0
    I.callstack = []
    I.steps = 0
    return I.binop(s.fork(), name, I.wrap(l), I.wrap(r))


def iop(I, s, name, l, r):
    I.handlers = []
    I.depth = 0
    I.callstack = []
    I.steps = 0
    return I.inplace(s.fork(), name, I.wrap(l), I.wrap(r))
