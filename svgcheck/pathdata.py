"""Specification of SVG path data: commands, argument shapes, expected operations."""
from .helpers import *
from .harness import TARGET
from . import models as M

# letter -> (operation, argument shape): p a point, n a number, f a flag, x/y one coordinate
COMMANDS = {
    "m": ("move", "p"),
    "l": ("line", "p"),
    "h": ("horizontal", "x"),
    "v": ("vertical", "y"),
    "c": ("cubic", "ppp"),
    "s": ("smooth_cubic", "pp"),
    "q": ("quad", "pp"),
    "t": ("smooth_quad", "p"),
    "a": ("arc", "nnnffp"),
    "z": ("closed", ""),
}
LETTERS = [c for l in COMMANDS for c in (l.upper(), l)]


class Builder:
    """builds a path text of literal tokens together with the operations it must produce"""

    def __init__(self, sep=" ", compact=False, neg=False, tight=False):
        self.ps = []
        self.n = 0
        self.ops = []
        self.cur = None
        self.first = None
        self.sep = sep
        self.compact = compact
        self.neg = neg
        self.tight = tight

    def num(self):
        self.n += 1
        x = sym("u%d" % self.n)
        if self.neg:
            self.ps += ["-", NumPiece("lit", x)]
            return -x.r
        self.ps.append(NumPiece("lit", x))
        return x.r

    def command(self, letter, groups=1, flags=((0, 1),), letter_every=False):
        op, shape = COMMANDS[letter.lower()]
        rel = letter.islower()
        if self.ps and not self.tight:
            self.ps.append(" ")
        self.ps.append(letter)
        if not self.tight:
            self.ps.append(" ")
        if op == "closed":
            self.ops.append(("closed", [], rel))
            self.cur = self.first
            return self
        for g in range(groups):
            if g:
                self.ps.append(self.sep)
            cur = self.cur
            off = cur if rel and cur is not None else (R(0), R(0))
            args = []
            fl = flags[g % len(flags)]
            nf = 0
            first = True
            for ch in shape:
                if not first:
                    self.ps.append("" if self.compact and nf and ch in "fp" else " " if ch == "f" and not self.sep else self.sep)
                first = False
                if ch == "p":
                    a = self.num()
                    self.ps.append(self.sep)
                    b = self.num()
                    args.append((a + off[0], b + off[1]))
                elif ch == "x":
                    args.append((self.num() + off[0], cur[1]))
                elif ch == "y":
                    args.append((cur[0], self.num() + off[1]))
                elif ch == "n":
                    args.append(self.num())
                else:
                    self.ps.append(str(fl[nf]))
                    args.append(bool(fl[nf]))
                    nf += 1
            name = "line" if op == "move" and g else op
            self.ops.append((name, args, rel))
            self.cur = args[-1]
            if name == "move":
                self.first = self.cur
        return self

    def raw(self, t):
        self.ps.append(t)
        return self

    def text(self):
        return M.mktext(self.ps)


def harness(I):
    I.add_module("_target", TARGET)
    return I


def drive(I, text):
    st = I.start()
    return I.run(st, I.get(st, "_target", "drive"), text)


def items(I, s, v):
    if isinstance(v, Ref) and s.o(v).items is not None:
        return list(s.o(v).items)
    if isinstance(v, Tup):
        return list(v.items)
    return None


def flag_of(I, s, v):
    v = I.resolve(s, v)
    if isinstance(v, Const) and (isinstance(v.v, bool) or v.v is None):
        return bool(v.v)
    r = rat_of(I, s, v)
    if r is not None and r.cval() is not None:
        return bool(r.cval())
    return None


def cmp_number(s, name, got, want):
    if got is None:
        return None, "%s is not a closed form" % name
    r = same(s, got, R(want))
    return r, "" if r else "%s is %r where %r is written" % (name, got, R(want))


def cmp_log(I, s, log, want, label=""):
    rows = items(I, s, log)
    if rows is None:
        return None, "log is %r" % log
    names = []
    for r in rows:
        names.append(items(I, s, r)[0])
    if any(not isinstance(n, Const) for n in names):
        return None, "operations unknown"
    if [n.v for n in names] != [w[0] for w in want]:
        return False, "the target receives %s where %s is written" % ([n.v for n in names], [w[0] for w in want])
    res = True, ""
    for k, (row, (name, args, rel)) in enumerate(zip(rows, want)):
        _, ps, r = items(I, s, row)
        ps = items(I, s, ps)
        f = flag_of(I, s, r)
        if f is None:
            res = None, "relative flag unknown"
        elif f != rel:
            return False, "%s #%d is flagged relative=%s" % (name, k, f)
        if len(ps) != len(args):
            return False, "%s #%d has %d arguments, %d written" % (name, k, len(ps), len(args))
        for j, (p, a) in enumerate(zip(ps, args)):
            nm = "%s #%d argument %d" % (name, k, j)
            if isinstance(a, tuple):
                q = cmp_point(I, s, p, a, nm)
            elif isinstance(a, bool):
                t = flag_of(I, s, p)
                q = (None, nm) if t is None else (t == a, "%s is %s where %d is written" % (nm, t, a))
            else:
                q = cmp_number(s, nm, rat_of(I, s, p), a)
            if q[0] is False:
                return q
            if q[0] is None:
                res = q
    return res


# ------------------------------------------------------------------ segments in abstract stores

PARTS = {
    "Move": ("start", "end"),
    "Line": ("start", "end"),
    "Close": ("start", "end"),
    "QuadraticBezier": ("start", "control", "end"),
    "CubicBezier": ("start", "control1", "control2", "end"),
    "Arc": ("start", "end", "center", "prx", "pry"),
}
NARGS = {"Move": 2, "Line": 2, "Close": 2, "QuadraticBezier": 3, "CubicBezier": 4, "Arc": 5}


def P(name):
    """coordinates of a symbolic point"""
    return R(name + "x"), R(name + "y")


def pt(I, s, c):
    """a Point object with the given coordinates"""
    return new(I, s, "basic", "Point", Num(c[0], "f"), Num(c[1], "f"))


def raw_segment(I, s, kind, parts, sweep=None, **flags):
    """construct a segment from coordinate pairs (None allowed)"""
    refs = []
    for c in parts:
        if c is None:
            refs.append(NONE)
        else:
            s, p = pt(I, s, c)
            refs.append(p)
    if kind == "Arc":
        refs.append(Num(sweep, "f"))
    rs = I.run(s, I.get(s, "path", kind), *refs, **{k: Const(v) for k, v in flags.items()})
    return only(rs)


def length_of(I, s, path):
    s, n = only(method(I, s, path, "__len__"))
    r = rat_of(I, s, n)
    c = r.cval() if r is not None else None
    if c is None:
        raise AnalysisLimit("length unknown")
    return s, int(c)


def seg_at(I, s, path, k):
    I.handlers = []
    return only(I.get_item(s, path, num(k)))


def part(I, s, seg, name):
    """coordinates of one defining point, None when it is None"""
    s2, v = attr(I, s, seg, name)
    if isinstance(v, Raise):
        raise AnalysisLimit("no %s" % name)
    v = I.resolve(s2, v)
    if v == NONE:
        return None
    r = xy(I, s2, v)
    if r is None:
        raise AnalysisLimit("%s is not a point of closed forms" % name)
    return r


def cmp_part(s, name, got, want):
    if got is None or want is None:
        return got is None and want is None, "%s is %s where %s is required" % (name, got, want)
    return cmp_rats(s, (name + ".x", name + ".y"), got, want)


def cmp_segment(I, s, seg, kind, parts, label="", relative=None, sweep=None):
    k = kind_of(s, seg)
    if k is None:
        return None, "%s unknown" % label
    if not is_a(I, s, seg, kind):
        return False, "%s is a %s where a %s is required" % (label, k, kind)
    res = True, ""
    for n, w in zip(PARTS[kind], parts):
        if w == "any":
            continue
        r = cmp_part(s, "%s%s" % (label, n), part(I, s, seg, n), w)
        if r[0] is False:
            return r
        if r[0] is None:
            res = r
    if sweep is not None:
        s2, v = attr(I, s, seg, "sweep")
        r = cmp_number(s2, label + "sweep", rat_of(I, s2, v), sweep)
        if r[0] is False:
            return r
        if r[0] is None:
            res = r
    if relative is not None:
        s2, v = attr(I, s, seg, "relative")
        f = flag_of(I, s2, v)
        if f is None:
            res = None, "relative flag unknown"
        elif f != relative:
            return False, "%sis flagged relative=%s" % (label, f)
    return res
