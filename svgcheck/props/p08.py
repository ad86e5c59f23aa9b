"""P08: constant propagation of every keyword through the colour constructor; the red, green,
blue and alpha that come out are compared with the table of the CSS specification."""
from ..helpers import *
from ..csscolors import COLORS


def channels(I, text, want):
    st = I.start()
    rs = I.run(st, I.get(st, "basic", "Color"), text)

    def judge(s, c):
        got = []
        for n in ("red", "green", "blue", "alpha"):
            s, v = attr(I, s, c, n)
            got.append(None if isinstance(v, Raise) else v)
        if want is None:
            s, v = attr(I, s, c, "value")
            if v == NONE and all(g == NONE for g in got):
                return True
            return False, "%r gives channels %r, not 'no colour'" % (text, got)
        vals = [rat_of(I, s, g) if g is not None else None for g in got]
        vals = [v.cval() if v is not None else None for v in vals]
        if any(v is None for v in vals):
            if any(g == NONE or g is None for g in got):
                return False, "%r gives channels %r" % (text, got)
            return None, "channels %r" % (got,)
        if tuple(vals) == want:
            return True
        return False, "%r gives red, green, blue, alpha = %s where the specification lists %s" % (text, tuple(map(float, vals)), want)

    return all_outcomes(rs, judge)


def check(rep):
    rep.rule("keyword", "a colour keyword denotes exactly the channels the specification lists", 140)
    rep.rule("spelling", "letter case and inner blanks of a keyword are ignored", 400)
    rep.rule("parse", "the packed value of Color.parse agrees with the specification", 140)
    I = rep.interp()
    table = dict(COLORS)
    table["transparent"] = (0, 0, 0, 0)
    for name, want in sorted(table.items()):
        rep.each("keyword", name, channels, I, name, want)
        rep.each("spelling", name + " upper", channels, I, name.upper(), want)
        mixed = "".join(c.upper() if i % 2 else c for i, c in enumerate(name))
        k = max(1, len(name) // 2)
        rep.each("spelling", name + " blank", channels, I, mixed[:k] + " " + mixed[k:], want)
        rep.each("spelling", name + " blanks", channels, I, "  ".join(name), want)
        rep.each("spelling", name + " outer blanks", channels, I, "  " + name.title() + "   ", want)

        def packed():
            st = I.start()
            s, C = st, I.get(st, "basic", "Color")
            rs = method(I, s, C, "parse", Const(name))
            w = (want[0] << 24) | (want[1] << 16) | (want[2] << 8) | want[3]

            def judge(s, v):
                r = rat_of(I, s, v)
                c = r.cval() if r is not None else None
                if c is None:
                    return (False, "Color.parse(%r) is %r" % (name, v)) if isinstance(v, Const) else (None, repr(v))
                return (c % 2**32 == w, "Color.parse(%r) is %s, expected %s" % (name, hex(int(c)), hex(w)))

            return all_outcomes(rs, judge)

        rep.each("parse", name, packed)
    rep.each("keyword", "none", channels, I, "none", None)
