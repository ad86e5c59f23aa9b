"""P10: the path-data parser.  The text is a sequence of command letters and literal number
tokens, each standing for any number; the drawing target records the operations it is handed,
which are compared, argument by argument, with the ones SVG assigns to the text."""
from ..pathdata import *


def run(I, b):
    return all_outcomes(drive(I, b.text()), lambda s, v: cmp_log(I, s, v, b.ops))


def prefix(b):
    """subpath start, then a current point that differs from it"""
    return b.command("M").command("L")


def check(rep):
    rep.rule("command", "each letter hands over its operation, arguments in order, offsets and flag", 20)
    rep.rule("repeat", "argument groups without a letter repeat the command", 30)
    rep.rule("first", "a leading moveto is absolute; its further pairs are linetos", 6)
    rep.rule("spelling", "separators, signs and number spelling do not matter", 80)
    rep.rule("flags", "arc flags are read as single digits in order", 16)
    rep.rule("pair", "a command starts from where the previous one ended", 200)
    rep.rule("inline", "a closing letter in place of a coordinate pair stands for the subpath start", 12)
    I = harness(rep.interp())
    for c in LETTERS:
        rep.each("command", c, lambda: run(I, prefix(Builder()).command(c)))
        if c in "zZ":
            continue
        for g in (2, 3):
            rep.each("repeat", "%s x%d" % (c, g), lambda: run(I, prefix(Builder()).command(c, g, ((0, 1), (1, 0), (1, 1)))))
    for c in "mM":
        for g in (1, 2, 3):
            rep.each("first", "%s x%d" % (c, g), lambda: run(I, Builder().command(c, g)))
    for c in LETTERS:
        if c in "zZ":
            continue
        for nm, kw in (("comma", dict(sep=",")), ("blanks", dict(sep=" \t\n ")), ("comma blank", dict(sep=", ")),
                       ("sign only", dict(sep="", neg=True, tight=True)), ("tight", dict(tight=True)), ("negative", dict(neg=True))):
            rep.each("spelling", "%s %s" % (c, nm), lambda: run(I, prefix(Builder(**kw)).command(c, 2)))
        for style in ("integer", "exponent"):
            def styled():
                I.lits, I.lit_style = {}, style
                try:
                    return run(I, prefix(Builder()).command(c, 2))
                finally:
                    I.lits, I.lit_style = {}, "decimal"
            rep.each("spelling", "%s %s" % (c, style), styled)
    for c in "aA":
        for f in ((0, 0), (0, 1), (1, 0), (1, 1)):
            for comp in (False, True):
                rep.each("flags", "%s %d%d%s" % (c, f[0], f[1], " compact" if comp else ""),
                         lambda: run(I, prefix(Builder(compact=comp)).command(c, 2, (f, (1 - f[0], f[1])))))
    for c in LETTERS:
        for d in LETTERS:
            rep.each("pair", c + d, lambda: run(I, prefix(Builder()).command(c).command(d)))
            if rep.thorough:
                for e in LETTERS:
                    rep.each("pair", c + d + e, lambda: run(I, Builder().command("m").command(c).command(d, 2 if d not in "zZ" else 1).command(e)))
    for c in LETTERS:
        op, shape = COMMANDS[c.lower()]
        if "p" not in shape or c in "mM":
            continue
        for z in "zZ":
            # the last pair replaced by the closing letter
            def inl():
                b = prefix(Builder())
                b.command(c)
                k = len(b.ps)
                # drop the last pair (two tokens and their separator)
                b.ps = b.ps[:-3] + [z]
                name, args, rel = b.ops[-1]
                b.ops[-1] = (name, args[:-1] + [b.first], rel)
                b.ops.append(("closed", [], z.islower()))
                return run(I, b)
            rep.each("inline", c + z, inl)
