"""P11: malformed path data.  Every truncation of every command's argument list, and every
argument replaced by something that is not a number, is interpreted by the parser and, but for arcs,
by Path(text); each reachable outcome has to be a ValueError."""
from ..pathdata import *


def tokens(b, shape):
    """argument tokens of one group as piece lists"""
    out = []
    for ch in shape:
        if ch == "p":
            out += ["n", "n"]
        elif ch == "f":
            out.append("f")
        else:
            out.append("n")
    return out


def emit(b, toks, bad=None, word="x"):
    for k, t in enumerate(toks):
        b.ps.append(" ")
        if k == bad:
            b.ps.append(word)
        elif t == "f":
            b.ps.append("01"[k % 2])
        else:
            b.num()


def judge(I, text, through_path):
    rs = drive(I, text)
    if through_path and rs and all(isinstance(v, Raise) and v.name == "ValueError" for s, v in rs):
        st = I.start()
        rs = I.run(st, I.get(st, "path", "Path"), text)
    if not rs:
        return None, "no outcome"
    for s, v in rs:
        if not feasible(s):
            continue
        if not isinstance(v, Raise):
            return False, "accepted"
        if v.name != "ValueError":
            return False, "raises %s %s" % (v.name, [a for a in v.exc.args][:1]), v.where
    return True


def show(b):
    return "".join(p if isinstance(p, str) else "#" for p in b.ps)


def check(rep):
    rep.rule("truncated", "an incomplete argument list is refused with ValueError", 200)
    rep.rule("word", "an argument that is not a number is refused with ValueError", 60)
    rep.rule("flag", "an arc flag other than 0 or 1 is refused with ValueError", 8)
    rep.rule("excess", "numbers after a command that takes none, or before any, are refused with ValueError", 2)
    I = harness(rep.interp())
    op = ""
    tails = {"end": "", "next": " L 1 1", "word": " x", "close": " z", "blank": " "}
    for c in LETTERS:
        op, shape = COMMANDS[c.lower()]
        if not shape:
            continue
        for full in (0, 1, 2) if rep.thorough else (0, 1):
            for k in range(len(tokens(None, shape))):
                if full and k == 0:
                    continue
                for tn, tail in tails.items():
                    if tn == "close" and op != "move" and "p" in shape:
                        # a closing letter may stand for the remaining coordinate pairs
                        at = k - shape.index("p")
                        if at >= 0 and at % 2 == 0:
                            continue
                    for start in ("M", "") if c in "mM" else ("M",):
                        b = Builder()
                        if start:
                            b.command("M").command("L")
                        b.raw(" " + c)
                        for _ in range(full):
                            emit(b, tokens(b, shape))
                        emit(b, tokens(b, shape)[:k])
                        b.raw(tail)
                        rep.each("truncated", show(b).strip() + (" (%s)" % tn if tn == "blank" else ""), judge, I, b.text(), op != "arc")
        for k, t in enumerate(tokens(None, shape)):
            for w in ("x", "-", "e", ".", "#", "--1", "NaN", "inf") if rep.thorough else ("x", "-", "inf"):
                b = Builder().command("M").command("L")
                b.raw(" " + c)
                emit(b, tokens(b, shape), k, w)
                rep.each("flag" if t == "f" else "word", show(b).strip(), judge, I, b.text(), op != "arc")
            if t == "f":
                for w in ("2", "9", "-1"):
                    b = Builder().command("M").command("L")
                    b.raw(" " + c)
                    emit(b, tokens(b, shape), k, w)
                    rep.each("flag", show(b).strip(), judge, I, b.text(), op != "arc")
    for c in "zZ":
        b = Builder().command("M").command("L")
        b.raw(" " + c + " ")
        b.num()
        b.raw(" ")
        b.num()
        rep.each("excess", show(b), judge, I, b.text(), op != "arc")
        b = Builder().command("M").command("L")
        b.raw(" " + c + " ")
        b.num()
        rep.each("excess", show(b), judge, I, b.text(), op != "arc")
