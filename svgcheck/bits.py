"""Bit-provenance: which input bit does each bit of an integer come from.

An integer in normal form is read as a concatenation of bit fields (a sum of bounded
non-negative integer atoms times distinct powers of two).  The result of a bit operation is
again written in that normal form, with `bits(x, p, q)` for the field p..q-1 of x."""
from fractions import Fraction
from .values import *
from . import sym as S
import re as _re


class Word:
    """bits: list of 0 | 1 | (atom, i); top: what continues above: 0 | 1 | (atom, offset)"""

    def __init__(self, bits, top):
        self.bits = bits
        self.top = top

    def bit(self, j):
        if j < len(self.bits):
            return self.bits[j]
        if self.top in (0, 1):
            return self.top
        return (self.top[0], j + self.top[1])


def field(st, a):
    """(source atom, first bit, width or None) of an integer atom"""
    if a.args is not None and a.name == "bits":
        (m, _), = a.args[0].num.t.items()
        src = m[0][0]
        p, q = int(a.args[1].cval()), int(a.args[2].cval())
        return src, p, q - p
    iv = st.atom_iv(a)
    if iv.lo is not None and iv.lo >= 0 and iv.hi is not None and iv.hi < 2**64:
        hi = int(iv.hi)
        return a, 0, max(1, hi.bit_length())
    return a, 0, None


def word(st, r):
    r = st.norm(r)
    if r.den is not S.ONE:
        return None
    k = Fraction(0)
    parts = []
    for m, c in r.num.t.items():
        if m == ():
            k = c
            continue
        if len(m) != 1 or m[0][1] != 1 or c.denominator != 1 or c <= 0 or (int(c) & (int(c) - 1)):
            return None
        parts.append((int(c).bit_length() - 1, m[0][0]))
    if k.denominator != 1:
        return None
    k = int(k)
    if not parts:
        if k >= 0:
            return Word([(k >> j) & 1 for j in range(k.bit_length())], 0)
        w = (~k).bit_length()
        return Word([(k >> j) & 1 for j in range(w)], 1)
    if k < 0:
        return None
    n = 0
    place = {}
    top = 0
    for sh, a in sorted(parts, key=lambda x: x[0]):
        src, p, w = field(st, a)
        if w is None:
            if top != 0 or p:
                return None
            top = (src, -sh)
            n = max(n, sh)
            unb = sh
            continue
        for i in range(w):
            if sh + i in place:
                return None
            place[sh + i] = (src, p + i)
        n = max(n, sh + w)
    if top != 0 and (any(j >= unb for j in place) or k >> unb):
        return None
    for j in range(k.bit_length()):
        if (k >> j) & 1:
            if j in place:
                return None
            place[j] = 1
            n = max(n, j + 1)
    return Word([place.get(j, 0) if top == 0 or j < unb else (top[0], j - unb) for j in range(n)], top)


def number(st, w):
    if w.top == 1:
        return None
    bits = list(w.bits)
    if w.top != 0:
        src, off = w.top
        while bits and bits[-1] == (src, len(bits) - 1 + off):
            bits.pop()
        if len(bits) + off < 0:
            return None
        p = len(bits) + off
        a = Rat(Poly.of(src))
        hi = a if p == 0 else S.fun("floor", a / R(2**p))
        tot = hi * R(2 ** len(bits))
    else:
        tot = R(0)
    j = 0
    while j < len(bits):
        b = bits[j]
        if b == 0:
            j += 1
            continue
        if b == 1:
            tot = tot + R(2**j)
            j += 1
            continue
        src, i = b
        n = 1
        while j + n < len(bits) and bits[j + n] == (src, i + n):
            n += 1
        _, p0, w0 = field(st, src)
        a = Rat(Poly.of(src))
        if i == 0 and w0 == n:
            t = a
        else:
            t = Rat(Poly.of(atom("bits", (a, R(i), R(i + n)))))
        tot = tot + t * R(2**j)
        j += n
    return tot


def b_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    return None


def b_or(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0 or a == b:
        return a
    return None


def b_xor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return 0
    return None


OPS = {"BitAnd": b_and, "BitOr": b_or, "BitXor": b_xor}


def binop(I, st, op, l, r):
    x, y = l.r, r.r
    if op in ("LShift", "RShift"):
        c = st.norm(y).cval()
        if c is None or c.denominator != 1 or c < 0 or c > 256:
            return None
        c = int(c)
        if op == "LShift":
            return Num(st.norm(x) * R(2**c), "i")
        return shift(st, x, c)
    a, b = word(st, x), word(st, y)
    if a is None or b is None:
        return None
    f = OPS[op]
    n = max(len(a.bits), len(b.bits))
    out = [f(a.bit(j), b.bit(j)) for j in range(n)]
    if any(v is None for v in out):
        return None
    ta, tb = a.top, b.top
    top = f(ta, tb) if (ta in (0, 1) or tb in (0, 1) or ta == tb) else None
    if top is None:
        return None
    r = number(st, Word(out, top))
    return None if r is None else Num(r, "i")


def shift(st, x, c):
    w = word(st, x)
    if w is None:
        return None
    top = w.top if w.top in (0, 1) else (w.top[0], w.top[1] + c)
    r = number(st, Word(w.bits[c:] if c < len(w.bits) else [], top))
    return None if r is None else Num(r, "i")


def modpow(st, x, c):
    """x mod 2**c"""
    w = word(st, x)
    if w is None:
        return None
    r = number(st, Word([w.bit(j) for j in range(c)], 0))
    return None if r is None else Num(r, "i")


def unary(I, st, op, v):
    return None


def equal(st, l, r):
    return None


def chars(v):
    """text as one-character pieces, when every piece is a constant or one hex digit"""
    if not isinstance(v, Text):
        return None
    out = []
    for p in v.pieces:
        if isinstance(p, str):
            out.extend(p)
        elif isinstance(p, NumPiece) and p.fmt == "hexd":
            out.append(p)
        else:
            return None
    return out


def text_len(st, v):
    if not isinstance(v, Text):
        return None
    n = 0
    for p in v.pieces:
        if isinstance(p, str):
            n += len(p)
            continue
        w = width(st, p) if isinstance(p, NumPiece) else None
        if w is None:
            return None
        n += w
    return n


# ------------------------------------------------------------------ hexadecimal text

SPEC = _re.compile(r"%?0(\d+)([xX])$")


def width(st, p):
    """number of characters of a number piece, when fixed"""
    if p.fmt == "hexd":
        return 1
    m = SPEC.match(p.fmt)
    if m and isinstance(p.num, Num):
        iv = st.iv_rat(st.norm(p.num.r))
        n = int(m.group(1))
        if iv.lo is not None and iv.lo >= 0 and iv.hi is not None and iv.hi < 16**n:
            return n
    return None


def digits(st, pieces):
    """the text as a list of characters, each a str or a list of four bits (least first)"""
    out = []
    for p in pieces:
        if isinstance(p, str):
            out.extend(p)
            continue
        if not isinstance(p, NumPiece):
            return None
        n = width(st, p)
        if n is None:
            return None
        w = word(st, p.num.r)
        if w is None or w.top != 0:
            return None
        for j in range(n - 1, -1, -1):
            q = [w.bit(4 * j + i) for i in range(4)]
            if all(b in (0, 1) for b in q):
                out.append("%x" % sum(b << i for i, b in enumerate(q)))
            else:
                out.append(q)
    return out


def from_hex_text(I, st, v):
    if not isinstance(v, Text):
        return None
    ds = digits(st, v.pieces)
    if ds is None or not ds:
        return None
    bits = []
    for d in reversed(ds):
        if isinstance(d, str):
            if d not in "0123456789abcdefABCDEF":
                return None
            k = int(d, 16)
            bits += [(k >> i) & 1 for i in range(4)]
        else:
            bits += d
    r = number(st, Word(bits, 0))
    return None if r is None else Num(r, "i")
