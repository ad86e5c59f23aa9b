"""Reference definitions written from the SVG / CSS specifications."""
from fractions import Fraction

from .sym import R, TAU, ZERO, RONE, fun


class Aff:
    """x' = a x + c y + e ; y' = b x + d y + f   (SVG order a b c d e f)"""

    def __init__(self, a=1, b=0, c=0, d=1, e=0, f=0):
        self.v = tuple(R(x) for x in (a, b, c, d, e, f))

    def __iter__(self):
        return iter(self.v)

    def then(self, o):
        """apply self first, then o"""
        a, b, c, d, e, f = self.v
        A, B, C, D, E, F = o.v
        return Aff(
            A * a + C * b,
            B * a + D * b,
            A * c + C * d,
            B * c + D * d,
            A * e + C * f + E,
            B * e + D * f + F,
        )

    def apply(self, x, y):
        a, b, c, d, e, f = self.v
        return a * x + c * y + e, b * x + d * y + f

    def vec(self, x, y):
        a, b, c, d, e, f = self.v
        return a * x + c * y, b * x + d * y

    def inv(self):
        a, b, c, d, e, f = self.v
        D = a * d - b * c
        return Aff(d / D, -b / D, -c / D, a / D, (c * f - d * e) / D, (b * e - a * f) / D)


def translate(x, y=0):
    return Aff(1, 0, 0, 1, x, y)


def scale(x, y=None):
    return Aff(x, 0, 0, x if y is None else y, 0, 0)


def rotate(t):
    t = R(t)
    c, s = fun("cos", t), fun("sin", t)
    return Aff(c, s, -s, c, 0, 0)


def skew(a, b=0):
    a, b = R(a), R(b)
    return Aff(1, fun("tan", b), fun("tan", a), 1, 0, 0)


def about(m, x, y):
    """m with fixed centre (x, y)"""
    return translate(-R(x), -R(y)).then(m).then(translate(x, y))


ANGLE = {  # unit -> radians per unit (CSS Values 4, plus % of a turn)
    "": TAU / R(360),
    "deg": TAU / R(360),
    "grad": TAU / R(400),
    "rad": RONE,
    "turn": TAU,
    "%": TAU / R(100),
}
