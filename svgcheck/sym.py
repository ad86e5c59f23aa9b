"""Normal forms for the numeric value-numbering domain.

A number that the analysed program computes is represented by a rational
function over opaque atoms (program inputs and applications of uninterpreted
functions such as cos, sqrt or min).  Two expressions receive the same value
number when their normal forms agree modulo the ring axioms plus a handful of
identities (sin^2+cos^2=1, sqrt(x)^2=x, |−x|=|x|, parity of sin/cos).  Floats
are treated as reals: rounding is outside the abstraction.
"""
from fractions import Fraction
import math

_ATOMS = {}
_LIST = []


class Atom:
    __slots__ = ("name", "args", "n", "even_reduce")

    def __repr__(self):
        if self.args is None:
            return str(self.name)
        if self.name == "let":
            return "t%d" % self.n
        return "%s(%s)" % (self.name, ", ".join(map(str, self.args)))

    def __lt__(self, o):
        return self.n < o.n


def atom(name, args=None):
    key = (name, args)
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.name = name
        a.args = args
        a.n = len(_LIST)
        _ATOMS[key] = a
        _LIST.append(a)
    return a


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(((k, e) for k, e in d.items() if e), key=lambda t: t[0].n))


class Poly:
    __slots__ = ("t", "_k", "_h", "_f")

    def __init__(self, terms):
        self.t = terms
        self._k = None
        self._f = None
        self._h = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def of(a):
        return Poly({((a, 1),): Fraction(1)})

    def key(self):
        if self._k is None:
            self._k = tuple(
                sorted(
                    ((tuple((a.n, e) for a, e in m), c) for m, c in self.t.items())
                )
            )
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return self is o or self.t == o.t

    def is_zero(self):
        return not self.t

    def cval(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def add(self, o, s=1):
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m, 0) + s * c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    def scale(self, c):
        if not c:
            return Poly({})
        return Poly({m: v * c for m, v in self.t.items()})

    def mul(self, o):
        c = o.cval()
        if c is not None:
            return self.scale(c)
        c = self.cval()
        if c is not None:
            return o.scale(c)
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return reduce_poly(Poly(d))

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def lead(self):
        # deterministic leading monomial
        if not self.t:
            return None
        return max(self.t, key=lambda m: (sum(e for _, e in m), tuple((-a.n, e) for a, e in m)))

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m in sorted(self.t, key=lambda m: tuple((a.n, e) for a, e in m)):
            c = self.t[m]
            ms = "*".join(str(a) if e == 1 else "%s^%d" % (a, e) for a, e in m)
            cs = str(c) if c.denominator == 1 or len(str(c)) < 12 else "%.10g" % float(c)
            if not ms:
                out.append(cs)
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append("%s*%s" % (cs, ms))
        return " + ".join(out).replace("+ -", "- ")


def reduce_poly(p):
    """cos(x)^2 -> 1-sin(x)^2 ; sqrt(x)^2 -> x ; abs(x)^2 -> x^2"""
    for m in p.t:
        for a, e in m:
            if e >= 2 and a.args is not None and a.name in ("cos", "sqrt", "abs"):
                if a.name == "sqrt" and a.args[0].den.cval() is None:
                    continue
                if a.name == "abs" and a.args[0].den.cval() is None:
                    continue
                break
        else:
            continue
        break
    else:
        return p
    out = Poly({})
    for m, c in p.t.items():
        f = Poly({(): c})
        for a, e in m:
            base = Poly.of(a)
            if e >= 2 and a.args is not None and a.name in ("cos", "sqrt", "abs"):
                x = a.args[0]
                if a.name == "cos":
                    s = Poly.of(atom("sin", (x,)))
                    sq = Poly.const(1).add(Poly({((atom("sin", (x,)), 2),): Fraction(1)}), -1)
                elif x.den.cval() is None:
                    f = _rawmul(f, Poly({((a, e),): Fraction(1)}))
                    continue
                elif a.name == "sqrt":
                    sq = x.num.scale(1 / x.den.cval())
                else:
                    b = x.num.scale(1 / x.den.cval())
                    sq = _rawmul(b, b)
                k = e // 2
                for _ in range(k):
                    f = _rawmul(f, sq)
                if e % 2:
                    f = _rawmul(f, base)
            else:
                f = _rawmul(f, Poly({((a, e),): Fraction(1)}))
        out = out.add(f)
    return reduce_poly(out)


def _rawmul(a, b):
    d = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mono_mul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return Poly(d)


def _divmono(m, d):
    dm = dict(m)
    for a, e in d:
        x = dm.get(a, 0) - e
        if x < 0:
            return None
        if x:
            dm[a] = x
        else:
            dm.pop(a, None)
    return tuple(sorted(dm.items(), key=lambda t: t[0].n))


def _lexkey(m):
    return tuple((-a.n, e) for a, e in m)


def exact_div(n, d):
    """n/d when d divides n exactly (lex order division), else None."""
    if len(d.t) > 12 or len(n.t) > 120:
        return None
    atoms_all = sorted(n.atoms() | d.atoms(), key=lambda a: a.n)

    def vec(m):
        dm = dict(m)
        return tuple(dm.get(a, 0) for a in atoms_all)

    ld = max(d.t, key=vec)
    lc = d.t[ld]
    q = {}
    r = n
    steps = 0
    while r.t:
        steps += 1
        if steps > 200:
            return None
        lm = max(r.t, key=vec)
        m = _divmono(lm, ld)
        if m is None:
            return None
        c = r.t[lm] / lc
        q[m] = q.get(m, 0) + c
        r = r.add(_rawmul(d, Poly({m: c})), -1)
    return Poly(q)


class Rat:
    __slots__ = ("num", "den", "_h")

    def __init__(self, num, den=None):
        one = den is None
        if not one:
            c = den.cval()
            if c is not None:
                if c == 0:
                    raise ZeroDivisionError
                num = num.scale(1 / c)
                one = True
            else:
                # common monomial
                if num.is_zero():
                    one = True
                else:
                    q = exact_div(num, den)
                    if q is not None:
                        num = q
                        one = True
                    else:
                        common = None
                        for m in list(num.t) + list(den.t):
                            dm = dict(m)
                            if common is None:
                                common = dm
                            else:
                                common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
                            if not common:
                                break
                        if common:
                            cm = tuple(sorted(common.items(), key=lambda t: t[0].n))
                            num = Poly({_divmono(m, cm): c for m, c in num.t.items()})
                            den = Poly({_divmono(m, cm): c for m, c in den.t.items()})
                        lead = den.t[den.lead()]
                        if lead != 1:
                            num = num.scale(1 / lead)
                            den = den.scale(1 / lead)
                        if den.cval() is not None:
                            num = num.scale(1 / den.cval())
                            one = True
                        else:
                            q = exact_div(den, num)
                            if q is not None and num.cval() is None:
                                den = q
                                num = Poly.const(1)
                                lead = den.t[den.lead()]
                                if lead != 1:
                                    num = num.scale(1 / lead)
                                    den = den.scale(1 / lead)
        self.num = num
        self.den = ONE if one else den
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.num.key(), self.den.key()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Rat) and self.num.t == o.num.t and self.den.t == o.den.t

    def cval(self):
        if self.den is ONE or self.den.cval() is not None:
            return self.num.cval()
        return None

    def __repr__(self):
        if self.den.cval() is not None:
            return repr(self.num)
        return "(%r)/(%r)" % (self.num, self.den)

    def __add__(self, o):
        if self.den is ONE and o.den is ONE:
            return Rat(self.num.add(o.num))
        if self.den == o.den:
            return Rat(self.num.add(o.num), self.den)
        if (len(self.num.t) * len(o.den.t) + len(o.num.t) * len(self.den.t) > LIMIT) or len(self.den.t) * len(o.den.t) > LIMIT:
            self, o = named(self), named(o)
            if self.den is ONE and o.den is ONE:
                return Rat(self.num.add(o.num))
        return Rat(self.num.mul(o.den).add(o.num.mul(self.den)), self.den.mul(o.den))

    def __sub__(self, o):
        return self + (-o)

    def __neg__(self):
        r = Rat.__new__(Rat)
        r.num = self.num.scale(-1)
        r.den = self.den
        r._h = None
        return r

    def __mul__(self, o):
        if len(self.num.t) * len(o.num.t) > LIMIT or len(self.den.t) * len(o.den.t) > LIMIT:
            self, o = named(self), named(o)
        if self.den is ONE and o.den is ONE:
            return Rat(self.num.mul(o.num))
        return Rat(self.num.mul(o.num), self.den.mul(o.den))

    def __truediv__(self, o):
        if len(self.num.t) * len(o.den.t) > LIMIT or len(self.den.t) * len(o.num.t) > LIMIT:
            self, o = named(self), named(o)
        return Rat(self.num.mul(o.den), self.den.mul(o.num))

    def atoms(self):
        return self.num.atoms() | self.den.atoms()

    def all_atoms(self):
        """atoms including those nested below function applications"""
        out = set()
        todo = list(self.atoms())
        while todo:
            a = todo.pop()
            if a in out:
                continue
            out.add(a)
            for x in a.args or ():
                if isinstance(x, Rat):
                    todo.extend(x.atoms())
        return out

    def size(self):
        return len(self.num.t) + len(self.den.t)


ONE = Poly.const(1)
LIMIT = 60


def named(r):
    """a large term is given a name: its normal form is kept but no longer expanded"""
    if len(r.num.t) + len(r.den.t) <= 6:
        return r
    return Rat(Poly.of(atom("let", (r,))))


def R(x):
    if isinstance(x, Rat):
        return x
    if isinstance(x, str):
        return Rat(Poly.of(atom(x)))
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            if x != x:
                return Rat(Poly.of(atom("nan")))
            r = Rat(Poly.of(atom("inf")))
            return r if x > 0 else -r
        return Rat(Poly.const(Fraction(repr(x))))
    return Rat(Poly.const(Fraction(x)))


TAU = R("tau")
ZERO = R(0)
RONE = R(1)


def equal(a, b):
    """value-number equality (cross multiplication)"""
    if a == b:
        return True
    if len(a.num.t) * len(b.den.t) + len(b.num.t) * len(a.den.t) > 4000:
        return False
    d = a.num.mul(b.den).add(b.num.mul(a.den), -1)
    return reduce_poly(d).is_zero()


def _sign_norm(r):
    """(sign, r') with r = sign*r' and r' having a positive leading coefficient"""
    if r.num.is_zero():
        return 1, r
    l = r.num.t[r.num.lead()]
    if l < 0:
        return -1, -r
    return 1, r


def fun(name, *args):
    a = args[0]
    c = a.cval()
    if name == "let":
        return a if a.size() <= 6 else named(a)
    if name == "sqrt":
        if c is not None and c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return Rat(Poly.const(Fraction(n, d)))
        # perfect square of a single monomial / known polynomial square
        if a.den.cval() is not None and len(a.num.t) == 1:
            (m, cc), = a.num.t.items()
            if m and all(e % 2 == 0 for _, e in m) and cc > 0:
                n, d = math.isqrt(cc.numerator), math.isqrt(cc.denominator)
                if n * n == cc.numerator and d * d == cc.denominator:
                    half = Rat(Poly({tuple((x, e // 2) for x, e in m): Fraction(n, d)}))
                    return fun("abs", half)
        return Rat(Poly.of(atom("sqrt", (a,))))
    if name == "abs":
        if c is not None:
            return Rat(Poly.const(abs(c)))
        _, a = _sign_norm(a)
        if a.den.cval() is not None and len(a.num.t) == 1:
            (m, cc), = a.num.t.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].args is not None and m[0][0].name in ("abs", "sqrt"):
                return a
            if m == ((atom("tau"), 1),):
                return a
        return Rat(Poly.of(atom("abs", (a,))))
    if name in ("sin", "cos", "tan"):
        q = a / (TAU * R(Fraction(1, 4))) if not a.num.is_zero() else ZERO
        qc = q.cval()
        if a.num.is_zero():
            qc = Fraction(0)
        if qc is not None and qc.denominator == 1:
            k = int(qc) % 4
            if name == "sin":
                return R([0, 1, 0, -1][k])
            if name == "cos":
                return R([1, 0, -1, 0][k])
            if k % 2 == 0:
                return R(0)
        s, a2 = _sign_norm(a)
        # remove whole turns / quarter turns expressed with tau
        f = Rat(Poly.of(atom(name, (a2,))))
        if s < 0 and name in ("sin", "tan"):
            return -f
        return f
    if name == "atan" and c == 0:
        return R(0)
    if name == "atan":
        s, a2 = _sign_norm(a)
        f = Rat(Poly.of(atom(name, (a2,))))
        return -f if s < 0 else f
    if name == "atan2":
        cy, cx = args[0].cval(), args[1].cval()
        if cy is not None and cx is not None:
            if cy == 0 and cx > 0:
                return R(0)
            if cy == 0 and cx < 0:
                return TAU * R(Fraction(1, 2))
            if cx == 0 and cy > 0:
                return TAU * R(Fraction(1, 4))
            if cx == 0 and cy < 0:
                return -TAU * R(Fraction(1, 4))
    if name in ("min", "max"):
        flat = []
        for x in args:
            done = False
            if x.den.cval() is not None and len(x.num.t) == 1:
                (m, cc), = x.num.t.items()
                if len(m) == 1 and m[0][1] == 1 and cc == 1 and m[0][0].name == name and m[0][0].args:
                    flat.extend(m[0][0].args)
                    done = True
            if not done:
                flat.append(x)
        consts = [x.cval() for x in flat if x.cval() is not None]
        rest = []
        for x in flat:
            if x.cval() is None and x not in rest:
                rest.append(x)
        if consts:
            rest.append(R(min(consts) if name == "min" else max(consts)))
        if len(rest) == 1:
            return rest[0]
        rest.sort(key=lambda r: (r.num.key(), r.den.key()))
        return Rat(Poly.of(atom(name, tuple(rest))))
    if c is not None:
        if name == "floor":
            return R(math.floor(c))
        if name == "ceil":
            return R(math.ceil(c))
        if name == "trunc":
            return R(math.trunc(c))
        if name == "round" and len(args) == 1:
            return R(round(c))
        if name == "acos" and c == 1:
            return R(0)
        if name == "log" and c == 1:
            return R(0)
    if name in ("floor", "ceil", "trunc", "round") and len(args) == 1:
        if all(x.args is None and x.name == "tau" for x in a.all_atoms()):
            # a constant: its only unknown is the irrational tau
            v = evaluate(a, {})
            if abs(v) < 1e9 and abs(v - round(v)) > 1e-6 and (name != "round" or abs(v * 2 - round(v * 2)) > 1e-6):
                return R({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round}[name](v))
        if a.den.cval() is not None and len(a.num.t) == 1:
            (m, cc), = a.num.t.items()
            if cc == 1 and len(m) == 1 and m[0][1] == 1:
                x = m[0][0]
                if x.args is not None and x.name in ("floor", "ceil", "trunc", "round"):
                    return a
                if x.args is None and isinstance(x.name, str) and x.name.startswith("int:"):
                    return a
    return Rat(Poly.of(atom(name, tuple(args))))


def subst(r, mapping, memo=None):
    """substitute atoms (top level and nested) : {Atom: Rat}"""
    if not mapping:
        return r
    if memo is None:
        memo = {}
    if not any(a in mapping for a in r.all_atoms()):
        return r

    def sub_atom(a):
        if a in mapping:
            return mapping[a]
        if a in memo:
            return memo[a]
        if a.args is not None and any(isinstance(x, Rat) for x in a.args):
            na = tuple(subst(x, mapping, memo) if isinstance(x, Rat) else x for x in a.args)
            if na != a.args:
                if all(isinstance(x, Rat) for x in na):
                    memo[a] = fun(a.name, *na)
                else:
                    memo[a] = Rat(Poly.of(atom(a.name, na)))
                return memo[a]
        memo[a] = Rat(Poly.of(a))
        return memo[a]

    def sub_poly(p):
        out = ZERO
        for m, c in p.t.items():
            f = Rat(Poly.const(c))
            for a, e in m:
                v = sub_atom(a)
                for _ in range(e):
                    f = f * v
            out = out + f
        return out

    n = sub_poly(r.num)
    if r.den is ONE:
        return n
    return n / sub_poly(r.den)


_FN = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "sqrt": lambda v: math.sqrt(abs(v)),
       "abs": abs, "min": min, "max": max, "floor": math.floor, "ceil": math.ceil, "let": lambda v: v,
       "trunc": math.trunc, "round": round, "atan": math.atan, "atan2": math.atan2,
       "mod": lambda u, v: u % v, "pow": lambda u, v: u ** v, "acos": math.acos, "asin": math.asin,
       "hypot": math.hypot, "log": math.log, "exp": math.exp,
       "bits": lambda v, p, q: (int(round(v)) >> int(p)) & ((1 << int(q - p)) - 1),
       "bitBitAnd": lambda u, v: int(round(u)) & int(round(v)), "bitBitOr": lambda u, v: int(round(u)) | int(round(v)),
       "bitBitXor": lambda u, v: int(round(u)) ^ int(round(v)), "bitLShift": lambda u, v: int(round(u)) << int(round(v)),
       "bitRShift": lambda u, v: int(round(u)) >> int(round(v)), "bitnot": lambda u: ~int(round(u))}


def _uf(*xs):
    """valuation of an uninterpreted positive function of its arguments"""
    t = 0.5
    for k, x in enumerate(xs):
        t += math.sin(1.7 * k + 0.31 + x * (1.0 + 0.13 * k))
    t = 1.0 + t * t
    if xs and xs[0] == 1 and len(xs) > 4:
        # the length of a segment (kind, x, y, x, y...): zero exactly when all its points coincide
        ps = [xs[i:i + 2] for i in range(2, len(xs), 2) if xs[i] != -77]
        t *= sum(abs(a - b) for p in ps[1:] for a, b in zip(p, ps[0]))
    return t


_FN["uf"] = _uf
_memo = [None, {}]


def forget():
    """call after changing a value in an env"""
    _memo[0] = None


def evaluate(r, env):
    """value of a closed form under a valuation of the free atoms (an env is only ever
    extended while it is in use, so values of atoms are remembered per env)"""
    if _memo[0] is not env:
        _memo[0], _memo[1] = env, {}
    memo = _memo[1]

    def at(a):
        if a.args is None:
            if a.name == "tau":
                return math.tau
            return env[a.name]
        x = memo.get(a)
        if x is None:
            x = memo[a] = _FN[a.name](*[val(y) for y in a.args])
        return x

    def pv(p):
        t = 0.0
        q = p._f
        if q is None:
            q = p._f = [(float(c), m) for m, c in p.t.items()]
        for f, m in q:
            for a, e in m:
                f *= at(a) if e == 1 else at(a) ** e
            t += f
        return t

    def val(r):
        return pv(r.num) / pv(r.den) if r.den is not ONE else pv(r.num)

    return val(r)
