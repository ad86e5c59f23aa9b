"""Abstract values and abstract stores."""
from fractions import Fraction
from .sym import R, Rat, Poly, atom, fun, subst, ZERO, RONE, TAU, ONE


class V:
    __slots__ = ()


def _mk(name, fields):
    ns = {"__slots__": tuple(fields) + ("_h",)}
    src = "def __init__(self, %s):\n" % ", ".join(fields)
    for f in fields:
        src += "    self.%s = %s\n" % (f, f)
    src += "    self._h = None\n"
    d = {}
    exec(src, d)
    ns["__init__"] = d["__init__"]

    def key(self):
        return (name,) + tuple(getattr(self, f) for f in fields)

    def __eq__(self, o):
        return self is o or (type(o) is type(self) and key(self) == key(o))

    def __hash__(self):
        if self._h is None:
            self._h = hash(key(self))
        return self._h

    def __repr__(self):
        return "%s(%s)" % (name, ", ".join(repr(getattr(self, f)) for f in fields))

    ns["__eq__"] = __eq__
    ns["__hash__"] = __hash__
    ns["__repr__"] = __repr__
    return type(name, (V,), ns)


class Const(V):
    """None, bool, str, bytes, Ellipsis, NotImplemented"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is Const and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash((type(self.v).__name__, self.v))

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)
NOTIMPL = Const(NotImplemented)


def B(b):
    return TRUE if b else FALSE


class Num(V):
    """a number: r normal form, k kind: 'i' int, 'f' float, 'n' int-or-float, or a
    ClassVal for an instance of a float subclass."""

    __slots__ = ("r", "k")

    def __init__(self, r, k="f"):
        self.r = r
        self.k = k

    def __eq__(self, o):
        return type(o) is Num and self.k == o.k and self.r == o.r

    def __hash__(self):
        return hash(self.r)

    def __repr__(self):
        if isinstance(self.k, str):
            return "%r%s" % (self.r, "" if self.k == "f" else ":" + self.k)
        return "%s(%r)" % (self.k.name, self.r)

    def const(self):
        return self.r.cval()


def num(x, k=None):
    if k is None:
        k = "i" if isinstance(x, int) else "f"
    return Num(R(x), k)


def sym(name, k="f"):
    return Num(R(name), k)


Cx = _mk("Cx", ["re", "im"])  # complex, Rats
Tup = _mk("Tup", ["items"])
Opaque = _mk("Opaque", ["t", "key"])  # t: 'any','str','numstr','dict',...
Text = _mk("Text", ["pieces"])  # pieces: str | NumPiece | OpPiece
NumPiece = _mk("NumPiece", ["fmt", "num"])
OpPiece = _mk("OpPiece", ["key"])
BoolV = _mk("BoolV", ["atom", "neg"])
Ref = _mk("Ref", ["addr"])
SliceV = _mk("SliceV", ["lo", "hi", "step"])
ExcInst = _mk("ExcInst", ["cls", "args"])
BuiltinClass = _mk("BuiltinClass", ["name"])
Builtin = _mk("Builtin", ["name"])
BoundBuiltin = _mk("BoundBuiltin", ["recv", "name"])
BoundMethod = _mk("BoundMethod", ["fn", "recv"])
StaticM = _mk("StaticM", ["fn"])
ClassM = _mk("ClassM", ["fn"])
Prop = _mk("Prop", ["fget", "fset", "fdel"])
PropPart = _mk("PropPart", ["prop", "part"])
ModuleV = _mk("ModuleV", ["name"])
SuperV = _mk("SuperV", ["cls", "recv"])
RegexV = _mk("RegexV", ["pattern", "flags"])
MatchV = _mk("MatchV", ["regex", "key"])
OSeq = _mk("OSeq", ["key", "elem"])  # unknown-length sequence
Bits = _mk("Bits", ["bits", "sign"])  # little-endian bit provenance + sign-extension bit
Partial = _mk("Partial", ["fn", "args", "kwargs"])


class ClassVal(V):
    def __init__(self, name, module, node, bases):
        self.name = name
        self.module = module
        self.node = node
        self.bases = bases
        self.dict = {}
        self.mro = None

    def __repr__(self):
        return "<class %s.%s>" % (self.module, self.name)

    @property
    def qual(self):
        return "%s.%s" % (self.module, self.name)


class FuncInfo:
    def __init__(self, node, module, cls, qual, locals_, isgen, parent):
        self.node = node
        self.module = module
        self.cls = cls
        self.qual = qual
        self.locals = locals_
        self.isgen = isgen
        self.parent = parent

    def __repr__(self):
        return "<fn %s>" % self.qual


FuncVal = _mk("FuncVal", ["info", "defaults", "kwdefaults", "closure"])


class Raise:
    """an exception in flight"""

    __slots__ = ("exc", "where")

    def __init__(self, exc, where=None):
        self.exc = exc
        self.where = where  # (module, qualname, lineno, construct)

    def __repr__(self):
        return "raise %s%r at %s" % (self.name, self.exc.args, self.where)

    @property
    def name(self):
        c = self.exc.cls
        if isinstance(c, type):
            return c.__name__
        return getattr(c, "name", None) or str(c)


class Ret:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Ret(%r)" % (self.v,)


BRK = "break"
CNT = "continue"


class Obj:
    __slots__ = ("kind", "cls", "fields", "items", "stamp", "meta")

    def __init__(self, kind, cls=None, fields=None, items=None, meta=None):
        self.kind = kind
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.items = items
        self.stamp = 0
        self.meta = meta

    def clone(self):
        o = Obj(self.kind, self.cls, dict(self.fields), None, self.meta)
        if self.items is not None:
            o.items = dict(self.items) if isinstance(self.items, dict) else list(self.items)
        o.stamp = self.stamp
        return o

    def __repr__(self):
        return "<%s %s %s %s>" % (
            self.kind,
            getattr(self.cls, "name", self.cls),
            self.fields,
            self.items,
        )


class Interval:
    __slots__ = ("lo", "hi", "lo_open", "hi_open", "ne")

    def __init__(self, lo=None, hi=None, lo_open=False, hi_open=False, ne=frozenset()):
        self.lo = lo
        self.hi = hi
        self.lo_open = lo_open
        self.hi_open = hi_open
        self.ne = ne

    def __eq__(self, o):
        return (self.lo, self.hi, self.lo_open, self.hi_open, self.ne) == (
            o.lo,
            o.hi,
            o.lo_open,
            o.hi_open,
            o.ne,
        )

    def __repr__(self):
        return "%s%s,%s%s%s" % (
            "(" if self.lo_open else "[",
            "-inf" if self.lo is None else float(self.lo),
            "inf" if self.hi is None else float(self.hi),
            ")" if self.hi_open else "]",
            " ne %s" % set(map(float, self.ne)) if self.ne else "",
        )

    def empty(self):
        if self.lo is not None and self.hi is not None:
            if self.lo > self.hi:
                return True
            if self.lo == self.hi and (self.lo_open or self.hi_open or self.lo in self.ne):
                return True
        return False

    def meet(self, o):
        lo, lo_open = self.lo, self.lo_open
        if o.lo is not None and (lo is None or o.lo > lo or (o.lo == lo and o.lo_open)):
            lo, lo_open = o.lo, o.lo_open
        hi, hi_open = self.hi, self.hi_open
        if o.hi is not None and (hi is None or o.hi < hi or (o.hi == hi and o.hi_open)):
            hi, hi_open = o.hi, o.hi_open
        ne = self.ne | o.ne
        if lo is not None and not lo_open and lo in ne:
            lo_open = True
        if hi is not None and not hi_open and hi in ne:
            hi_open = True
        return Interval(lo, hi, lo_open, hi_open, ne)

    def hull(self, o):
        lo = None if self.lo is None or o.lo is None else min(self.lo, o.lo)
        lo_open = (self.lo_open if lo == self.lo else True) and (o.lo_open if lo == o.lo else True)
        hi = None if self.hi is None or o.hi is None else max(self.hi, o.hi)
        hi_open = (self.hi_open if hi == self.hi else True) and (o.hi_open if hi == o.hi else True)
        return Interval(lo, hi, lo_open, hi_open, self.ne & o.ne)


FULL = Interval()


def iv_const(c):
    return Interval(c, c)


def iv_add(a, b):
    lo = None if a.lo is None or b.lo is None else a.lo + b.lo
    hi = None if a.hi is None or b.hi is None else a.hi + b.hi
    return Interval(lo, hi, a.lo_open or b.lo_open, a.hi_open or b.hi_open)


def iv_scale(a, c):
    if c == 0:
        return iv_const(Fraction(0))
    if c > 0:
        return Interval(
            None if a.lo is None else a.lo * c, None if a.hi is None else a.hi * c, a.lo_open, a.hi_open
        )
    return Interval(
        None if a.hi is None else a.hi * c, None if a.lo is None else a.lo * c, a.hi_open, a.lo_open
    )


def iv_mul(a, b):
    # only sign-definite reasoning with infinities; conservative otherwise
    def sgn(x):
        if x.lo is not None and x.lo >= 0:
            return 1
        if x.hi is not None and x.hi <= 0:
            return -1
        return 0

    if None not in (a.lo, a.hi, b.lo, b.hi):
        c = [
            (a.lo * b.lo, a.lo_open or b.lo_open),
            (a.lo * b.hi, a.lo_open or b.hi_open),
            (a.hi * b.lo, a.hi_open or b.lo_open),
            (a.hi * b.hi, a.hi_open or b.hi_open),
        ]
        lo = min(v for v, _ in c)
        hi = max(v for v, _ in c)
        # openness only kept when zero is excluded or every witness is open
        return Interval(
            lo, hi, all(o for v, o in c if v == lo), all(o for v, o in c if v == hi)
        )
    sa, sb = sgn(a), sgn(b)
    if sa and sb:
        pos = sa * sb > 0
        aa = a if sa > 0 else iv_scale(a, -1)
        bb = b if sb > 0 else iv_scale(b, -1)
        lo = aa.lo * bb.lo
        lo_open = (
            (aa.lo_open and bb.lo_open)
            if lo == 0 and aa.lo == 0 and bb.lo == 0
            else ((aa.lo == 0 and aa.lo_open and (bb.lo > 0 or bb.lo_open)) or (bb.lo == 0 and bb.lo_open and (aa.lo > 0 or aa.lo_open)))
            if lo == 0
            else (aa.lo_open or bb.lo_open)
        )
        r = Interval(lo, None, lo_open)
        return r if pos else iv_scale(r, -1)
    return FULL


class Alt:
    """constraints a joined partition stands for: one of the alternatives holds"""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts  # list of (facts, sub, hist)


class State:
    __slots__ = ("heap", "owned", "facts", "atoms", "sub", "csub", "neq", "log", "over", "I", "tags", "hist")

    def __init__(self, I):
        self.I = I
        self.heap = {}
        self.owned = set()
        self.facts = {}
        self.atoms = {}
        self.sub = {}
        self.csub = {}
        self.neq = {}
        self.log = ()
        self.over = {}
        self.tags = {}
        self.hist = ()

    def fork(self):
        s = State.__new__(State)
        s.I = self.I
        s.heap = dict(self.heap)
        self.owned = set()
        s.owned = set()
        s.facts = dict(self.facts)
        s.atoms = dict(self.atoms)
        s.sub = dict(self.sub)
        s.csub = dict(self.csub)
        s.neq = dict(self.neq)
        s.log = self.log
        s.over = dict(self.over)
        s.tags = dict(self.tags)
        s.hist = self.hist
        return s

    # heap -----------------------------------------------------------------
    def alloc(self, obj):
        I = self.I
        I.next_addr += 1
        I.tick += 1
        obj.stamp = I.tick
        self.heap[I.next_addr] = obj
        self.owned.add(I.next_addr)
        return Ref(I.next_addr)

    def o(self, ref):
        return self.heap[ref.addr]

    def w(self, ref):
        a = ref.addr
        o = self.heap[a]
        if a not in self.owned:
            o = o.clone()
            self.heap[a] = o
            self.owned.add(a)
        self.I.tick += 1
        o.stamp = self.I.tick
        return o

    def list(self, items, meta=None):
        return self.alloc(Obj("list", LIST, {}, list(items), meta))

    def dict(self, pairs=()):
        d = {}
        for k, v in pairs:
            d[hkey(k)] = (k, v)
        return self.alloc(Obj("dict", DICT, {}, d))

    # numeric facts --------------------------------------------------------
    def norm(self, r):
        if self.sub:
            return subst(r, self.sub)
        return r

    def atom_iv(self, a, depth=0):
        f = self.facts.get(Poly.of(a))
        base = FULL
        if a.args is None:
            if a.name == "tau":
                base = Interval(Fraction(62831853, 10**7), Fraction(62831854, 10**7), True, True)
            elif a.name == "inf":
                base = Interval(Fraction(10) ** 300, None)
        elif a.name in ("sqrt", "abs", "hypot"):
            base = Interval(Fraction(0), None)
            if depth < 3 and a.name == "abs":
                iv = self.iv_rat(a.args[0], depth + 1)
                if iv.lo is not None and iv.lo >= 0:
                    base = base.meet(Interval(iv.lo, iv.hi, iv.lo_open, iv.hi_open))
                elif iv.hi is not None and iv.hi <= 0:
                    j = iv_scale(iv, -1)
                    base = base.meet(Interval(j.lo, j.hi, j.lo_open, j.hi_open))
                if Fraction(0) in iv.ne:
                    base = base.meet(Interval(Fraction(0), None, True))
            elif depth < 3 and a.name == "sqrt":
                iv = self.iv_rat(a.args[0], depth + 1)
                if iv.lo is not None and (iv.lo > 0 or (iv.lo == 0 and iv.lo_open)):
                    base = Interval(Fraction(0), None, True)
        elif a.name == "bits":
            base = Interval(Fraction(0), 2 ** (a.args[2].cval() - a.args[1].cval()) - 1)
        elif a.name in ("sin", "cos"):
            base = Interval(Fraction(-1), Fraction(1))
        elif a.name == "atan":
            base = Interval(Fraction(-157079633, 10**8), Fraction(157079633, 10**8), True, True)
        elif a.name == "atan2":
            base = Interval(Fraction(-314159266, 10**8), Fraction(314159266, 10**8), True, True)
        elif a.name in ("min", "max") and depth < 3:
            ivs = [self.iv_rat(x, depth + 1) for x in a.args]
            los = [i.lo for i in ivs]
            his = [i.hi for i in ivs]
            if a.name == "min":
                lo = None if None in los else min(los)
                hs = [h for h in his if h is not None]
                hi = min(hs) if hs else None
            else:
                hi = None if None in his else max(his)
                ls = [l for l in los if l is not None]
                lo = max(ls) if ls else None
            base = Interval(lo, hi)
        elif a.name == "mod" and depth < 3:
            iv = self.iv_rat(a.args[1], depth + 1)
            if iv.lo is not None and iv.lo >= 0 and iv.hi is not None:
                base = Interval(Fraction(0), iv.hi, False, True)
        elif a.name in ("round", "trunc", "floor", "ceil") and depth < 3 and len(a.args) == 1:
            iv = self.iv_rat(a.args[0], depth + 1)
            import math

            lo = None if iv.lo is None else Fraction(round(iv.lo) if a.name == "round" else math.trunc(iv.lo) if a.name == "trunc" else math.floor(iv.lo) if a.name == "floor" else math.ceil(iv.lo))
            hi = None if iv.hi is None else Fraction(round(iv.hi) if a.name == "round" else math.trunc(iv.hi) if a.name == "trunc" else math.floor(iv.hi) if a.name == "floor" else math.ceil(iv.hi))
            base = Interval(lo, hi)
        elif a.name == "len":
            base = Interval(Fraction(0), None)
        if f is not None:
            return base.meet(f)
        return base

    def iv_poly(self, p, depth=0):
        tot = iv_const(Fraction(0))
        ivs = {}
        for m, c in p.t.items():
            t = iv_const(Fraction(1))
            for a, e in m:
                ai = ivs.get(a)
                if ai is None:
                    ai = ivs[a] = self.atom_iv(a, depth)
                if e % 2 == 0:
                    sq = Interval(Fraction(0), None)
                    if (ai.lo is not None and (ai.lo > 0 or ai.lo == 0 and ai.lo_open)) or (
                        ai.hi is not None and (ai.hi < 0 or ai.hi == 0 and ai.hi_open)
                    ) or Fraction(0) in ai.ne:
                        sq = Interval(Fraction(0), None, True)
                    if ai.lo is not None and ai.hi is not None:
                        sq = sq.meet(Interval(None, max(abs(ai.lo), abs(ai.hi)) ** 2))
                    for _ in range(e // 2):
                        t = iv_mul(t, sq)
                    continue
                for _ in range(e):
                    t = iv_mul(t, ai)
            tot = iv_add(tot, iv_scale(t, c))
            if tot.lo is None and tot.hi is None:
                return FULL
        return tot

    def iv_rat(self, r, depth=0):
        if r.den is not ONE:
            f = self.sign_rat(r)
            if f is not None:
                return f
            return FULL
        p = r.num
        c = p.cval()
        if c is not None:
            return iv_const(c)
        q, lead, k = split(p)
        iv = self.iv_poly(q, depth)
        f = self.facts.get(q)
        if f is not None:
            iv = iv.meet(f)
        iv2 = iv_add(iv_scale(Interval(iv.lo, iv.hi, iv.lo_open, iv.hi_open), lead), iv_const(k))
        iv2.ne = frozenset(x * lead + k for x in iv.ne)
        return iv2

    def sign_rat(self, r):
        iv = self.iv_rat(Rat(r.num.mul(r.den)), 1)
        if iv.lo is not None and iv.lo >= 0:
            return Interval(Fraction(0), None, iv.lo > 0 or iv.lo_open)
        if iv.hi is not None and iv.hi <= 0:
            return Interval(None, Fraction(0), False, iv.hi < 0 or iv.hi_open)
        return None

    def decide(self, at):
        k = at[0]
        if k in ("lt", "le", "eq"):
            r = self.norm(at[1])
            if r.den is not ONE:
                r = Rat(cleared(r)) if k != "eq" else Rat(r.num)
            c = r.cval()
            if c is not None:
                return c < 0 if k == "lt" else c <= 0 if k == "le" else c == 0
            iv = self.iv_rat(r)
            z = Fraction(0)
            if k == "lt":
                if iv.hi is not None and (iv.hi < 0 or iv.hi == 0 and iv.hi_open):
                    return True
                if iv.lo is not None and iv.lo >= 0:
                    return False
                if iv.hi == 0 and z in iv.ne:
                    return True
            elif k == "le":
                if iv.hi is not None and iv.hi <= 0:
                    return True
                if iv.lo is not None and (iv.lo > 0 or iv.lo == 0 and iv.lo_open):
                    return False
                if iv.lo == 0 and z in iv.ne:
                    return False
            else:
                if z in iv.ne:
                    return False
                if iv.lo is not None and (iv.lo > 0 or iv.lo == 0 and iv.lo_open):
                    return False
                if iv.hi is not None and (iv.hi < 0 or iv.hi == 0 and iv.hi_open):
                    return False
                if iv.lo == 0 and iv.hi == 0:
                    return True
            return None
        if k == "ceq":
            a, b = at[1], at[2]
            ca = self.csub.get(a)
            if ca is not None:
                return ca == b if isinstance(b, Const) else None
            if b in self.neq.get(a, ()):
                return False
            return self.atoms.get(at)
        return self.atoms.get(at)

    def assume(self, at, val):
        """refine in place; returns False when infeasible"""
        d = self.decide(at)
        if d is not None:
            return d == val
        k = at[0]
        if k in ("lt", "le", "eq"):
            r = self.norm(at[1])
            if r.den is not ONE:
                r = Rat(cleared(r)) if k != "eq" else Rat(r.num)
            z = Fraction(0)
            if k == "lt":
                iv = Interval(None, z, False, True) if val else Interval(z, None)
            elif k == "le":
                iv = Interval(None, z) if val else Interval(z, None, True)
            else:
                iv = Interval(z, z) if val else Interval(ne=frozenset([z]))
            return self._constrain(r.num, iv)
        if k == "ceq" and isinstance(at[2], Const):
            if val:
                self.csub[at[1]] = at[2]
            else:
                self.neq[at[1]] = self.neq.get(at[1], frozenset()) | {at[2]}
            return True
        self.atoms[at] = val
        return True

    def _constrain(self, p, iv):
        q, lead, k = split(p)
        # lead*q + k in iv
        shifted = Interval(
            None if iv.lo is None else iv.lo - k,
            None if iv.hi is None else iv.hi - k,
            iv.lo_open,
            iv.hi_open,
        )
        ne = frozenset((x - k) / lead for x in iv.ne)
        t = iv_scale(shifted, 1 / lead)
        t.ne = ne
        cur = self.facts.get(q, FULL)
        new = cur.meet(t)
        calc = self.iv_poly(q)
        both = new.meet(calc)
        if both.empty():
            return False
        self.facts[q] = new
        if len(q.t) == 2:
            self._turns(q, new)
        if both.lo is not None and both.lo == both.hi:
            return self._equate(q, both.lo)
        return True

    def _turns(self, q, iv):
        """bounds of an angle that is compared with a share of a turn: q = c * angle + d * tau"""
        other = tau = None
        for m, c in q.t.items():
            if len(m) != 1 or m[0][1] != 1:
                return
            if m[0][0].args is None and m[0][0].name == "tau":
                tau = m[0][0], c
            else:
                other = m[0][0], c
        if other is None or tau is None or iv.lo is None and iv.hi is None:
            return
        a, c = other
        b = iv_scale(iv_add(Interval(iv.lo, iv.hi, iv.lo_open, iv.hi_open), iv_scale(self.atom_iv(tau[0]), -tau[1])), 1 / c)
        k = Poly.of(a)
        self.facts[k] = self.facts.get(k, FULL).meet(Interval(b.lo, b.hi))

    def _equate(self, q, val):
        # q == val : find atom occurring linearly and only once
        cand = None
        for m, c in q.t.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a.args is not None or a.name in ("tau", "inf"):
                    continue
                cnt = sum(1 for m2 in q.t for a2, _ in m2 if a2 is a)
                nested = any(
                    a in Rat(Poly.of(a2)).all_atoms() for m2 in q.t for a2, _ in m2 if a2 is not a
                )
                if cnt == 1 and not nested:
                    if cand is None or a.n > cand[0].n:
                        cand = (a, c)
        if cand is None:
            return True
        a, c = cand
        rest = q.add(Poly({((a, 1),): c}), -1)
        expr = (R(val) - Rat(rest)) / Rat(Poly.const(c))
        self.sub = {k: subst(v, {a: expr}) for k, v in self.sub.items()}
        self.sub[a] = expr
        old = self.facts
        self.facts = {}
        for p, iv in old.items():
            if a in Rat(p).all_atoms():
                r = subst(Rat(p), {a: expr})
                if r.den is not ONE:
                    continue
                c2 = r.num.cval()
                if c2 is not None:
                    if iv.meet(iv_const(c2)).empty() or c2 in iv.ne:
                        return False
                    continue
                if not self._constrain(r.num, iv):
                    return False
            else:
                self.facts[p] = iv.meet(self.facts[p]) if p in self.facts else iv
        return True


def cleared(r):
    """numerator of the fraction over a positive denominator"""
    if len(r.den.t) == 1:
        (m, c), = r.den.t.items()
        if all(e % 2 == 0 or a.args is None and a.name == "tau" for a, e in m):
            return r.num.scale(1 / c)
    return r.num.mul(r.den)


def split(p):
    """p = lead*q + k with q monic, without constant term"""
    k = p.t.get((), Fraction(0))
    lm = None
    terms = {m: c for m, c in p.t.items() if m != ()}
    q = Poly(terms)
    lm = q.lead()
    lead = terms[lm]
    if lead != 1:
        q = q.scale(1 / lead)
    return q, lead, k


LIST = BuiltinClass("list")
DICT = BuiltinClass("dict")
SET = BuiltinClass("set")
OBJECT = BuiltinClass("object")
FLOAT = BuiltinClass("float")


def hkey(v):
    if isinstance(v, Const):
        if v.v is True:
            return ("n", R(1))
        if v.v is False:
            return ("n", R(0))
        return ("c", type(v.v).__name__, v.v)
    if isinstance(v, Num):
        return ("n", v.r)
    if isinstance(v, Tup):
        return ("t",) + tuple(hkey(x) for x in v.items)
    if isinstance(v, Opaque):
        return ("op", v.key)
    return ("o", v)
