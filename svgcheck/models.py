"""Models of the builtins and standard-library functions the package uses."""
import ast
import math
import re as _re
import sys
from fractions import Fraction

from .values import *
from .sym import R, Rat, Poly, atom, fun, subst, equal, ZERO, RONE, TAU

MATH_FUNS = {
    "sqrt", "sin", "cos", "tan", "atan", "acos", "asin", "atan2", "hypot", "ceil", "floor", "fabs",
    "log", "radians", "degrees", "trunc", "exp", "pow", "isclose", "copysign", "log10", "log2", "fmod", "isnan", "isinf", "isfinite", "dist", "fsum",
}

BUILTIN_FUNS = {
    "abs", "all", "any", "bin", "callable", "chr", "delattr", "dir", "divmod", "eval", "exec", "format", "getattr",
    "globals", "hasattr", "hash", "hex", "id", "input", "isinstance", "issubclass", "iter", "len", "locals", "max",
    "min", "next", "oct", "open", "ord", "pow", "print", "repr", "round", "setattr", "sorted", "sum", "vars", "ascii",
}
BUILTIN_CLASSES = {
    "int", "float", "str", "list", "tuple", "dict", "set", "complex", "bool", "bytes", "object", "type", "slice",
    "frozenset", "bytearray", "range", "map", "zip", "filter", "enumerate", "reversed", "classmethod", "staticmethod",
    "property", "super", "memoryview",
}


def builtin(I, name):
    from .engine import EXC

    if name in EXC or name in BUILTIN_CLASSES:
        return BuiltinClass(name)
    if name in BUILTIN_FUNS:
        return Builtin(name)
    if name == "NotImplemented":
        return NOTIMPL
    if name == "Ellipsis":
        return Const(Ellipsis)
    if name in ("__name__", "__file__"):
        return Const(name)
    if name == "__debug__":
        return TRUE
    import builtins

    if hasattr(builtins, name):
        return Builtin(name)
    return None


# --------------------------------------------------------------------------- classes


def builtin_mro(I, b):
    if b.name in ("MutableSequence", "Sequence"):
        return [I.nonrepo_class("_collections_abc", b.name)] if False else None
    return None


ABC = {"MutableSequence", "Sequence", "MutableMapping", "Mapping", "Iterable", "Iterator", "Sized", "Container", "Hashable", "ABC", "Callable", "Collection", "Number", "Real"}


def py_of(t):
    from .engine import PYTYPES

    return PYTYPES.get(t.name)


def builtin_class_attr(I, c, name):
    from .engine import PYTYPES

    py = PYTYPES.get(c.name)
    if py is None:
        return None
    if name in ("__getattribute__", "__setattr__", "__init__", "__repr__", "__str__", "__eq__", "__ne__", "__hash__"):
        if name in py.__dict__:
            if name == "__hash__" and py.__dict__[name] is None:
                return NONE
            return Builtin("%s.%s" % (c.name, name))
        return None
    if name in ("__class__", "__dict__", "__weakref__", "__doc__", "__slots__"):
        return None
    if name in py.__dict__:
        return Builtin("%s.%s" % (c.name, name))
    return None


def builtin_subclass(I, t, c):
    from .engine import PYTYPES

    if c.name == "object":
        return True
    if isinstance(t, ClassVal):
        for b in t.mro:
            if isinstance(b, BuiltinClass):
                if b == c:
                    return True
                p, q = PYTYPES.get(b.name), PYTYPES.get(c.name)
                if p is not None and q is not None and issubclass(p, q):
                    return True
        if c.name in ABC:
            return abc_check(I, t, c.name)
        return False
    p, q = PYTYPES.get(t.name), PYTYPES.get(c.name)
    if p is not None and q is not None:
        return issubclass(p, q)
    if p is not None and c.name in ABC:
        import collections.abc, numbers, abc

        k = getattr(collections.abc, c.name, None) or getattr(numbers, c.name, None)
        if k is not None:
            return issubclass(p, k)
    if t == c:
        return True
    return None if q is None else False


def abc_check(I, t, name):
    if any(isinstance(b, BuiltinClass) and b.name == name for b in t.mro) or any(
        isinstance(b, ClassVal) and b.name == name for b in t.mro
    ):
        return True
    req = {"Iterable": ["__iter__"], "Iterator": ["__iter__", "__next__"], "Sized": ["__len__"], "Container": ["__contains__"], "Callable": ["__call__"], "Hashable": ["__hash__"], "Collection": ["__len__", "__iter__", "__contains__"]}.get(name)
    if req is None:
        return False
    return all(I.find(t, r)[0] is not None for r in req)


# --------------------------------------------------------------------------- text


def pieces_of(v):
    if isinstance(v, Const) and isinstance(v.v, str):
        return (v.v,) if v.v else ()
    if isinstance(v, Text):
        return v.pieces
    if isinstance(v, Opaque):
        return (OpPiece(v.key),)
    return (OpPiece(v),)


def mktext(pieces):
    out = []
    for p in pieces:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] = out[-1] + p
                continue
        out.append(p)
    if not out:
        return Const("")
    if len(out) == 1 and isinstance(out[0], str):
        return Const(out[0])
    if len(out) == 1 and isinstance(out[0], OpPiece):
        k = out[0].key
        return k if isinstance(k, V) else Opaque("str", k)
    return Text(tuple(out))


def concat(vals):
    ps = []
    for v in vals:
        ps.extend(pieces_of(v))
    return mktext(ps)


def is_str(v):
    return (isinstance(v, Const) and isinstance(v.v, str)) or isinstance(v, Text) or (
        isinstance(v, Opaque) and v.t in ("str", "numstr")
    )


def num_text(fmt, v):
    """text of a number; constants are rendered exactly"""
    c = v.r.cval()
    if c is not None:
        if fmt == "str":
            if v.k == "i" or (not isinstance(v.k, str)):
                if c.denominator == 1 and v.k == "i":
                    return Const(str(int(c)))
            if v.k != "n":
                return Const(repr(float(c)))
        else:
            try:
                if fmt.startswith("%"):
                    if fmt[-1] in "dxXoi":
                        return Const(fmt % int(c))
                    return Const(fmt % float(c))
                x = int(c) if v.k == "i" else float(c)
                return Const(format(x, fmt))
            except (ValueError, TypeError, OverflowError):
                pass
    return Text((NumPiece(fmt, v),))


def to_str(I, st, v):
    if is_str(v):
        return [(st, v)]
    if isinstance(v, Const):
        return [(st, Const(str(v.v)))]
    if isinstance(v, Num):
        if not isinstance(v.k, str):
            r = I.call_type_method(st, v, "__str__", [])
            if r is None:
                r = I.call_type_method(st, v, "__repr__", [])
            if r is not None:
                return r
            return [(st, num_text("str", Num(v.r, "f")))]
        return [(st, num_text("str", v))]
    if isinstance(v, Ref) and isinstance(st.o(v).cls, ClassVal):
        for m in ("__str__", "__repr__"):
            r = I.call_type_method(st, v, m, [])
            if r is not None:
                return r
        return [(st, Opaque("str", ("str", v)))]
    if isinstance(v, BoolV):
        return [(s, b if not isinstance(b, bool) else Const(str(b))) for s, b in I.truth(st, v)]
    if isinstance(v, Bits):
        return [(st, Text((NumPiece("str", v),)))]
    if isinstance(v, ExcInst):
        if len(v.args) == 1 and is_str(v.args[0]):
            return [(st, v.args[0])]
        return [(st, Opaque("str", ("exc", v)))]
    return [(st, Opaque("str", ("str", v)))]


def to_repr(I, st, v):
    if isinstance(v, Const):
        return [(st, Const(repr(v.v)))]
    if is_str(v):
        return [(st, mktext(("'",) + pieces_of(v) + ("'",)))]
    if isinstance(v, Num):
        if not isinstance(v.k, str):
            r = I.call_type_method(st, v, "__repr__", [])
            if r is not None:
                return r
            return [(st, num_text("str", Num(v.r, "f")))]
        return [(st, num_text("str", v))]
    if isinstance(v, Ref) and isinstance(st.o(v).cls, ClassVal):
        r = I.call_type_method(st, v, "__repr__", [])
        if r is not None:
            return r
        return [(st, Opaque("str", ("repr", v)))]
    if isinstance(v, Ref) and st.o(v).kind == "list" or isinstance(v, Tup):
        items = st.o(v).items if isinstance(v, Ref) else v.items
        cur = [(st, [])]
        for x in items:
            nxt = []
            for s, acc in cur:
                if isinstance(acc, Raise):
                    nxt.append((s, acc))
                    continue
                for s2, t in to_repr(I, s, x):
                    nxt.append((s2, t if isinstance(t, Raise) else acc + [t]))
            cur = nxt
        a, b = ("[", "]") if isinstance(v, Ref) else ("(", ")")
        out = []
        for s, acc in cur:
            if isinstance(acc, Raise):
                out.append((s, acc))
                continue
            ps = [Const(a)]
            for i, t in enumerate(acc):
                if i:
                    ps.append(Const(", "))
                ps.append(t)
            ps.append(Const(b))
            out.append((s, concat(ps)))
        return out
    return to_str(I, st, v)


def format_value(I, st, v, spec):
    if isinstance(v, Num):
        if spec and spec[-1] in "sd" and v.r.cval() is None:
            return [(st, Text((NumPiece("str" if spec[-1] == "d" and len(spec) == 1 else spec, v),)))]
        return [(st, num_text(spec, Num(v.r, v.k if isinstance(v.k, str) else "f")))]
    if isinstance(v, Bits):
        return [(st, Text((NumPiece(spec, v),)))]
    if isinstance(v, Const) and isinstance(v.v, str):
        try:
            return [(st, Const(format(v.v, spec)))]
        except ValueError:
            return I.throws(st, "ValueError", "format")
    return [(st, Opaque("str", ("format", spec, v)))]


def percent_format(I, st, fmt, args):
    """'fmt' % args"""
    if not isinstance(fmt, Const):
        return [(st, Opaque("str", ("pct", fmt, args)))]
    named = None
    if isinstance(args, Tup):
        vals = list(args.items)
    elif isinstance(args, Ref) and st.o(args).kind == "dict":
        vals, named = None, args
    else:
        vals = [args]
    toks = _re.split(r"(%(?:\([^)]*\))?[-+ #0]*(?:\d+|\*)?(?:\.(?:\d+|\*))?[a-zA-Z%])", fmt.v)
    cur = [(st, [], 0)]
    for t in toks:
        nxt = []
        for s, acc, i in cur:
            if isinstance(acc, Raise):
                nxt.append((s, acc, i))
                continue
            if not (t.startswith("%") and len(t) > 1):
                nxt.append((s, acc + [Const(t)], i))
                continue
            if t == "%%":
                nxt.append((s, acc + [Const("%")], i))
                continue
            m = _re.match(r"%\(([^)]*)\)(.*)", t)
            if m:
                if named is None:
                    nxt.append((s, I.exc("TypeError", "format requires a mapping"), i))
                    continue
                rs = get_item(I, s, named, Const(m.group(1)))
                spec = "%" + m.group(2)
            else:
                if vals is None or i >= len(vals):
                    nxt.append((s, I.exc("TypeError", "not enough arguments for format string"), i))
                    continue
                rs = [(s, vals[i])]
                spec = t
                i += 1
            for s2, v in rs:
                if isinstance(v, Raise):
                    nxt.append((s2, v, i))
                    continue
                c = spec[-1]
                if c == "s":
                    for s3, x in to_str(I, s2, v):
                        nxt.append((s3, x if isinstance(x, Raise) else acc + [x], i))
                elif c == "r":
                    for s3, x in to_repr(I, s2, v):
                        nxt.append((s3, x if isinstance(x, Raise) else acc + [x], i))
                elif isinstance(v, Num):
                    if spec in ("%d", "%i") and v.k == "i":
                        nxt.append((s2, acc + [num_text("str", v)], i))
                    else:
                        nxt.append((s2, acc + [num_text(spec, Num(v.r, v.k if isinstance(v.k, str) else "f"))], i))
                elif isinstance(v, Bits):
                    nxt.append((s2, acc + [Text((NumPiece(spec, v),))], i))
                elif isinstance(v, Const) and isinstance(v.v, bool):
                    nxt.append((s2, acc + [Const(spec % v.v)], i))
                elif isinstance(v, (Const, Text)) or is_str(v) or isinstance(v, (Tup, Cx)):
                    nxt.append((s2, I.exc("TypeError", "%s format: a number is required" % spec), i))
                elif isinstance(v, Ref):
                    r = I.call_type_method(s2, v, "__float__" if c in "eEfFgG" else "__int__", [])
                    if r is None:
                        nxt.append((s2, I.exc("TypeError", "must be real number"), i))
                    else:
                        for s3, x in r:
                            if isinstance(x, Raise):
                                nxt.append((s3, x, i))
                            elif isinstance(x, Num):
                                nxt.append((s3, acc + [num_text(spec, x)], i))
                            else:
                                nxt.append((s3, acc + [Opaque("str", ("pct", spec, x))], i))
                else:
                    nxt.append((s2, acc + [Opaque("str", ("pct", spec, v))], i))
        cur = nxt
    out = []
    for s, acc, i in cur:
        if isinstance(acc, Raise):
            out.append((s, acc))
        elif vals is not None and i < len(vals) and not isinstance(args, Ref):
            out.append((s, I.exc("TypeError", "not all arguments converted during string formatting")))
        else:
            out.append((s, concat(acc)))
    return out


def str_method(I, st, v, name, args, kw):
    consts = all(isinstance(a, Const) or (isinstance(a, Num) and a.const() is not None) or isinstance(a, Tup) for a in args)
    if name == "join":
        out = []
        for s, items in iterate(I, st, args[0]):
            if isinstance(items, Raise):
                out.append((s, items))
                continue
            if isinstance(items, OSeq):
                out.append((s, Opaque("str", ("join", v, items.key))))
                continue
            bad = None
            ps = []
            for i, x in enumerate(items):
                if i:
                    ps.append(v)
                if not is_str(x) and not (isinstance(x, Opaque) and x.t == "any"):
                    bad = x
                ps.append(x)
            if bad is not None:
                out.append((s, I.exc("TypeError", "sequence item: expected str instance")))
            else:
                out.append((s, concat(ps)))
        return out
    if name == "format":
        return str_format(I, st, v, args, kw)
    if isinstance(v, Const) and consts and not kw:
        pa = []
        for a in args:
            if isinstance(a, Num):
                pa.append(int(a.const()))
            elif isinstance(a, Tup):
                if not all(isinstance(x, Const) for x in a.items):
                    return [(st, I.fresh("str"))]
                pa.append(tuple(x.v for x in a.items))
            else:
                pa.append(a.v)
        try:
            r = getattr(v.v, name)(*pa)
        except AttributeError:
            return I.throws(st, "AttributeError", name)
        except TypeError as e:
            return I.throws(st, "TypeError", str(e))
        except ValueError as e:
            return I.throws(st, "ValueError", str(e))
        except UnicodeError:
            return I.throws(st, "ValueError", "unicode")
        return [(st, lift(I, st, r))]
    if isinstance(v, Text) and not kw:
        cv = concretize(I, v)
        ca = []
        for a in args:
            if isinstance(a, Tup):
                ca.append(tuple(concretize(I, x) if concretize(I, x) is not None else "\0" for x in a.items))
            elif isinstance(a, Num) and a.const() is not None:
                ca.append(int(a.const()))
            else:
                ca.append(concretize(I, a) if is_str(a) else a.v if isinstance(a, Const) else Ellipsis)
                if ca[-1] is None and a != NONE:
                    ca[-1] = Ellipsis
        if not all(isinstance(p, str) or p.fmt in ("lit", "hexd") for p in v.pieces):
            cv = None
        if cv is not None and Ellipsis not in ca and name not in ("isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum", "encode"):
            try:
                return [(st, lift(I, st, getattr(cv, name)(*ca)))]
            except (ValueError, TypeError) as e:
                return I.throws(st, type(e).__name__, str(e))
    ps = pieces_of(v)
    if name in ("startswith", "endswith") and len(args) == 1:
        pre = args[0].items if isinstance(args[0], Tup) else (args[0],)
        if all(isinstance(p, Const) for p in pre) and ps:
            edge = ps[0] if name == "startswith" else ps[-1]
            if isinstance(edge, str):
                res = []
                for p in pre:
                    f = edge.startswith if name == "startswith" else edge.endswith
                    if f(p.v):
                        res.append(True)
                    elif len(p.v) <= len(edge) or not (p.v.startswith(edge) if name == "startswith" else p.v.endswith(edge)):
                        res.append(False)
                    else:
                        res.append(None)
                if True in res:
                    return [(st, TRUE)]
                if None not in res:
                    return [(st, FALSE)]
        return [(st, BoolV(("pred", name, v, tuple(args)), False))]
    if name in ("strip", "rstrip", "lstrip"):
        chars = args[0].v if args and isinstance(args[0], Const) else None
        if args and not isinstance(args[0], Const):
            return [(st, Opaque("str", ("m", name, v, tuple(args))))]
        l = list(ps)
        ok = True
        if name in ("strip", "rstrip") and l:
            if isinstance(l[-1], str):
                t = l[-1].rstrip(chars) if chars is not None else l[-1].rstrip()
                if t or len(l) == 1:
                    l[-1] = t
                else:
                    ok = False
            elif isinstance(l[-1], NumPiece) and chars is not None and set(chars) <= set("0.") and _FIXED.match(l[-1].fmt) and (l[-1].fmt.endswith("~") or "." not in chars):
                # trailing zeros after the decimal point carry no value
                l[-1] = NumPiece(l[-1].fmt.rstrip("~") + "~", l[-1].num)
            elif isinstance(l[-1], NumPiece) and (chars is None or not set(chars) & set("0123456789abcdefABCDEFinf.")):
                pass
            else:
                ok = False
        if ok and name in ("strip", "lstrip") and l:
            if isinstance(l[0], str):
                t = l[0].lstrip(chars) if chars is not None else l[0].lstrip()
                if t or len(l) == 1:
                    l[0] = t
                else:
                    ok = False
            elif isinstance(l[0], NumPiece) and (chars is None or not set(chars) & set("0123456789-+.inf")):
                pass
            else:
                ok = False
        if ok:
            return [(st, mktext(l))]
        return [(st, Opaque("str", ("m", name, v, tuple(args))))]
    if name in ("lower", "upper", "casefold"):
        if all(isinstance(p, (str, NumPiece)) for p in ps):
            return [(st, mktext([getattr(p, name)() if isinstance(p, str) else NumPiece(p.fmt.lower() if name != "upper" else p.fmt.upper(), p.num) if p.fmt != "str" else p for p in ps]))]
        if isinstance(v, Opaque) and v.t == "numstr":
            return [(st, v)]
        if isinstance(v, Opaque) and isinstance(v.key, tuple) and v.key[:2] == ("m", name):
            return [(st, v)]
        return [(st, Opaque("str", ("m", name, v, ())))]
    if name in ("islower", "isupper", "isdigit", "isalpha", "isspace", "isnumeric", "isdecimal", "isalnum"):
        return [(st, BoolV(("pred", name, v), False))]
    if name in ("split", "rsplit", "splitlines"):
        return [(st, OSeq(("m", name, v, tuple(args)), "str"))]
    if name in ("partition", "rpartition"):
        return [(st, Tup(tuple(Opaque("str", ("m", name, v, tuple(args), i)) for i in range(3))))]
    if name in ("find", "rfind", "count", "index", "rindex"):
        r = [(st, Num(Rat(Poly.of(atom(("m", name, v, tuple(args))))), "i"))]
        if name in ("index", "rindex"):
            return I.possible(st, "ValueError", "substring not found") + r
        return r
    if name == "replace" and len(args) == 2 and all(isinstance(a, Const) for a in args):
        if all(isinstance(p, str) or (isinstance(p, NumPiece) and not _re.search(r"[0-9.eE+\-a-fA-F]", args[0].v)) for p in ps):
            return [(st, mktext([p.replace(args[0].v, args[1].v) if isinstance(p, str) else p for p in ps]))]
    if name == "encode":
        return [(st, Opaque("bytes", ("m", name, v, tuple(args))))]
    return [(st, Opaque("str", ("m", name, v, tuple(args))))]


def str_format(I, st, v, args, kw):
    import string

    if not isinstance(v, Const):
        return [(st, Opaque("str", ("format", v, tuple(args))))]
    cur = [(st, [])]
    auto = 0
    try:
        parsed = list(string.Formatter().parse(v.v))
    except ValueError:
        return I.throws(st, "ValueError", "format")
    for lit, field, spec, conv in parsed:
        nxt = []
        if field is not None and field == "":
            field = str(auto)
            auto += 1
        for s, acc in cur:
            if isinstance(acc, Raise):
                nxt.append((s, acc))
                continue
            acc = acc + [Const(lit)]
            if field is None:
                nxt.append((s, acc))
                continue
            base = _re.match(r"[^.\[]*", field).group(0)
            rest = field[len(base):]
            if base.isdigit():
                if int(base) >= len(args):
                    nxt.append((s, I.exc("IndexError", "Replacement index out of range")))
                    continue
                rs = [(s, args[int(base)])]
            elif base in kw:
                rs = [(s, kw[base])]
            else:
                nxt.append((s, I.exc("KeyError", base)))
                continue
            for mm in _re.finditer(r"\.(\w+)|\[([^\]]*)\]", rest):
                rn = []
                for s2, x in rs:
                    if isinstance(x, Raise):
                        rn.append((s2, x))
                    elif mm.group(1):
                        rn.extend(I.get_attr(s2, x, mm.group(1)))
                    else:
                        k = mm.group(2)
                        rn.extend(get_item(I, s2, x, num(int(k)) if k.isdigit() else Const(k)))
                rs = rn
            for s2, x in rs:
                if isinstance(x, Raise):
                    nxt.append((s2, x))
                    continue
                if conv == "r":
                    q = to_repr(I, s2, x)
                elif spec:
                    q = format_value(I, s2, x, spec)
                else:
                    q = to_str(I, s2, x)
                for s3, y in q:
                    nxt.append((s3, y if isinstance(y, Raise) else acc + [y]))
        cur = nxt
    return [(s, a if isinstance(a, Raise) else concat(a)) for s, a in cur]


# Number tokens of an input text ("lit" pieces) stand for any number of one lexical class
# (I.lit_style).  Text operations are decided on a representative spelling that is unique
# per number and are lifted back afterwards.


def lit(I, n):
    return Text((NumPiece("lit", n),))


def spell(I, n):
    lits = I.lits
    for k, v in lits.items():
        if v == n:
            return k
    i = 900001 + len(lits)
    k = {"decimal": "%d.5", "integer": "%d", "exponent": "%d.5e1"}[I.lit_style] % i
    lits[k] = n
    return k


_FIXED = _re.compile(r"%?\.(\d+)f~?$")


def readable(p):
    """number texts that read back as the number they were made from (to their precision)"""
    if not isinstance(p.num, Num):
        return False
    m = _FIXED.match(p.fmt)
    return p.fmt == "lit" or (m is not None and int(m.group(1)) >= 6) or (p.fmt == "str" and p.num.k in ("f", "i"))


def concretize(I, v):
    """representative spelling of a text made of constants and literal tokens, or None"""
    if isinstance(v, Const) and isinstance(v.v, str):
        return v.v
    if isinstance(v, Text):
        ps = v.pieces
        if I.hexd and any(isinstance(p, NumPiece) and p.fmt == "hexd" for p in ps):
            ps = [I.hexspell[p.num] if isinstance(p, NumPiece) and p.fmt == "hexd" else p for p in ps]
        if all(isinstance(p, str) or (isinstance(p, NumPiece) and readable(p)) for p in ps):
            return "".join(p if isinstance(p, str) else spell(I, p.num) for p in ps)
    return None


def lit_spelling(I, v):
    """representative spelling of a text that holds literal tokens: positions in the text are
    those of the representative, lengths included"""
    if isinstance(v, Text) and any(isinstance(p, NumPiece) and p.fmt == "lit" for p in v.pieces):
        return concretize(I, v)
    return None


_LITRX = _re.compile(r"9\d{5}(?:\.5(?:[eE]1)?)?")


def lift_text(I, t):
    if I.hexd:
        return mktext([NumPiece("hexd", I.hexd[ch]) if ch in I.hexd else ch for ch in t])
    if not I.lits or "9" not in t:
        return Const(t)
    ps, pos = [], 0
    for m in _LITRX.finditer(t):
        n = I.lits.get(m.group().lower())
        if n is None:
            continue
        ps.append(t[pos : m.start()])
        ps.append(NumPiece("lit", n))
        pos = m.end()
    ps.append(t[pos:])
    return mktext(ps)


def lift(I, st, r):
    """python constant -> abstract value"""
    if isinstance(r, str):
        return lift_text(I, r)
    if r is None or isinstance(r, (bool, bytes)):
        return Const(r)
    if isinstance(r, int):
        return num(r, "i")
    if isinstance(r, float):
        return num(r, "f")
    if isinstance(r, complex):
        return Cx(R(r.real), R(r.imag))
    if isinstance(r, tuple):
        return Tup(tuple(lift(I, st, x) for x in r))
    if isinstance(r, list):
        return st.list([lift(I, st, x) for x in r])
    return I.fresh("lift")


# --------------------------------------------------------------------------- numbers


def as_num(v):
    if isinstance(v, Num):
        return v
    if isinstance(v, Const) and isinstance(v.v, bool):
        return num(int(v.v), "i")
    if isinstance(v, BoolV):
        return Num(Rat(Poly.of(atom(("bool", v.atom, v.neg)))), "i")
    return None


def is_complexish(v):
    return isinstance(v, Cx)


def kind2(a, b, div=False):
    ka = a.k if isinstance(a.k, str) else "f"
    kb = b.k if isinstance(b.k, str) else "f"
    if div:
        return "f"
    if ka == "f" or kb == "f":
        return "f"
    if ka == "n" or kb == "n":
        return "n"
    return "i"


def numop(I, st, op, a, b):
    x, y = a.r, b.r
    k = kind2(a, b)
    if op == "Add":
        return [(st, Num(x + y, k))]
    if op == "Sub":
        return [(st, Num(x - y, k))]
    if op == "Mult":
        return [(st, Num(x * y, k))]
    if op in ("Div", "FloorDiv", "Mod"):
        yn = st.norm(y)
        d = st.decide(("eq", y))
        out = []
        if d is True:
            return I.throws(st, "ZeroDivisionError", "division by zero")
        if d is None:
            from .engine import EXC

            ze = EXC["ZeroDivisionError"]
            if any(issubclass(ze, h) for hs in I.handlers for h in hs) or any(issubclass(ze, w) for w in I.want):
                bad = st.fork()
                if bad.assume(("eq", y), True):
                    out.append((bad, I.exc("ZeroDivisionError", "division by zero")))
                st = st.fork()
                st.assume(("eq", y), False)
        if op == "Div":
            try:
                return out + [(st, Num(x / y, "f"))]
            except ZeroDivisionError:
                return I.throws(st, "ZeroDivisionError", "division by zero")
        cx, cy = x.cval(), y.cval()
        if cx is not None and cy is not None:
            return out + [(st, Num(R(cx // cy if op == "FloorDiv" else cx % cy), k))]
        if k == "i" and cy is not None and cy >= 1 and cy.denominator == 1 and int(cy) & (int(cy) - 1) == 0:
            from . import bits

            n = int(cy).bit_length() - 1
            w = bits.shift(st, x, n) if op == "FloorDiv" else bits.modpow(st, x, n)
            if w is not None:
                return out + [(st, w)]
        if op == "FloorDiv":
            return out + [(st, Num(fun("floor", x / y), k))]
        q = None
        try:
            q = (x / y).cval()
        except ZeroDivisionError:
            pass
        if q is not None:
            return out + [(st, Num(R(q % 1) * y, k))]
        # x mod y with x known to lie in [0, y)
        if cy is not None and cy > 0:
            iv = st.iv_rat(st.norm(x))
            if iv.lo is not None and iv.lo >= 0 and iv.hi is not None and (iv.hi < cy or iv.hi == cy and iv.hi_open):
                return out + [(st, Num(x, k))]
        return out + [(st, Num(fun("mod", x, y), k))]
    if op == "Pow":
        c = y.cval()
        if c is not None and c.denominator == 1 and abs(c) <= 12:
            n = int(c)
            r = R(1)
            for _ in range(abs(n)):
                r = r * x
            if n < 0:
                if st.decide(("eq", r)) is True:
                    return I.throws(st, "ZeroDivisionError", "0 to negative power")
                r = R(1) / r
                k = "f"
            return [(st, Num(r, k))]
        if c == Fraction(1, 2):
            return [(st, Num(fun("sqrt", x), "f"))]
        return [(st, Num(fun("pow", x, y), "f"))]
    if op in ("LShift", "RShift", "BitAnd", "BitOr", "BitXor"):
        if "f" in (a.k, b.k):
            return I.throws(st, "TypeError", "unsupported operand type(s) for bit operation: float")
        cx, cy = x.cval(), y.cval()
        if cx is not None and cy is not None and cx.denominator == 1 and cy.denominator == 1:
            i, j = int(cx), int(cy)
            r = {"LShift": lambda: i << j, "RShift": lambda: i >> j, "BitAnd": lambda: i & j, "BitOr": lambda: i | j, "BitXor": lambda: i ^ j}[op]()
            return [(st, num(r, "i"))]
        from . import bits

        r = bits.binop(I, st, op, a, b)
        if r is not None:
            return [(st, r)]
        return [(st, Num(fun("bit" + op, x, y), "i"))]
    if op == "MatMult":
        return I.throws(st, "TypeError", "unsupported operand @ for numbers")
    return [(st, I.fresh("num"))]


def cx_of(v):
    if isinstance(v, Cx):
        return v
    n = as_num(v)
    if n is not None:
        return Cx(n.r, ZERO)
    return None


def cxop(I, st, op, a, b):
    if op == "Add":
        return [(st, Cx(a.re + b.re, a.im + b.im))]
    if op == "Sub":
        return [(st, Cx(a.re - b.re, a.im - b.im))]
    if op == "Mult":
        return [(st, Cx(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re))]
    if op == "Div":
        d = b.re * b.re + b.im * b.im
        if st.decide(("eq", d)) is True:
            return I.throws(st, "ZeroDivisionError", "complex division by zero")
        out = []
        if st.decide(("eq", d)) is None:
            out = I.possible(st, "ZeroDivisionError", "complex division by zero")
        return out + [(st, Cx((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d))]
    if op == "Pow":
        c = b.re.cval()
        if c is not None and b.im.is_zero() if hasattr(b.im, "is_zero") else False:
            pass
        if c is not None and c.denominator == 1 and 0 <= c <= 8 and b.im.cval() == 0:
            r = Cx(R(1), R(0))
            for _ in range(int(c)):
                r = Cx(r.re * a.re - r.im * a.im, r.re * a.im + r.im * a.re)
            return [(st, r)]
        return [(st, Cx(fun("cpow_re", a.re, a.im, b.re, b.im), fun("cpow_im", a.re, a.im, b.re, b.im)))]
    if op == "BitAnd" or True:
        return I.throws(st, "TypeError", "unsupported operand type(s) for complex")


# numpy-like arrays: Obj kind 'nd' with items = list of values (rows may be nested nd)


def nd_map(I, st, op, l, r):
    def items(v):
        if isinstance(v, Ref) and st.o(v).kind == "nd":
            return st.o(v).items
        return None

    li, ri = items(l), items(r)
    if li is not None and ri is not None:
        if len(li) != len(ri):
            if len(li) == 1:
                li = li * len(ri)
            elif len(ri) == 1:
                ri = ri * len(li)
            else:
                return I.throws(st, "ValueError", "operands could not be broadcast")
        pairs = list(zip(li, ri))
    elif li is not None:
        pairs = [(x, r) for x in li]
    else:
        pairs = [(l, x) for x in ri]
    cur = [(st, [])]
    for a, b in pairs:
        nxt = []
        for s, acc in cur:
            if isinstance(acc, Raise):
                nxt.append((s, acc))
                continue
            for s2, v in binop(I, s, op, a, b):
                nxt.append((s2, v if isinstance(v, Raise) else acc + [v]))
        cur = nxt
    return [(s, a if isinstance(a, Raise) else s.alloc(Obj("nd", BuiltinClass("ndarray"), {}, a))) for s, a in cur]


DUNDER = {
    "Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
    "MatMult": "matmul", "LShift": "lshift", "RShift": "rshift", "BitAnd": "and", "BitOr": "or", "BitXor": "xor",
}


def user_class(I, st, v):
    t = I.type_of(st, v)
    return t if isinstance(t, ClassVal) else None


def has_user(I, cls, name):
    x, owner = I.find(cls, name)
    return isinstance(x, FuncVal) or isinstance(x, (StaticM, ClassM))


def binop(I, st, op, l, r):
    l, r = I.resolve(st, l), I.resolve(st, r)
    d = DUNDER[op]
    lc, rc = user_class(I, st, l), user_class(I, st, r)
    cands = []
    if lc is not None and has_user(I, lc, "__%s__" % d):
        cands.append((l, "__%s__" % d, r))
    if rc is not None and has_user(I, rc, "__r%s__" % d):
        t = (r, "__r%s__" % d, l)
        if lc is not None and rc is not lc and isinstance(rc, ClassVal) and lc in rc.mro:
            cands.insert(0, t)
        elif rc is not lc:
            if lc is None and is_subbuiltin(I, rc, l):
                cands.insert(0, t)
            else:
                cands.append(t)
    if cands:
        live = [st]
        out = []
        for recv, m, other in cands:
            nxt = []
            for s in live:
                for s2, v in I.call_type_method(s, recv, m, [other]):
                    if v == NOTIMPL:
                        nxt.append(s2)
                    else:
                        out.append((s2, v))
            live = nxt
        for s in live:
            out.extend(builtin_binop(I, s, op, l, r))
        return out
    return builtin_binop(I, st, op, l, r)


def is_subbuiltin(I, rc, l):
    # e.g. Angle (float subclass) as right operand of a float: reflected method first
    return isinstance(l, Num) and any(isinstance(b, BuiltinClass) and b.name == "float" for b in rc.mro)


def unsupported(I, st, op, l, r):
    tl, tr = I.type_of(st, l), I.type_of(st, r)
    if tl is None or tr is None:
        return [(st, Opaque("any", ("op", op, l, r)))]
    return I.throws(st, "TypeError", "unsupported operand type(s) for %s: '%s' and '%s'" % (op, tl.name, tr.name))


def listy(st, v):
    return isinstance(v, Ref) and st.o(v).items is not None and isinstance(st.o(v).items, list) and st.o(v).kind in ("list", "inst")


def builtin_binop(I, st, op, l, r):
    if op in ("BitAnd", "BitOr", "BitXor") and all(isinstance(v, Const) and isinstance(v.v, bool) for v in (l, r)):
        return [(st, Const({"BitAnd": l.v & r.v, "BitOr": l.v | r.v, "BitXor": l.v ^ r.v}[op]))]
    ln, rn = as_num(l), as_num(r)
    if ln is not None and rn is not None:
        return numop(I, st, op, ln, rn)
    if isinstance(l, Ref) and st.o(l).kind == "nd" or isinstance(r, Ref) and st.o(r).kind == "nd":
        return nd_map(I, st, op, l, r)
    if isinstance(l, Cx) or isinstance(r, Cx):
        a, b = cx_of(l), cx_of(r)
        if a is not None and b is not None:
            return cxop(I, st, op, a, b)
    if isinstance(l, Bits) or isinstance(r, Bits):
        from . import bits

        x = bits.binop(I, st, op, l, r)
        if x is not None:
            return [(st, x)]
        return [(st, Num(Rat(Poly.of(atom(("bitop", op, l, r)))), "i"))]
    if op == "Add":
        if is_str(l) and is_str(r):
            return [(st, concat([l, r]))]
        if isinstance(l, Tup) and isinstance(r, Tup):
            return [(st, Tup(l.items + r.items))]
        if listy(st, l) and listy(st, r):
            return [(st, st.list(st.o(l).items + st.o(r).items))]
        if isinstance(l, Const) and isinstance(r, Const) and isinstance(l.v, bytes) and isinstance(r.v, bytes):
            return [(st, Const(l.v + r.v))]
    if op == "Mod" and is_str(l):
        return percent_format(I, st, l, r)
    if op == "Mult":
        for a, b in ((l, rn), (r, ln)):
            if b is not None and b.const() is not None and b.k == "i":
                n = max(0, int(b.const()))
                if is_str(a):
                    return [(st, concat([a] * n))]
                if isinstance(a, Tup):
                    return [(st, Tup(a.items * n))]
                if listy(st, a):
                    return [(st, st.list(st.o(a).items * n))]
            elif b is not None and (is_str(a) or isinstance(a, Tup) or listy(st, a)):
                if b.k == "i":
                    return [(st, OSeq(("rep", a, b.r), "any"))]
    if op in ("BitOr", "BitAnd", "Sub") and isinstance(l, Ref) and isinstance(r, Ref) and st.o(l).kind == "set" and st.o(r).kind == "set":
        a, b = st.o(l).items, st.o(r).items
        if op == "BitOr":
            d = dict(a)
            d.update(b)
        elif op == "BitAnd":
            d = {k: v for k, v in a.items() if k in b}
        else:
            d = {k: v for k, v in a.items() if k not in b}
        return [(st, st.alloc(Obj("set", SET, {}, d)))]
    if op == "BitOr" and isinstance(l, Ref) and isinstance(r, Ref) and st.o(l).kind == "dict" and st.o(r).kind == "dict":
        d = dict(st.o(l).items)
        d.update(st.o(r).items)
        return [(st, st.alloc(Obj("dict", DICT, {}, d)))]
    if isinstance(l, (Opaque, OSeq)) or isinstance(r, (Opaque, OSeq)):
        tl, tr = I.type_of(st, l), I.type_of(st, r)
        if tl is None or tr is None or isinstance(l, OSeq) or isinstance(r, OSeq):
            if NONE in (l, r):
                return unsupported(I, st, op, l, r) if tl is not None and tr is not None else [(st, Opaque("any", ("op", op, l, r)))]
            return [(st, Opaque("any", ("op", op, l, r)))]
    return unsupported(I, st, op, l, r)


def inplace(I, st, op, l, r):
    l = I.resolve(st, l)
    lc = user_class(I, st, l)
    d = "__i%s__" % DUNDER[op]
    if lc is not None and has_user(I, lc, d):
        out = []
        for s, v in I.call_type_method(st, l, d, [r]):
            if v == NOTIMPL:
                out.extend(binop(I, s, op, l, r))
            else:
                out.append((s, v))
        return out
    if listy(st, l) and op == "Add":
        out = []
        for s, items in iterate(I, st, r):
            if isinstance(items, Raise):
                out.append((s, items))
                continue
            if isinstance(items, OSeq):
                out.append((s, OSeq(("cat", l, items.key), "any")))
                continue
            s.w(l).items.extend(items)
            out.append((s, l))
        return out
    return binop(I, st, op, l, r)


def unary(I, st, op, v):
    v = I.resolve(st, v)
    m = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
    c = user_class(I, st, v)
    if c is not None and has_user(I, c, m):
        return I.call_type_method(st, v, m, [])
    n = as_num(v)
    if n is not None:
        k = n.k if isinstance(n.k, str) else "f"
        if op == "USub":
            return [(st, Num(-n.r, k))]
        if op == "UAdd":
            return [(st, Num(n.r, k))]
        if n.const() is not None and k == "i":
            return [(st, num(~int(n.const()), "i"))]
        return [(st, Num(-n.r - R(1), "i"))] if k != "f" else I.throws(st, "TypeError", "bad operand for ~: float")
    if isinstance(v, Cx):
        if op == "USub":
            return [(st, Cx(-v.re, -v.im))]
        if op == "UAdd":
            return [(st, v)]
    if isinstance(v, Bits):
        from . import bits

        r = bits.unary(I, st, op, v)
        return [(st, r if r is not None else Num(Rat(Poly.of(atom(("bitun", op, v)))), "i"))]
    if isinstance(v, Ref) and st.o(v).kind == "nd":
        out = [(st, [])]
        for x in st.o(v).items:
            nx = []
            for s, acc in out:
                if op == "Invert" and isinstance(x, Const) and isinstance(x.v, bool):
                    nx.append((s, acc + [Const(not x.v)]))
                    continue
                for s2, y in unary(I, s, op, x):
                    nx.append((s2, acc + [y]))
            out = nx
        return [(s, s.alloc(Obj("nd", BuiltinClass("ndarray"), {}, a))) for s, a in out]
    t = I.type_of(st, v)
    if t is None or isinstance(v, OSeq):
        return [(st, Opaque("any", ("un", op, v)))]
    return I.throws(st, "TypeError", "bad operand type for unary %s: '%s'" % (op, t.name))


# --------------------------------------------------------------------------- comparison

CMP = {"Lt": ("__lt__", "__gt__"), "LtE": ("__le__", "__ge__"), "Gt": ("__gt__", "__lt__"), "GtE": ("__ge__", "__le__")}


def compare(I, st, op, l, r):
    if op in ("Is", "IsNot"):
        v = is_(I, st, l, r)
        if op == "Is":
            return [(st, v)]
        return [(st, I.notv(v))]
    if op in ("In", "NotIn"):
        out = []
        for s, v in contains(I, st, r, l):
            if isinstance(v, Raise) or op == "In":
                out.append((s, v))
                continue
            n = I.notv(v)
            if n is not None:
                out.append((s, n))
            else:
                for s2, b in I.truth(s, v):
                    out.append((s2, b if isinstance(b, Raise) else B(not b)))
        return out
    from . import nd

    if op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
        rl, rr = I.resolve(st, l), I.resolve(st, r)
        if nd.is_nd(st, rl) and (nd.is_nd(st, rr) or as_num(rr) is not None) or nd.is_nd(st, rr) and as_num(rl) is not None:
            return nd.compare(I, st, op, rl, rr)
    if op == "Eq":
        return eq(I, st, l, r)
    if op == "NotEq":
        return ne(I, st, l, r)
    a, b = CMP[op]
    lc, rc = user_class(I, st, l), user_class(I, st, r)
    live, out = [st], []
    cands = []
    if lc is not None and has_user(I, lc, a):
        cands.append((l, a, r))
    if rc is not None and has_user(I, rc, b):
        cands.append((r, b, l))
    for recv, m, o in cands:
        nxt = []
        for s in live:
            for s2, v in I.call_type_method(s, recv, m, [o]):
                if v == NOTIMPL:
                    nxt.append(s2)
                else:
                    out.append((s2, v))
        live = nxt
    for s in live:
        out.extend(builtin_order(I, s, op, l, r))
    return out


def builtin_order(I, st, op, l, r):
    x, y = as_num(l), as_num(r)
    if x is not None and y is not None:
        d = x.r - y.r
        if op == "Lt":
            return [(st, dec(st, ("lt", d)))]
        if op == "LtE":
            return [(st, dec(st, ("le", d)))]
        if op == "Gt":
            return [(st, dec(st, ("lt", -d)))]
        return [(st, dec(st, ("le", -d)))]
    if isinstance(l, Const) and isinstance(r, Const) and isinstance(l.v, str) and isinstance(r.v, str):
        v = {"Lt": l.v < r.v, "LtE": l.v <= r.v, "Gt": l.v > r.v, "GtE": l.v >= r.v}[op]
        return [(st, B(v))]
    if isinstance(l, Tup) and isinstance(r, Tup):
        # lexicographic on numbers
        out = []
        live = [st]
        for a, b in zip(l.items, r.items):
            nxt = []
            for s in live:
                for s2, e in eq(I, s, a, b):
                    for s3, t in I.truth(s2, e):
                        if t:
                            nxt.append(s3)
                        else:
                            out.extend(compare(I, s3, op, a, b))
            live = nxt
        for s in live:
            v = {"Lt": len(l.items) < len(r.items), "LtE": len(l.items) <= len(r.items), "Gt": len(l.items) > len(r.items), "GtE": len(l.items) >= len(r.items)}[op]
            out.append((s, B(v)))
        return out
    tl, tr = I.type_of(st, l), I.type_of(st, r)
    if tl is not None and tr is not None and not isinstance(l, (Opaque, OSeq, Bits)) and not isinstance(r, (Opaque, OSeq, Bits)):
        numlike = ("int", "float", "bool")
        if is_str(l) and is_str(r):
            return [(st, BoolV(("cmp", op, l, r), False))]
        if listy(st, l) and listy(st, r):
            return [(st, BoolV(("cmp", op, l, r), False))]
        return I.throws(st, "TypeError", "'%s' not supported between '%s' and '%s'" % (op, tl.name, tr.name))
    if tl is not None and tr is not None and (NONE in (l, r)):
        return I.throws(st, "TypeError", "'%s' not supported between '%s' and '%s'" % (op, tl.name, tr.name))
    if is_str(l) and y is not None or is_str(r) and x is not None:
        return I.throws(st, "TypeError", "'%s' not supported between str and number" % op)
    return [(st, BoolV(("cmp", op, l, r), False))]


def dec(st, at):
    d = st.decide(at)
    if d is None:
        return BoolV(at, False)
    return B(d)


def is_(I, st, l, r):
    l, r = I.resolve(st, l), I.resolve(st, r)
    if isinstance(l, Opaque) and isinstance(r, Opaque) and l.key == r.key:
        return TRUE
    for a, b in ((l, r), (r, l)):
        if isinstance(a, Opaque):
            if a.t in ("str", "numstr", "dict", "list", "object", "bytes") and (b == NONE or isinstance(b, (ClassVal, BuiltinClass, Ref)) or isinstance(b, Const) and isinstance(b.v, bool)):
                return FALSE
            if isinstance(b, Const):
                return dec(st, ("ceq", a.key, b))
            if isinstance(b, Opaque):
                return BoolV(("is", a.key, b.key), False)
            return BoolV(("is", a.key, b), False)
    if isinstance(l, BoolV) or isinstance(r, BoolV):
        a, b = (l, r) if isinstance(l, BoolV) else (r, l)
        if isinstance(b, Const) and isinstance(b.v, bool):
            return a if b.v else BoolV(a.atom, not a.neg)
        if b == NONE:
            return FALSE
        return BoolV(("is", l, r), False)
    if isinstance(l, Ref) and isinstance(r, Ref):
        return B(l.addr == r.addr)
    if isinstance(l, Const) and isinstance(r, Const):
        return B(l == r)
    if type(l) is not type(r):
        return FALSE
    if isinstance(l, Num) and isinstance(r, Num):
        if l.const() is not None and r.const() is not None:
            return B(l == r)
        return BoolV(("is", l, r), False)
    return B(l == r)


def eq(I, st, l, r):
    l, r = I.resolve(st, l), I.resolve(st, r)
    lc, rc = user_class(I, st, l), user_class(I, st, r)
    cands = []
    if lc is not None and has_user(I, lc, "__eq__"):
        cands.append((l, r))
    if rc is not None and has_user(I, rc, "__eq__"):
        if lc is not None and lc is not rc and lc in rc.mro:
            cands.insert(0, (r, l))
        elif lc is None and isinstance(l, Num) and is_subbuiltin(I, rc, l):
            cands.insert(0, (r, l))
        else:
            cands.append((r, l))
    live, out = [st], []
    for recv, o in cands:
        nxt = []
        for s in live:
            for s2, v in I.call_type_method(s, recv, "__eq__", [o]):
                if v == NOTIMPL:
                    nxt.append(s2)
                else:
                    out.append((s2, v))
        live = nxt
    for s in live:
        out.extend(builtin_eq(I, s, l, r))
    return out


def ne(I, st, l, r):
    l, r = I.resolve(st, l), I.resolve(st, r)
    lc, rc = user_class(I, st, l), user_class(I, st, r)
    live, out = [st], []
    cands = []
    for recv, c, o in ((l, lc, r), (r, rc, l)):
        if c is None:
            continue
        # the first class of the MRO defining __ne__ or (object default) __eq__
        x, owner = I.find(c, "__ne__")
        if isinstance(x, FuncVal):
            cands.append((recv, o, "__ne__", None))
        else:
            if isinstance(owner, BuiltinClass) and owner.name != "object":
                cands.append((recv, o, None, owner))
            elif has_user(I, c, "__eq__"):
                cands.append((recv, o, "__eq__", None))
    for recv, o, m, owner in cands:
        nxt = []
        for s in live:
            if m is None:
                rs = builtin_eq(I, s, recv, o)
                rs = [(s2, v if isinstance(v, Raise) else I.notv(v) or v) for s2, v in rs]
                out.extend(rs)
                continue
            for s2, v in I.call_type_method(s, recv, m, [o]):
                if v == NOTIMPL:
                    nxt.append(s2)
                elif isinstance(v, Raise) or m == "__ne__":
                    out.append((s2, v))
                else:
                    n = I.notv(v)
                    if n is not None:
                        out.append((s2, n))
                    else:
                        for s3, b in I.truth(s2, v):
                            out.append((s3, b if isinstance(b, Raise) else B(not b)))
        live = nxt
    for s in live:
        for s2, v in builtin_eq(I, s, l, r):
            n = I.notv(v) if not isinstance(v, Raise) else v
            out.append((s2, n if n is not None else v))
    return out


def builtin_eq(I, st, l, r):
    x, y = as_num(l), as_num(r)
    if x is not None and y is not None:
        if isinstance(l, Num) and isinstance(r, Num) or isinstance(l, Const) or isinstance(r, Const):
            return [(st, dec(st, ("eq", x.r - y.r)))]
    if isinstance(l, Cx) or isinstance(r, Cx):
        a, b = cx_of(l), cx_of(r)
        if a is not None and b is not None:
            d1, d2 = st.decide(("eq", a.re - b.re)), st.decide(("eq", a.im - b.im))
            if d1 is False or d2 is False:
                return [(st, FALSE)]
            if d1 and d2:
                return [(st, TRUE)]
            out = []
            for s, t in I.branch(st, ("eq", a.re - b.re), False):
                if not t:
                    out.append((s, FALSE))
                else:
                    out.append((s, dec(s, ("eq", a.im - b.im))))
            return out
        if a is None or b is None:
            o = r if a is not None else l
            if I.type_of(st, o) is not None:
                return [(st, FALSE)]
    if isinstance(l, Const) and isinstance(r, Const):
        return [(st, B(l == r))]
    if is_str(l) and is_str(r):
        return [(st, str_eq(st, l, r))]
    if isinstance(l, Tup) and isinstance(r, Tup):
        return seq_eq(I, st, l.items, r.items)
    if isinstance(l, Ref) and isinstance(r, Ref):
        if l.addr == r.addr:
            return [(st, TRUE)]
        a, b = st.o(l), st.o(r)
        if listy(st, l) and listy(st, r):
            return seq_eq(I, st, a.items, b.items)
        if a.kind == "dict" and b.kind == "dict":
            if set(a.items) != set(b.items):
                if any(k[0] == "op" for k in list(a.items) + list(b.items)):
                    return [(st, BoolV(("deq", l, r), False))]
                return [(st, FALSE)]
            ks = list(a.items)
            return seq_eq(I, st, [a.items[k][1] for k in ks], [b.items[k][1] for k in ks])
        if a.kind == "set" and b.kind == "set":
            return [(st, B(set(a.items) == set(b.items)))]
        return [(st, FALSE)]
    for a, b in ((l, r), (r, l)):
        if isinstance(a, Opaque):
            if isinstance(b, Opaque) and a.key == b.key:
                return [(st, TRUE)]
            if isinstance(b, Const):
                if a.t in ("str", "numstr") and not isinstance(b.v, str):
                    return [(st, FALSE)]
                if a.t == "numstr" and isinstance(b.v, str) and not _re.fullmatch(r"[-+0-9.eE]+", b.v):
                    return [(st, FALSE)]
                if a.t == "object":
                    return [(st, FALSE)]
                return [(st, dec(st, ("ceq", a.key, b)))]
            tb = I.type_of(st, b)
            ta = I.type_of(st, a)
            if ta is not None and tb is not None and ta != tb:
                if isinstance(b, (Num, Tup, Ref)):
                    return [(st, FALSE)]
            return [(st, BoolV(("ceq", a.key, b), False))]
    if isinstance(l, Bits) or isinstance(r, Bits):
        if l == r:
            return [(st, TRUE)]
        from . import bits

        d = bits.equal(st, l, r)
        if d is not None:
            return [(st, B(d))]
        return [(st, BoolV(("beq", l, r), False))]
    if isinstance(l, BoolV) or isinstance(r, BoolV):
        a, b = (l, r) if isinstance(l, BoolV) else (r, l)
        if isinstance(b, Const):
            if isinstance(b.v, bool):
                return [(st, a if b.v else BoolV(a.atom, not a.neg))]
            return [(st, FALSE)]
        return [(st, BoolV(("ceq", l, r), False))]
    if isinstance(l, OSeq) or isinstance(r, OSeq):
        if l == r:
            return [(st, TRUE)]
        if NONE in (l, r):
            return [(st, FALSE)]
        return [(st, BoolV(("ceq", l, r), False))]
    if type(l) is type(r):
        return [(st, B(l == r))]
    return [(st, FALSE)]


def str_eq(st, l, r):
    if l == r:
        return TRUE
    pl, pr = pieces_of(l), pieces_of(r)
    if pl and pr:
        if isinstance(pl[0], str) and isinstance(pr[0], str):
            n = min(len(pl[0]), len(pr[0]))
            if pl[0][:n] != pr[0][:n]:
                return FALSE
        if isinstance(pl[-1], str) and isinstance(pr[-1], str):
            n = min(len(pl[-1]), len(pr[-1]))
            if pl[-1][-n:] != pr[-1][-n:]:
                return FALSE
    for a, b in ((l, r), (r, l)):
        if isinstance(a, Const) and isinstance(b, Text):
            if not a.v:
                if any(isinstance(p, (str, NumPiece)) for p in b.pieces):
                    return FALSE
            if len(b.pieces) == 1 and isinstance(b.pieces[0], NumPiece):
                if not _re.fullmatch(r"[-+0-9.eEinfa]+", a.v):
                    return FALSE
    if isinstance(l, Opaque) and isinstance(r, Const):
        if l.t == "numstr" and not _re.fullmatch(r"[-+0-9.eE]+", r.v):
            return FALSE
        return dec(st, ("ceq", l.key, r))
    if isinstance(r, Opaque) and isinstance(l, Const):
        return str_eq(st, r, l)
    from . import bits

    for a, b in ((l, r), (r, l)):
        cs = bits.chars(b)
        if isinstance(a, Const) and cs is not None and len(cs) == len(a.v):
            for x, y in zip(a.v, cs):
                if (isinstance(y, str) and x != y) or (not isinstance(y, str) and x not in "0123456789abcdefABCDEF"):
                    return FALSE
    ca, cb = ([len(x.v) if isinstance(x, Const) else bits.text_len(st, x) for x in (l, r)])
    if ca is not None and cb is not None and ca != cb:
        return FALSE
    # texts made of the same numeric pieces with different provenance stay undecided
    return BoolV(("teq", l, r), False)


def seq_eq(I, st, a, b):
    if len(a) != len(b):
        return [(st, FALSE)]
    live, out = [st], []
    for x, y in zip(a, b):
        nxt = []
        for s in live:
            for s2, v in eq(I, s, x, y):
                if isinstance(v, Raise):
                    out.append((s2, v))
                    continue
                for s3, t in I.truth(s2, v):
                    if isinstance(t, Raise):
                        out.append((s3, t))
                    elif t:
                        nxt.append(s3)
                    else:
                        out.append((s3, FALSE))
        live = nxt
    return out + [(s, TRUE) for s in live]


def contains(I, st, c, x):
    c = I.resolve(st, c)
    cc = user_class(I, st, c)
    if cc is not None and has_user(I, cc, "__contains__"):
        out = []
        for s, v in I.call_type_method(st, c, "__contains__", [x]):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                for s2, b in I.truth(s, v):
                    out.append((s2, b if isinstance(b, Raise) else B(b)))
        return out
    if is_str(c):
        if not is_str(x):
            if isinstance(x, Opaque) and x.t == "any":
                return [(st, BoolV(("in", x.key, c), False))]
            return I.throws(st, "TypeError", "'in <string>' requires string as left operand")
        if isinstance(x, Const):
            if isinstance(c, Const):
                return [(st, B(x.v in c.v))]
            cc2 = concretize(I, c)
            if isinstance(c, Text) and not all(isinstance(p, str) or p.fmt in ("lit", "hexd") for p in c.pieces):
                cc2 = None
                if x.v == "." and any(isinstance(p, NumPiece) and _FIXED.match(p.fmt) and not p.fmt.endswith("~") and int(_FIXED.match(p.fmt).group(1)) for p in c.pieces):
                    return [(st, TRUE)]
            if cc2 is not None:
                return [(st, B(x.v in cc2))]
            ps = pieces_of(c)
            if any(isinstance(p, str) and x.v in p for p in ps):
                return [(st, TRUE)]
            if isinstance(c, Opaque) and c.t == "numstr" and len(x.v) == 1 and x.v not in "0123456789.eE+-":
                return [(st, FALSE)]
            if all(isinstance(p, (str, NumPiece)) for p in ps) and len(x.v) == 1 and x.v not in "0123456789.eE+-infa":
                return [(st, FALSE)]
            return [(st, dec(st, ("in", x, c)))]
        return [(st, dec(st, ("in", x, c)))]
    if isinstance(c, Ref) and st.o(c).kind in ("dict", "set"):
        o = st.o(c)
        if isinstance(x, Opaque) and x.key not in st.csub:
            live, out = [st], []
            # undecided key: one partition per known key, one for the rest
            for hk, (k, v) in o.items.items():
                if not isinstance(k, Const):
                    continue
                nxt = []
                for s in live:
                    for s2, b in I.truth(s, builtin_eq(I, s, x, k)[0][1]):
                        if b:
                            out.append((s2, TRUE))
                        else:
                            nxt.append(s2)
                live = nxt
                if len(out) > I.max_states:
                    raise_limit(I)
            if o.fields.get("open"):
                return out + [(s, BoolV(("in", x.key, o.fields["open"]), False)) for s in live]
            return out + [(s, FALSE) for s in live]
        if hkey(x) in o.items:
            return [(st, TRUE)]
        if o.fields.get("open"):
            return [(st, dec(st, ("in", hkey(x), o.fields["open"])))]
        if isinstance(x, Text) or (isinstance(x, Ref) and isinstance(st.o(x).cls, ClassVal)):
            # content-based keys
            return any_eq(I, st, [k for k, _ in o.items.values()], x)
        return [(st, FALSE)]
    out = []
    for s, items in iterate(I, st, c):
        if isinstance(items, Raise):
            out.append((s, items))
        elif isinstance(items, OSeq):
            out.append((s, BoolV(("in", x, items.key), False)))
        else:
            out.extend(any_eq(I, s, items, x))
    return out


def raise_limit(I):
    from .engine import AnalysisLimit

    raise AnalysisLimit("partitions")


def any_eq(I, st, items, x):
    live, out = [st], []
    for y in items:
        nxt = []
        for s in live:
            if isinstance(x, Ref) and x == y:
                out.append((s, TRUE))
                continue
            for s2, v in eq(I, s, y, x):
                if isinstance(v, Raise):
                    out.append((s2, v))
                    continue
                for s3, b in I.truth(s2, v):
                    if isinstance(b, Raise):
                        out.append((s3, b))
                    elif b:
                        out.append((s3, TRUE))
                    else:
                        nxt.append(s3)
        live = nxt
    return out + [(s, FALSE) for s in live]


# --------------------------------------------------------------------------- iteration


def iterate(I, st, v, need=None):
    """-> [(state, list | OSeq | Raise)]"""
    v = I.resolve(st, v)
    if isinstance(v, Tup):
        return [(st, list(v.items))]
    if isinstance(v, Const) and isinstance(v.v, str):
        return [(st, [Const(c) for c in v.v])]
    if isinstance(v, OSeq):
        if need is not None:
            return unpack_seq(I, st, v, need)
        return [(st, v)]
    if isinstance(v, Opaque):
        if v.t == "any" or v.t in ("list", "str", "dict", "star"):
            if need is not None:
                return [(st, [Opaque("any", ("unpack", v.key, i)) for i in range(need)])]
            return [(st, OSeq(v.key, "str" if v.t == "str" else "any"))]
        if v.t == "object":
            return I.throws(st, "TypeError", "object is not iterable")
        return [(st, OSeq(v.key, "any"))]
    if isinstance(v, (Text,)):
        from . import bits

        cs = bits.chars(v)
        if cs is not None:
            return [(st, [mktext([c]) for c in cs])]
        return [(st, OSeq(("chars", v), "str"))]
    if isinstance(v, MatchV):
        return [(st, OSeq(v.key, "any"))]
    if isinstance(v, Ref):
        o = st.o(v)
        if isinstance(o.cls, ClassVal):
            f, owner = I.find(o.cls, "__iter__")
            if isinstance(f, FuncVal):
                out = []
                for s, it in I.call_type_method(st, v, "__iter__", []):
                    if isinstance(it, Raise):
                        out.append((s, it))
                    elif isinstance(it, Ref) and s.o(it).kind == "inst" and isinstance(s.o(it).cls, ClassVal):
                        out.extend(drain(I, s, it))
                    else:
                        out.extend(iterate(I, s, it))
                return out
            if o.items is not None and isinstance(o.items, list):
                return [(st, list(o.items))]
            f, owner = I.find(o.cls, "__getitem__")
            if isinstance(f, FuncVal):
                return old_iter(I, st, v)
            return I.throws(st, "TypeError", "'%s' object is not iterable" % o.cls.name)
        if o.kind == "iter":
            pos = int(o.fields["pos"].const())
            items = o.items[pos:]
            st.w(v).fields["pos"] = num(len(o.items))
            return [(st, list(items))]
        if o.kind == "dict":
            if o.fields.get("open"):
                return [(st, OSeq(("open", o.fields["open"]), "any"))]
            return [(st, [k for k, _ in o.items.values()])]
        if o.kind == "set":
            return [(st, [k for k, _ in o.items.values()])]
        if o.items is not None:
            return [(st, list(o.items))]
        if o.kind == "opaque":
            return [(st, OSeq(("opq", v), "any"))]
    if isinstance(v, ClassVal) or isinstance(v, (FuncVal, Builtin, BuiltinClass)):
        return I.throws(st, "TypeError", "not iterable")
    t = I.type_of(st, v)
    return I.throws(st, "TypeError", "'%s' object is not iterable" % getattr(t, "name", "?"))


def unpack_seq(I, st, v, need):
    cur = [(st, [])]
    for i in range(need):
        nxt = []
        for s, acc in cur:
            for s2, x in I.seq_elem(s, v, i):
                nxt.append((s2, x if isinstance(x, Raise) else acc + [x]))
        cur = nxt
    return I.possible(st, "ValueError", "unpack") + cur


def drain(I, st, it):
    live = [(st, [])]
    out = []
    n = 0
    while live:
        n += 1
        nxt = []
        for s, acc in live:
            r = I.call_type_method(s, it, "__next__", [])
            if r is None:
                out.append((s, I.exc("TypeError", "iter() returned non-iterator")))
                continue
            for s2, v in r:
                if isinstance(v, Raise):
                    if v.name == "StopIteration":
                        out.append((s2, acc))
                    else:
                        out.append((s2, v))
                else:
                    nxt.append((s2, acc + [v]))
        live = nxt
        if n > 200:
            raise_limit(I)
    return out


def old_iter(I, st, v, bound=70):
    live = [(st, [])]
    out = []
    for i in range(bound):
        nxt = []
        for s, acc in live:
            for s2, x in I.call_type_method(s, v, "__getitem__", [num(i)]):
                if isinstance(x, Raise):
                    if x.name in ("IndexError", "StopIteration"):
                        out.append((s2, acc))
                    else:
                        out.append((s2, x))
                else:
                    nxt.append((s2, acc + [x]))
        live = nxt
        if not live:
            break
    for s, acc in live:
        I.note("unbounded __getitem__ iteration")
        out.append((s, I.exc("RecursionError", "iteration through __getitem__ never ends")))
    return out


# --------------------------------------------------------------------------- items


def const_index(v):
    n = as_num(v)
    if n is not None and n.const() is not None and n.const().denominator == 1:
        return int(n.const())
    return None


def slice_of(sl):
    out = []
    for x in (sl.lo, sl.hi, sl.step):
        if x == NONE:
            out.append(None)
        else:
            i = const_index(x)
            if i is None:
                return None
            out.append(i)
    return slice(*out)


def get_item(I, st, o, k):
    o, k = I.resolve(st, o), I.resolve(st, k)
    c = user_class(I, st, o)
    if c is not None:
        x, owner = I.find(c, "__getitem__")
        if isinstance(x, FuncVal):
            return I.call_type_method(st, o, "__getitem__", [k])
        if isinstance(o, Num) or st.o(o).items is None:
            return I.throws(st, "TypeError", "'%s' object is not subscriptable" % c.name)
    if isinstance(o, Const) and isinstance(o.v, str):
        i = const_index(k)
        try:
            if i is not None:
                return [(st, Const(o.v[i]))]
            if isinstance(k, SliceV) and slice_of(k) is not None:
                return [(st, Const(o.v[slice_of(k)]))]
        except IndexError:
            return I.throws(st, "IndexError", "string index out of range")
        return [(st, Opaque("str", ("item", o, k)))]
    if isinstance(o, Ref) and st.o(o).kind == "nd":
        from . import nd

        return nd.getitem(I, st, o, k)
    if isinstance(o, (Tup,)) or listy(st, o):
        items = o.items if isinstance(o, Tup) else st.o(o).items
        i = const_index(k)
        if i is not None:
            try:
                return [(st, items[i])]
            except IndexError:
                return I.throws(st, "IndexError", "index %d out of range for length %d" % (i, len(items)))
        if isinstance(k, SliceV):
            sl = slice_of(k)
            if sl is not None:
                r = items[sl]
                if isinstance(o, Tup):
                    return [(st, Tup(tuple(r)))]
                return [(st, st.list(r))]
            return [(st, OSeq(("slice", o, k), "any"))]
        n = as_num(k)
        if n is not None and n.k == "i":
            out = list(I.possible(st, "IndexError", "index"))
            # unknown index: one partition per position
            if len(items) <= 12 and items:
                for j, x in enumerate(items):
                    s = st.fork()
                    if s.assume(("eq", n.r - R(j)), True):
                        out.append((s, x))
                for j, x in enumerate(items):
                    s = st.fork()
                    if s.assume(("eq", n.r - R(j - len(items))), True):
                        out.append((s, x))
                if len(out) > len(items) * 2:
                    pass
                return out or [(st, Opaque("any", ("item", o, k)))]
            return out + [(st, Opaque("any", ("item", o, k)))]
        if isinstance(k, (Opaque, BoolV, Bits)):
            return [(st, Opaque("any", ("item", o, k)))]
        return I.throws(st, "TypeError", "indices must be integers or slices, not %s" % getattr(I.type_of(st, k), "name", "?"))
    if isinstance(o, Ref) and st.o(o).kind == "dict":
        return dict_get(I, st, o, k, None)
    if isinstance(o, OSeq):
        i = const_index(k)
        if i is not None and i >= 0:
            at = ("lenle", o.key, i)
            d = st.decide(at)
            if d is True:
                return I.throws(st, "IndexError", "index")
            out = []
            if d is None:
                from .engine import EXC

                e = EXC["IndexError"]
                if any(issubclass(e, h) for hs in I.handlers for h in hs) or any(issubclass(e, w) for w in I.want):
                    a = st.fork()
                    a.assume(at, True)
                    out.append((a, I.exc("IndexError", "index")))
                    st = st.fork()
                    st.assume(at, False)
            return out + I.seq_elem(st, o, i)
        if isinstance(k, SliceV):
            return [(st, OSeq(("slice", o.key, k), o.elem if not callable(o.elem) else "any"))]
        return I.possible(st, "IndexError") + [(st, Opaque("str" if o.elem == "str" else "numstr" if o.elem == "numstr" else "any", ("item", o.key, k)))]
    if isinstance(o, Opaque):
        if o.t == "object":
            return I.throws(st, "TypeError", "not subscriptable")
        key = ("item", o.key, k)
        out = []
        if o.t in ("dict",):
            out = I.possible(st, "KeyError", "key")
        elif o.t in ("str", "any"):
            out = I.possible(st, "IndexError", "index")
        return out + [(st, Opaque("str" if o.t in ("str", "numstr") else "any", key))]
    if isinstance(o, Text):
        i = const_index(k)
        ps = o.pieces
        from . import bits

        cs = bits.chars(o)
        cv = lit_spelling(I, o)
        if cv is not None:
            try:
                if i is not None:
                    return [(st, lift_text(I, cv[i]))]
                if isinstance(k, SliceV) and slice_of(k) is not None:
                    return [(st, lift_text(I, cv[slice_of(k)]))]
            except IndexError:
                return I.throws(st, "IndexError", "string index out of range")
        if cs is not None:
            if i is not None:
                if -len(cs) <= i < len(cs):
                    return [(st, mktext([cs[i]]))]
                return I.throws(st, "IndexError", "string index out of range")
            if isinstance(k, SliceV) and slice_of(k) is not None:
                return [(st, mktext(cs[slice_of(k)]))]
        if i is not None:
            if i >= 0 and isinstance(ps[0], str) and i < len(ps[0]):
                return [(st, Const(ps[0][i]))]
            if i < 0 and isinstance(ps[-1], str) and -i <= len(ps[-1]):
                return [(st, Const(ps[-1][i]))]
        if isinstance(k, SliceV):
            sl = slice_of(k)
            if sl is not None and sl.step in (None, 1):
                # positions are exact when they fall in the literal prefix / suffix
                lo, hi = sl.start, sl.stop
                if (lo is None or (lo >= 0 and isinstance(ps[0], str) and lo <= len(ps[0]))) and (
                    hi is None or (hi < 0 and isinstance(ps[-1], str) and -hi <= len(ps[-1]))
                ) and len(ps) > 1:
                    l = list(ps)
                    if lo:
                        l[0] = l[0][lo:]
                    if hi:
                        l[-1] = l[-1][:hi]
                    return [(st, mktext(l))]
        return [(st, Opaque("str", ("item", o, k)))]
    if isinstance(o, MatchV):
        return match_group(I, st, o, k)
    if isinstance(o, (BuiltinClass, ClassVal)):
        return [(st, o)]  # generic alias
    if isinstance(o, ModuleV):
        return I.throws(st, "TypeError", "not subscriptable")
    t = I.type_of(st, o)
    return I.throws(st, "TypeError", "'%s' object is not subscriptable" % getattr(t, "name", "?"))


def dict_get(I, st, o, k, default, has_default=False):
    d = st.o(o)
    if isinstance(k, Opaque) and k.key not in st.csub:
        out = []
        live = [st]
        for hk, (kk, v) in d.items.items():
            if not isinstance(kk, Const):
                if hk == hkey(k):
                    return [(st, v)]
                continue
            nxt = []
            for s in live:
                e = builtin_eq(I, s, k, kk)[0][1]
                for s2, b in I.truth(s, e):
                    if b:
                        out.append((s2, v))
                    else:
                        nxt.append(s2)
            live = nxt
        for s in live:
            if d.fields.get("open"):
                if has_default:
                    a = s.fork()
                    if a.assume(("in", hkey(k), d.fields["open"]), True):
                        out.append((a, Opaque(d.fields.get("elem", "any"), ("item", d.fields["open"], k))))
                    if s.assume(("in", hkey(k), d.fields["open"]), False):
                        out.append((s, default))
                else:
                    out.extend(I.possible(s, "KeyError", "key"))
                    out.append((s, Opaque(d.fields.get("elem", "any"), ("item", d.fields["open"], k))))
            elif has_default:
                out.append((s, default))
            else:
                out.append((s, I.exc("KeyError", repr(k))))
        return out
    hk = hkey(k)
    if hk in d.items:
        return [(st, I.resolve(st, d.items[hk][1]))]
    if isinstance(k, Ref) and isinstance(st.o(k).cls, ClassVal) and not has_user(I, st.o(k).cls, "__hash__") and has_user(I, st.o(k).cls, "__eq__"):
        return I.throws(st, "TypeError", "unhashable type: '%s'" % st.o(k).cls.name)
    if isinstance(k, Ref) and st.o(k).kind in ("list", "dict", "set"):
        return I.throws(st, "TypeError", "unhashable type")
    if d.fields.get("open"):
        at = ("in", hk, d.fields["open"])
        out = []
        val = Opaque(d.fields.get("elem", "any"), ("item", d.fields["open"], k))
        if has_default:
            dd = st.decide(at)
            if dd is not False:
                a = st.fork()
                if a.assume(at, True):
                    out.append((a, I.resolve(a, val)))
            if dd is not True:
                b = st.fork()
                if b.assume(at, False):
                    out.append((b, default))
            return out
        return I.possible(st, "KeyError", "key") + [(st, I.resolve(st, val))]
    if has_default:
        return [(st, default)]
    return I.throws(st, "KeyError", repr(k))


def set_item(I, st, o, k, v):
    """-> [(state, None|Raise)]"""
    o, k = I.resolve(st, o), I.resolve(st, k)
    c = user_class(I, st, o)
    if c is not None:
        x, owner = I.find(c, "__setitem__")
        if isinstance(x, FuncVal):
            return [(s, r if isinstance(r, Raise) else None) for s, r in I.call_type_method(st, o, "__setitem__", [k, v])]
        if isinstance(o, Num) or st.o(o).items is None:
            return I.throws(st, "TypeError", "'%s' object does not support item assignment" % c.name)
    if isinstance(o, Ref) and st.o(o).kind == "nd":
        from . import nd

        return nd.setitem(I, st, o, k, v)
    if listy(st, o):
        i = const_index(k)
        if i is not None:
            items = st.o(o).items
            if -len(items) <= i < len(items):
                st.w(o).items[i] = v
                return [(st, None)]
            return I.throws(st, "IndexError", "assignment index out of range")
        if isinstance(k, SliceV):
            sl = slice_of(k)
            if sl is not None:
                out = []
                for s, items in iterate(I, st, v):
                    if isinstance(items, Raise):
                        out.append((s, items))
                        continue
                    if isinstance(items, OSeq):
                        I.note("slice store of unknown sequence")
                        out.append((s, None))
                        continue
                    try:
                        s.w(o).items[sl] = list(items)
                        out.append((s, None))
                    except ValueError as e:
                        out.append((s, I.exc("ValueError", str(e))))
                return out
        if as_num(k) is not None and as_num(k).k == "i":
            I.note("store at unknown index")
            return I.possible(st, "IndexError") + [(st, None)]
        return [(st, None)] if isinstance(k, (Opaque, SliceV)) else I.throws(st, "TypeError", "list indices must be integers or slices")
    if isinstance(o, Ref) and st.o(o).kind == "dict":
        st.w(o).items[hkey(k)] = (k, v)
        return [(st, None)]
    if isinstance(o, (Opaque, OSeq)):
        I.note("item store on unknown")
        return [(st, None)]
    t = I.type_of(st, o)
    return I.throws(st, "TypeError", "'%s' object does not support item assignment" % getattr(t, "name", "?"))


def del_item(I, st, o, k):
    c = user_class(I, st, o)
    if c is not None:
        x, owner = I.find(c, "__delitem__")
        if isinstance(x, FuncVal):
            return [(s, r if isinstance(r, Raise) else None) for s, r in I.call_type_method(st, o, "__delitem__", [k])]
    if listy(st, o):
        i = const_index(k)
        if i is not None:
            try:
                del st.w(o).items[i]
                return [(st, None)]
            except IndexError:
                return I.throws(st, "IndexError", "deletion index")
        if isinstance(k, SliceV) and slice_of(k) is not None:
            del st.w(o).items[slice_of(k)]
            return [(st, None)]
        I.note("delete at unknown index")
        return [(st, None)]
    if isinstance(o, Ref) and st.o(o).kind == "dict":
        if hkey(k) in st.o(o).items:
            del st.w(o).items[hkey(k)]
            return [(st, None)]
        if st.o(o).fields.get("open") or isinstance(k, Opaque):
            return I.possible(st, "KeyError") + [(st, None)]
        return I.throws(st, "KeyError", repr(k))
    if isinstance(o, (Opaque, OSeq)):
        return [(st, None)]
    return I.throws(st, "TypeError", "object does not support item deletion")


# --------------------------------------------------------------------------- attributes of builtin values


def builtin_getattr(I, st, v, name):
    from .engine import PYTYPES

    if isinstance(v, Opaque):
        if v.t == "any":
            return [(st, Opaque("any", ("attr", v.key, name)))]
        if v.t == "object":
            return I.throws(st, "AttributeError", "'object' object has no attribute '%s'" % name)
        if isinstance(v.t, tuple) and v.t[0] == "xml":
            return xml_attr(I, st, v, name)
    if isinstance(v, Num):
        if name == "real":
            return [(st, v)]
        if name == "imag":
            return [(st, Num(ZERO, v.k if v.k == "i" else "f"))]
    if isinstance(v, Cx):
        if name == "real":
            return [(st, Num(v.re, "f"))]
        if name == "imag":
            return [(st, Num(v.im, "f"))]
    if isinstance(v, SliceV):
        if name in ("start", "stop", "step"):
            return [(st, {"start": v.lo, "stop": v.hi, "step": v.step}[name])]
    if isinstance(v, FuncVal):
        if name in ("__name__", "__qualname__"):
            return [(st, Const(v.info.qual.split(".")[-1]))]
        if name == "__defaults__":
            return [(st, Tup(v.defaults))]
    if isinstance(v, (BoundMethod,)):
        if name == "__self__":
            return [(st, v.recv)]
        if name == "__func__":
            return [(st, v.fn)]
        if name == "__name__":
            return builtin_getattr(I, st, v.fn, name)
    if isinstance(v, BuiltinClass):
        if name == "__name__":
            return [(st, Const(v.name))]
        py = PYTYPES.get(v.name)
        if py is not None:
            if hasattr(py, name):
                return [(st, Builtin("%s.%s" % (v.name, name)))]
            return I.throws(st, "AttributeError", "type %s has no attribute %s" % (v.name, name))
        return [(st, Builtin("%s.%s" % (v.name, name)))]
    if isinstance(v, ExcInst):
        if name == "args":
            return [(st, Tup(v.args))]
        if isinstance(v.cls, ClassVal):
            x, owner = I.find(v.cls, name)
            if x is not None:
                return I.bind(st, x, owner, v, v.cls)
        return [(st, Opaque("any", ("excattr", v, name)))]
    if isinstance(v, RegexV):
        if name == "pattern":
            return [(st, Const(v.pattern))]
        if hasattr(_re.compile(""), name):
            return [(st, BoundBuiltin(v, name))]
        return I.throws(st, "AttributeError", name)
    if isinstance(v, MatchV):
        if name in ("lastgroup", "lastindex", "re", "string", "pos", "endpos", "regs"):
            return [(st, Opaque("any", ("mattr", v.key, name)))]
        return [(st, BoundBuiltin(v, name))]
    if isinstance(v, Ref):
        o = st.o(v)
        if o.kind == "nd":
            if name in ("shape", "size", "ndim", "T"):
                from . import nd

                rows = nd.rows_of(I, st, v)
                sh = nd.shape(rows)
                if name == "shape":
                    return [(st, Tup(tuple(num(x) for x in sh)))]
                if name == "ndim":
                    return [(st, num(len(sh)))]
                if name == "size":
                    k = 1
                    for x in sh:
                        k *= x
                    return [(st, num(k))]
                return [(st, nd.build(st, [list(c) for c in zip(*rows)]) if len(sh) == 2 else v)]
            from . import nd

            if name == "real":
                return [(st, v)]
            if name not in nd.ATTRS:
                return I.throws(st, "AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name)
            return [(st, BoundBuiltin(v, name))]
        if name in o.fields and o.kind not in ("list", "dict", "set", "iter"):
            return [(st, o.fields[name])]
        if o.kind == "opaque":
            return [(st, Opaque("any", ("attr", v, name)))]
        if o.kind == "model":
            if isinstance(o.meta, _re.Match):
                if not hasattr(o.meta, name):
                    return I.throws(st, "AttributeError", "re.Match has no attribute " + name)
                x = getattr(o.meta, name)
                if not callable(x):
                    return [(st, lift(I, st, x))]
            return [(st, BoundBuiltin(v, name))]
        if o.kind == "xmlelem":
            return [(st, BoundBuiltin(v, name))]
    t = I.type_of(st, v)
    if name == "__class__":
        return [(st, t)] if t is not None else [(st, I.fresh("cls"))]
    if name == "__doc__":
        return [(st, NONE)]
    py = PYTYPES.get(t.name) if t is not None else None
    if isinstance(v, Builtin):
        return [(st, Builtin(v.name + "." + name))]
    if py is not None:
        if hasattr(py, name):
            return [(st, BoundBuiltin(v, name))]
        return I.throws(st, "AttributeError", "'%s' object has no attribute '%s'" % (t.name, name))
    return [(st, Opaque("any", ("attr", v, name)))]


def xml_attr(I, st, v, name):
    return [(st, Opaque("any", ("attr", v.key, name)))]


# --------------------------------------------------------------------------- calls


def call_opaque(I, st, f, args, kw):
    return [(st, Opaque("any", ("call", f.key, tuple(args), tuple(sorted(kw.items(), key=lambda t: str(t[0]))))))]


def call_class(I, st, c, args, kw):
    from .engine import EXC

    n = c.name
    if n in EXC:
        return [(st, ExcInst(EXC[n], tuple(args)))]
    if n == "object":
        return [(st, st.alloc(Obj("plain", OBJECT)))]
    if n in ("float", "int"):
        return to_number(I, st, n, args, kw)
    if n == "complex":
        return to_complex(I, st, args, kw)
    if n == "str":
        if not args:
            return [(st, Const(""))]
        return to_str(I, st, args[0])
    if n == "bool":
        if not args:
            return [(st, FALSE)]
        if isinstance(args[0], BoolV):
            return [(st, args[0])]
        return [(s, b if isinstance(b, Raise) else B(b)) for s, b in I.truth(st, args[0])]
    if n in ("list", "tuple", "set", "frozenset"):
        out = []
        for s, items in iterate(I, st, args[0]) if args else [(st, [])]:
            if isinstance(items, Raise):
                out.append((s, items))
            elif isinstance(items, OSeq):
                out.append((s, items if n in ("list", "tuple") else Opaque("any", ("set", items.key))))
            elif n == "list":
                out.append((s, s.list(items)))
            elif n == "tuple":
                out.append((s, Tup(tuple(items))))
            else:
                d = {}
                for x in items:
                    hk = hkey(x)
                    d.setdefault(hk, (x, TRUE))
                out.append((s, s.alloc(Obj("set", SET, {}, d))))
        return out
    if n == "dict":
        d = {}
        openkey = None
        res = [(st, None)]
        if args:
            a = args[0]
            if isinstance(a, Ref) and st.o(a).kind == "dict":
                d.update(st.o(a).items)
                openkey = st.o(a).fields.get("open")
            elif isinstance(a, Opaque):
                openkey = a.key
            else:
                out = []
                for s, items in iterate(I, st, a):
                    if isinstance(items, Raise):
                        out.append((s, items))
                        continue
                    if isinstance(items, OSeq):
                        r = s.dict([])
                        s.o(r).fields["open"] = items.key
                        out.append((s, r))
                        continue
                    prs = []
                    for it in items:
                        for s2, p in iterate(I, s, it, need=2):
                            s = s2
                            prs.append(tuple(p))
                    out.append((s, s.dict(prs + [(Const(k), v) for k, v in kw.items()])))
                return out
        ref = st.dict([])
        o = st.o(ref)
        o.items.update(d)
        for k, v in kw.items():
            if k == "**":
                openkey = v.key if isinstance(v, Opaque) else st.o(v).fields.get("open")
            else:
                o.items[hkey(Const(k))] = (Const(k), v)
        if openkey is not None:
            o.fields["open"] = openkey
        return [(st, ref)]
    if n == "type" and len(args) == 1:
        t = I.type_of(st, args[0])
        return [(st, t if t is not None else I.fresh("type"))]
    if n == "slice":
        a = list(args)
        if len(a) == 1:
            return [(st, SliceV(NONE, a[0], NONE))]
        if len(a) == 2:
            return [(st, SliceV(a[0], a[1], NONE))]
        return [(st, SliceV(*a))]
    if n == "range":
        cs = [const_index(a) for a in args]
        if None not in cs:
            r = range(*cs)
            if len(r) > 3000:
                raise_limit(I)
            return [(st, Tup(tuple(num(i) for i in r)))]
        if any(isinstance(a, Num) and a.k == "f" for a in args):
            return I.throws(st, "TypeError", "'float' object cannot be interpreted as an integer")
        if len(args) == 1 and isinstance(args[0], Num):
            key = ("range", args[0].r)

            def elem(I_, s, sq, i):
                return [(s, num(i))]

            # length refers to the symbolic bound
            return [(st, OSeq(key, "idx"))] if False else [(st, OSeq(key, elem_idx))]
        return [(st, OSeq(("range",) + tuple(args), "any"))]
    if n in ("zip", "enumerate", "map", "filter", "reversed"):
        return lazy_builtin(I, st, n, args, kw)
    if n == "staticmethod":
        return [(st, StaticM(args[0]))]
    if n == "classmethod":
        return [(st, ClassM(args[0]))]
    if n == "property":
        a = list(args) + [None] * 3
        return [(st, Prop(a[0] if a[0] is not None else kw.get("fget"), a[1] if a[1] != NONE and a[1] is not None else kw.get("fset"), kw.get("fdel")))]
    if n == "super":
        if len(args) == 2:
            return [(st, SuperV(args[0], args[1]))]
        return [(st, I.fresh("super"))]
    if n in ("bytes", "bytearray"):
        return [(st, Opaque("bytes", ("bytes",) + tuple(args)))]
    return [(st, I.fresh("new:" + n))]


def elem_idx(I, st, seq, i):
    return [(st, num(i))]


def lazy_builtin(I, st, n, args, kw):
    if n == "reversed":
        c = user_class(I, st, args[0])
        if c is not None and has_user(I, c, "__reversed__"):
            return I.call_type_method(st, args[0], "__reversed__", [])
        if c is not None and not listy(st, args[0]):
            if not has_user(I, c, "__len__") or not has_user(I, c, "__getitem__"):
                return I.throws(st, "TypeError", "'%s' object is not reversible" % c.name)
            # sequence protocol: len and indexing
            out = []
            for s, ln in I.call_type_method(st, args[0], "__len__", []):
                k = const_index(ln) if not isinstance(ln, Raise) else None
                if k is None:
                    out.append((s, ln if isinstance(ln, Raise) else OSeq(("rev", args[0]), "any")))
                    continue
                cur = [(s, [])]
                for i in reversed(range(k)):
                    nx = []
                    for s2, acc in cur:
                        if isinstance(acc, Raise):
                            nx.append((s2, acc))
                            continue
                        for s3, x in get_item(I, s2, args[0], num(i)):
                            nx.append((s3, x if isinstance(x, Raise) else acc + [x]))
                    cur = nx
                for s2, acc in cur:
                    out.append((s2, acc if isinstance(acc, Raise) else s2.alloc(Obj("iter", BuiltinClass("reversed"), {"pos": num(0)}, acc))))
            return out
    srcs = args[1:] if n in ("map", "filter") else args[:1] if n == "enumerate" else args
    cur = [(st, [])]
    for a in srcs:
        nxt = []
        for s, acc in cur:
            if isinstance(acc, Raise):
                nxt.append((s, acc))
                continue
            for s2, items in iterate(I, s, a):
                nxt.append((s2, items if isinstance(items, Raise) else acc + [items]))
        cur = nxt
    out = []
    for s, ls in cur:
        if isinstance(ls, Raise):
            out.append((s, ls))
            continue
        if any(isinstance(l, OSeq) for l in ls):
            out.append((s, lazy_opaque(I, n, args, ls)))
            continue
        if n == "zip":
            items = [Tup(tuple(t)) for t in zip(*ls)]
        elif n == "enumerate":
            start = const_index(args[1]) if len(args) > 1 else const_index(kw["start"]) if "start" in kw else 0
            items = [Tup((num(i + (start or 0)), x)) for i, x in enumerate(ls[0])]
        elif n == "reversed":
            items = list(reversed(ls[0]))
        elif n == "map":
            c2 = [(s, [])]
            for t in zip(*ls):
                nx = []
                for s2, acc in c2:
                    if isinstance(acc, Raise):
                        nx.append((s2, acc))
                        continue
                    for s3, v in I.call(s2, args[0], list(t), {}):
                        nx.append((s3, v if isinstance(v, Raise) else acc + [v]))
                c2 = nx
            for s2, acc in c2:
                out.append((s2, acc if isinstance(acc, Raise) else s2.alloc(Obj("iter", BuiltinClass("map"), {"pos": num(0)}, acc))))
            continue
        else:  # filter
            c2 = [(s, [])]
            for x in ls[0]:
                nx = []
                for s2, acc in c2:
                    if isinstance(acc, Raise):
                        nx.append((s2, acc))
                        continue
                    rs = [(s2, x)] if args[0] == NONE else I.call(s2, args[0], [x], {})
                    for s3, v in rs:
                        if isinstance(v, Raise):
                            nx.append((s3, v))
                            continue
                        for s4, b in I.truth(s3, v):
                            nx.append((s4, b if isinstance(b, Raise) else acc + [x] if b else acc))
                c2 = nx
            for s2, acc in c2:
                out.append((s2, acc if isinstance(acc, Raise) else s2.alloc(Obj("iter", BuiltinClass("filter"), {"pos": num(0)}, acc))))
            continue
        out.append((s, s.alloc(Obj("iter", BuiltinClass(n), {"pos": num(0)}, items))))
    return out


def lazy_opaque(I, n, args, ls):
    seq = next(l for l in ls if isinstance(l, OSeq))
    if n == "map" and len(ls) == 1:
        fn = args[0]

        def elem(I_, s, sq, i):
            outs = []
            for s1, x in I_.seq_elem(s, seq, i):
                outs.extend([(s1, x)] if isinstance(x, Raise) else I_.call(s1, fn, [x], {}))
            return outs

        return OSeq(("map", fn if not isinstance(fn, FuncVal) else fn.info.qual, seq.key), elem)
    if n == "enumerate":

        def elem(I_, s, sq, i):
            return [(s1, x if isinstance(x, Raise) else Tup((num(i), x))) for s1, x in I_.seq_elem(s, seq, i)]

        return OSeq(("enumerate", seq.key), elem)
    if n == "zip":

        def elem(I_, s, sq, i):
            cur = [(s, [])]
            for l in ls:
                nx = []
                for s1, acc in cur:
                    if isinstance(l, OSeq):
                        for s2, x in I_.seq_elem(s1, l, i):
                            nx.append((s2, acc + [x]))
                    else:
                        nx.append((s1, acc + [l[i] if i < len(l) else I_.fresh("zip")]))
                cur = nx
            return [(s1, Tup(tuple(a))) for s1, a in cur]

        return OSeq(("zip",) + tuple(l.key if isinstance(l, OSeq) else len(l) for l in ls), elem)
    return OSeq((n, seq.key), "any")


def to_number(I, st, n, args, kw):
    if not args:
        return [(st, num(0, "i" if n == "int" else "f"))]
    v = I.resolve(st, args[0])
    k = "i" if n == "int" else "f"
    c = user_class(I, st, v)
    if c is not None and not isinstance(v, Num):
        m = "__int__" if n == "int" else "__float__"
        if has_user(I, c, m):
            return I.call_type_method(st, v, m, [])
        for alt in ("__index__",) if n == "float" else ("__trunc__", "__index__"):
            if has_user(I, c, alt):
                return I.call_type_method(st, v, alt, [])
        return I.throws(st, "TypeError", "%s() argument must be a string or a real number, not '%s'" % (n, c.name))
    x = as_num(v)
    if x is not None:
        if n == "float":
            return [(st, Num(x.r, "f"))]
        if x.k == "i":
            return [(st, x)]
        return [(st, Num(fun("trunc", st.norm(x.r)), "i"))]
    if isinstance(v, Bits):
        return [(st, v)] if n == "int" else [(st, Num(Rat(Poly.of(atom(("bits", v)))), "f"))]
    if isinstance(v, Const):
        if isinstance(v.v, (str, bytes)):
            if I.lits and isinstance(v.v, str) and len(args) == 1 and "9" in v.v:
                m = _re.fullmatch(r"\s*([-+]?)(9\d{5}(?:\.5(?:[eE]1)?)?)\s*", v.v)
                nn = I.lits.get(m.group(2).lower()) if m else None
                if nn is not None and (n == "float" or I.lit_style == "integer"):
                    return [(st, Num(-nn.r if m.group(1) == "-" else nn.r, k))]
            try:
                if n == "float":
                    return [(st, num(float(v.v), "f"))]
                base = const_index(args[1]) if len(args) > 1 else 10
                return [(st, num(int(v.v, base), "i"))]
            except ValueError:
                return I.throws(st, "ValueError", "could not convert string")
        return I.throws(st, "TypeError", "%s() argument must be a string or a real number, not '%s'" % (n, type(v.v).__name__))
    if isinstance(v, Text):
        if len(v.pieces) == 1 and isinstance(v.pieces[0], NumPiece) and len(args) == 1:
            p = v.pieces[0]
            if p.fmt == "str" and isinstance(p.num, Num):
                if n == "float" or p.num.k == "i":
                    return [(st, Num(p.num.r, k))]
            if _FIXED.match(p.fmt) and n == "float" and readable(p):
                return [(st, Num(p.num.r, k))]
            if p.fmt == "lit":
                if n == "int" and I.lit_style != "integer":
                    return I.throws(st, "ValueError", "invalid literal for int()")
                return [(st, Num(p.num.r, k))]
        if any(isinstance(p, NumPiece) and p.fmt == "lit" for p in v.pieces):
            cv = concretize(I, v)
            if cv is not None and len(args) == 1:
                m = _re.fullmatch(r"\s*([-+]?)(9\d{5}(?:\.5(?:[eE]1)?)?)\s*", cv)
                nn = I.lits.get(m.group(2).lower()) if m else None
                if nn is not None:
                    if n == "int" and I.lit_style != "integer":
                        return I.throws(st, "ValueError", "invalid literal for int()")
                    return [(st, Num(-nn.r if m.group(1) == "-" else nn.r, k))]
                try:
                    return [(st, num(float(cv), "f"))] if n == "float" else [(st, num(int(cv), "i"))]
                except ValueError:
                    return I.throws(st, "ValueError", "could not convert string")
        base = const_index(args[1]) if len(args) > 1 else None
        if base == 16 and n == "int":
            from . import bits

            r = bits.from_hex_text(I, st, v)
            if r is not None:
                return [(st, r)]
        if any(isinstance(p, str) and _re.search(r"[^0-9.eE+\-\s_a-fA-FxXinf]", p) for p in v.pieces):
            return I.throws(st, "ValueError", "could not convert string")
        return I.possible(st, "ValueError", "number text") + [(st, Num(Rat(Poly.of(atom((n, v, base)))), k))]
    if isinstance(v, Opaque):
        if v.t in ("str", "numstr", "any", "bytes"):
            out = []
            if not (v.t == "numstr" and n == "float"):
                out = list(I.possible(st, "ValueError", "could not convert string to %s" % n))
            if v.t == "any":
                out += I.possible(st, "TypeError", "%s() argument" % n)
            base = const_index(args[1]) if len(args) > 1 else None
            if base == 16 and n == "int":
                from . import bits

                r = bits.from_hex_text(I, st, v)
                if r is not None:
                    return [(st, r)]
            return out + [(st, Num(Rat(Poly.of(atom((n, v.key) + ((base,) if base else ())))), k))]
        if v.t == "object":
            return I.throws(st, "TypeError", "%s() argument must be a string or a real number" % n)
        return [(st, Num(Rat(Poly.of(atom((n, v.key)))), k))]
    if isinstance(v, (Tup, Cx, OSeq, SliceV, ExcInst, FuncVal, ClassVal)) or isinstance(v, Ref):
        if isinstance(v, Ref) and st.o(v).kind == "nd" and len(st.o(v).items) == 1:
            return to_number(I, st, n, [st.o(v).items[0]], kw)
        return I.throws(st, "TypeError", "%s() argument must be a string or a real number, not '%s'" % (n, getattr(I.type_of(st, v), "name", "?")))
    return [(st, Num(Rat(Poly.of(atom((n, v)))), k))]


def to_complex(I, st, args, kw):
    if not args:
        return [(st, Cx(ZERO, ZERO))]
    v = I.resolve(st, args[0])
    c = user_class(I, st, v)
    if c is not None and not isinstance(v, Num):
        if has_user(I, c, "__complex__"):
            return I.call_type_method(st, v, "__complex__", [])
        if has_user(I, c, "__float__"):
            return [(s, x if isinstance(x, Raise) else Cx(x.r, ZERO) if isinstance(x, Num) else I.fresh("cx")) for s, x in I.call_type_method(st, v, "__float__", [])]
        return I.throws(st, "TypeError", "complex() argument")
    a = cx_of(v)
    if len(args) == 1:
        if a is not None:
            return [(st, a)]
        if isinstance(v, Const) and isinstance(v.v, str):
            try:
                z = complex(v.v)
                return [(st, Cx(R(z.real), R(z.imag)))]
            except ValueError:
                return I.throws(st, "ValueError", "complex() arg is a malformed string")
        if isinstance(v, (Opaque, Text)):
            return I.possible(st, "ValueError", "complex") + [(st, Cx(Rat(Poly.of(atom(("cre", v)))), Rat(Poly.of(atom(("cim", v))))))]
        return I.throws(st, "TypeError", "complex() argument")
    b = cx_of(I.resolve(st, args[1]))
    if a is not None and b is not None:
        return [(st, Cx(a.re - b.im, a.im + b.re))]
    if isinstance(v, Opaque) or isinstance(args[1], Opaque):
        out = []
        x = a.re if a is not None else Rat(Poly.of(atom(("float", v))))
        y = b.re if b is not None else Rat(Poly.of(atom(("float", args[1]))))
        return [(st, Cx(x, y))]
    return I.throws(st, "TypeError", "complex() argument")


def math_call(I, st, name, args):
    if name == "hypot" or name == "dist":
        pass
    vs = []
    for a in args:
        a = I.resolve(st, a)
        x = as_num(a)
        if x is None and isinstance(a, Ref) and st.o(a).kind == "nd":
            out = [(st, [])]
            for e in st.o(a).items:
                nx = []
                for s, acc in out:
                    for s2, y in math_call(I, s, name, [e]):
                        nx.append((s2, acc + [y]))
                out = nx
            return [(s, s.alloc(Obj("nd", BuiltinClass("ndarray"), {}, acc))) for s, acc in out]
        if x is None:
            c = user_class(I, st, a)
            if c is not None and has_user(I, c, "__float__"):
                outs = []
                for s, y in I.call_type_method(st, a, "__float__", []):
                    if isinstance(y, Raise):
                        outs.append((s, y))
                    else:
                        j = list(args)
                        j[len(vs)] = y
                        outs.extend(math_call(I, s, name, j))
                return outs
            if isinstance(a, (Opaque, Bits)) and not (isinstance(a, Opaque) and a.t in ("str", "numstr", "object")):
                x = Num(Rat(Poly.of(atom(("float", a.key if isinstance(a, Opaque) else a)))), "f")
            else:
                return I.throws(st, "TypeError", "math.%s: must be real number, not %s" % (name, getattr(I.type_of(st, a), "name", "?")))
        vs.append(x)
    rs = [st.norm(v.r) for v in vs]
    if name == "radians":
        return [(st, Num(rs[0] * TAU / R(360), "f"))]
    if name == "degrees":
        return [(st, Num(rs[0] * R(360) / TAU, "f"))]
    if name == "fabs":
        return call_builtin(I, st, "abs", [Num(rs[0], "f")], {})
    if name == "hypot":
        t = ZERO
        for r in rs:
            t = t + r * r
        return [(st, Num(fun("sqrt", t), "f"))]
    if name == "pow":
        return numop(I, st, "Pow", vs[0], vs[1])
    if name in ("ceil", "floor", "trunc"):
        if vs[0].k == "i":
            return [(st, vs[0])]
        return [(st, Num(fun(name, rs[0]), "i"))]
    if name in ("isclose", "isnan", "isinf", "isfinite"):
        if name == "isclose" and len(rs) == 2:
            d = st.decide(("eq", rs[0] - rs[1]))
            if d is True:
                return [(st, TRUE)]
        return [(st, BoolV(("pred", name) + tuple(rs), False))]
    if name == "sqrt":
        if st.decide(("lt", rs[0])) is True:
            return I.throws(st, "ValueError", "math domain error")
        out = []
        if st.decide(("lt", rs[0])) is None:
            from .engine import EXC

            if any(issubclass(EXC["ValueError"], h) for hs in I.handlers for h in hs):
                b = st.fork()
                if b.assume(("lt", rs[0]), True):
                    out.append((b, I.exc("ValueError", "math domain error")))
        return out + [(st, Num(fun("sqrt", rs[0]), "f"))]
    if name in ("log", "log10") and len(rs) == 1:
        d = st.decide(("le", rs[0]))
        if d is True:
            return I.throws(st, "ValueError", "math domain error")
        out = []
        if d is None:
            from .engine import EXC

            if any(issubclass(EXC["ValueError"], h) for hs in I.handlers for h in hs):
                b = st.fork()
                if b.assume(("le", rs[0]), True):
                    out.append((b, I.exc("ValueError", "math domain error")))
        return out + [(st, Num(fun(name, *rs), "f"))]
    if name in ("acos", "asin", "log", "log10"):
        out = []
        if rs[0].cval() is None:
            out = I.possible(st, "ValueError", "math domain error")
        return out + [(st, Num(fun(name, *rs), "f"))]
    if name == "fsum":
        return call_builtin(I, st, "sum", args, {})
    return [(st, Num(fun(name, *rs), "f"))]


MATH_CONST = {"pi": Num(TAU / R(2), "f"), "tau": Num(TAU, "f"), "inf": Num(R("inf"), "f"), "nan": Num(R("nan"), "f"), "e": Num(R(repr(math.e)) if False else R(math.e), "f")}


def module_attr(I, st, m, name):
    """attribute of an external module, or None if it does not exist"""
    n = m.name
    top = n.split(".")[0]
    if n == "math":
        if name in MATH_CONST:
            return MATH_CONST[name]
        if hasattr(math, name):
            return Builtin("math." + name)
        return None
    if n == "re":
        if name in ("compile", "match", "search", "findall", "sub", "split", "fullmatch", "finditer", "escape"):
            return Builtin("re." + name)
        v = getattr(_re, name, None)
        if isinstance(v, int):
            return num(int(v), "i")
        if v is None:
            return None
        return Builtin("re." + name)
    if n == "copy":
        if name in ("copy", "deepcopy"):
            return Builtin("copy." + name)
        if name == "Error":
            return BuiltinClass("Exception")
        return None
    if n in ("collections.abc", "collections", "abc", "typing", "numbers"):
        if name in ABC:
            if name in ("MutableSequence", "Sequence") and n in ("collections.abc", "collections", "typing"):
                if n == "collections":
                    return None
                return abc_class(I, st, name)
            import collections

            if n == "collections" and not hasattr(collections, name):
                return None
            return BuiltinClass(name)
    if n in I.present:
        mod = I.present[n]
        r = mod(I, st, name)
        if r is not None:
            return r
        return None
    if top in sys.stdlib_module_names:
        mod = std_namespace(n)
        if mod is not None and name not in mod:
            return None
        v = mod.get(name) if mod is not None else None
        if isinstance(v, type) and issubclass(v, BaseException):
            from .engine import EXC

            for b in v.__mro__:
                if b.__name__ in EXC:
                    return BuiltinClass(b.__name__)
        return Builtin(n + "." + name)
    return Opaque("any", ("mod", n, name))


_NS = {}


def std_namespace(n):
    """names a standard-library module offers (the host interpreter's own stdlib,
    not the analysed package)"""
    if n not in _NS:
        import importlib

        try:
            _NS[n] = dict(vars(importlib.import_module(n)))
        except Exception:
            _NS[n] = None
    return _NS[n]


def abc_class(I, st, name):
    """Sequence mixins are taken from the stdlib source text and interpreted"""
    key = "_collections_abc"
    if key not in I.nonrepo:
        import _collections_abc, inspect

        src = inspect.getsource(_collections_abc)
        tree = ast.parse(src)
        body = []
        for n in tree.body:
            if isinstance(n, ast.ClassDef) and n.name in ("Sequence", "MutableSequence"):
                n.bases = [ast.Name("object", ast.Load())] if n.name == "Sequence" else [ast.Name("Sequence", ast.Load())]
                n.keywords = []
                n.body = [b for b in n.body if not (isinstance(b, ast.FunctionDef) and any(getattr(d, "id", "") == "abstractmethod" for d in b.decorator_list)) and not isinstance(b, ast.Assign)]
                body.append(n)
        mod = ast.Module(body, [])
        ast.fix_missing_locations(mod)
        from .engine import FuncInfo, Fr

        ref = st.alloc(Obj("module", None, {"__name__": Const(key)}, None, key))
        I.nonrepo[key] = ref
        fi = FuncInfo(mod, key, None, key, set(), False, None)
        fr = Fr(ref.addr, fi, ref.addr)
        fr.classbody = True
        I.exec_block(mod.body, st, fr)
    return I.classes[key + "." + name]


# ---- regular expressions


def const_text(v):
    return isinstance(v, Const) and isinstance(v.v, str)


_GROUP_CACHE = {}


def group_info(pattern, flags):
    """(n groups, names, set of optional groups, per-group kind)"""
    k = (pattern, flags)
    if k in _GROUP_CACHE:
        return _GROUP_CACHE[k]
    import re._parser as sp

    rx = _re.compile(pattern, flags)
    optional = set()
    kinds = {}

    def walk(seq, opt):
        for op, av in seq:
            name = str(op)
            if name == "SUBPATTERN":
                gid, _, _, sub = av
                if gid is not None:
                    if opt:
                        optional.add(gid)
                    kinds[gid] = sub
                walk(sub, opt)
            elif name in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                lo, hi, sub = av
                walk(sub, opt or lo == 0)
            elif name == "BRANCH":
                for sub in av[1]:
                    walk(sub, True)
            elif name in ("ASSERT", "ASSERT_NOT"):
                walk(av[1], True)
            elif name == "ATOMIC_GROUP":
                walk(av, opt)
            elif name == "GROUPREF_EXISTS":
                walk(av[1], True)
                if av[2]:
                    walk(av[2], True)

    walk(sp.parse(pattern, flags), False)
    info = (rx.groups, dict(rx.groupindex), optional, kinds)
    _GROUP_CACHE[k] = info
    return info


_FLOATISH = None


def group_numeric(pattern, flags, gid):
    """is every string captured by the group accepted by float()?  Decided on the
    pattern text: the group body is the optional-sign/digits/exponent automaton."""
    n, names, opt, kinds = group_info(pattern, flags)
    sub = kinds.get(gid)
    if sub is None:
        return False
    txt = repr(sub)
    import re._parser as sp

    global _FLOATISH
    if _FLOATISH is None:
        _FLOATISH = {
            repr(sp.parse(p))
            for p in (
                r"[-+]?[0-9]*\.?[0-9]+(?:[eE][-+]?[0-9]+)?",
                r"[-+]?[0-9]*\.?[0-9]+",
                r"[0-9]+",
                r"\d+",
                r"[01]",
                r"[-+]?(?:[0-9]*\.?[0-9]+|[0-9]+\.)(?:[eE][-+]?[0-9]+)?",
                r"[-+]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][-+]?[0-9]+)?",
            )
        }
    return txt in _FLOATISH or txt.lstrip("[").rstrip("]") in {f.lstrip("[").rstrip("]") for f in _FLOATISH}


def match_group(I, st, m, k):
    n, names, opt, kinds = group_info(m.regex.pattern, m.regex.flags)
    if isinstance(k, Const) and isinstance(k.v, str):
        if k.v not in names:
            return I.throws(st, "IndexError", "no such group")
        gid = names[k.v]
    else:
        gid = const_index(k)
        if gid is None:
            return [(st, I.fresh("group"))]
    if gid > n:
        return I.throws(st, "IndexError", "no such group")
    t = "numstr" if group_numeric(m.regex.pattern, m.regex.flags, gid) else "str"
    val = Opaque(t, ("grp", m.key, gid))
    if gid in opt:
        at = ("grpnone", m.key, gid)
        d = st.decide(at)
        if d is True:
            return [(st, NONE)]
        if d is False:
            return [(st, I.resolve(st, val))]
        a, b = st.fork(), st.fork()
        a.assume(at, True)
        b.assume(at, False)
        return [(a, NONE), (b, I.resolve(b, val))]
    return [(st, I.resolve(st, val))]


def regex_call(I, st, rx, name, args, kw):
    s = I.resolve(st, args[0]) if args else NONE
    hook = I.hooks.get("regex")
    if hook is not None:
        r = hook(I, st, rx, name, args, kw)
        if r is not None:
            return r
    if s == NONE or isinstance(s, (Num, Tup)) or isinstance(s, Ref):
        if isinstance(s, Ref) and I.base_kind(st.o(s).cls) == "str" if isinstance(s, Ref) and isinstance(st.o(s).cls, ClassVal) else False:
            pass
        return I.throws(st, "TypeError", "expected string or bytes-like object")
    if const_text(s) and all(const_index(a) is not None for a in args[1:]) and name in ("match", "search", "fullmatch", "findall", "split", "finditer"):
        p = _re.compile(rx.pattern, rx.flags)
        r = getattr(p, name)(s.v, *[const_index(a) for a in args[1:]])
        if name in ("findall", "split"):
            return [(st, lift(I, st, r))]
        if name == "finditer":
            return [(st, st.list([ConstMatch.make(st, x) for x in r]))]
        if r is None:
            return [(st, NONE)]
        return [(st, ConstMatch.make(st, r))]
    cs = concretize(I, s) if isinstance(s, Text) else None
    if cs is not None and name in ("match", "search", "fullmatch", "findall", "split", "finditer") and all(const_index(a) is not None for a in args[1:]):
        return regex_call(I, st, rx, name, [Const(cs)] + list(args[1:]), kw)
    if name in ("sub",) and len(args) >= 2:
        c0, c1 = concretize(I, args[0]) if is_str(args[0]) else None, concretize(I, args[1]) if is_str(args[1]) else None
        if c0 is not None and c1 is not None and len(args) == 2:
            return [(st, lift(I, st, _re.compile(rx.pattern, rx.flags).sub(c0, c1)))]
        if c1 is not None and not is_str(args[0]) and len(args) == 2 and isinstance(args[0], (FuncVal, BoundMethod, Builtin, ClassVal, BuiltinClass)):
            parts, at, cur = [], 0, [(st, [])]
            for m in _re.compile(rx.pattern, rx.flags).finditer(c1):
                nxt = []
                for s1, ps in cur:
                    if isinstance(ps, Raise):
                        nxt.append((s1, ps))
                        continue
                    for s2, r in I.call(s1, args[0], [ConstMatch.make(s1, m)], {}):
                        nxt.append((s2, r if isinstance(r, Raise) else ps + [c1[at:m.start()], r]))
                at = m.end()
                cur = nxt
            out = []
            for s1, ps in cur:
                if isinstance(ps, Raise):
                    out.append((s1, ps))
                    continue
                ps = ps + [c1[at:]]
                txt = [p if isinstance(p, str) else concretize(I, p) if is_str(p) else None for p in ps]
                out.append((s1, Const("".join(txt)) if None not in txt else Opaque("str", ("re", rx.pattern, "sub", tuple(ps)))))
            return out
    key = ("re", rx.pattern, name, s, tuple(args[1:]))
    n, names, opt, kinds = group_info(rx.pattern, rx.flags)
    if name in ("match", "search", "fullmatch"):
        at = ("rematch", key)
        d = st.decide(at)
        if d is True:
            return [(st, MatchV(rx, key))]
        if d is False:
            return [(st, NONE)]
        a, b = st.fork(), st.fork()
        a.assume(at, True)
        b.assume(at, False)
        return [(a, MatchV(rx, key)), (b, NONE)]
    if name == "findall":
        if n == 0:
            t = "numstr" if is_float_pattern(rx.pattern) else "str"
            return [(st, OSeq(key, t))]
        ts = []
        for g in range(1, n + 1):
            ts.append("numstr" if group_numeric(rx.pattern, rx.flags, g) and g not in opt else "str")
        if n == 1:
            return [(st, OSeq(key, ts[0]))]
        return [(st, OSeq(key, ("tuple", tuple(ts))))]
    if name == "finditer":
        return [(st, OSeq(key, ("match", rx)))]
    if name == "split":
        return [(st, OSeq(key, "str"))]
    if name in ("sub", "subn"):
        return [(st, Opaque("str", key + tuple(args)))]
    return [(st, I.fresh("re"))]


def is_float_pattern(p):
    import re._parser as sp

    group_numeric("(a)", 0, 1)
    return repr(sp.parse(p)) in _FLOATISH


class ConstMatch:
    @staticmethod
    def make(st, m):
        o = Obj("model", BuiltinClass("re.Match"), {}, None)
        o.meta = m
        return st.alloc(o)


def constmatch_call(I, st, m, name, args):
    pa = []
    for a in args:
        if isinstance(a, Const):
            pa.append(a.v)
        else:
            pa.append(const_index(a))
    try:
        return [(st, lift(I, st, getattr(m, name)(*pa)))]
    except IndexError:
        return I.throws(st, "IndexError", "no such group")


# ---- builtin functions


def call_builtin(I, st, name, args, kw):
    args = [I.resolve(st, a) for a in args]
    h = I.hooks.get("builtin:" + name)
    if h is not None:
        r = h(I, st, args, kw)
        if r is not None:
            return r
    if name.startswith("math."):
        f = name[5:]
        if f in MATH_FUNS:
            return math_call(I, st, f, args)
        return [(st, Num(Rat(Poly.of(atom((name,) + tuple(args)))), "f"))]
    if name.startswith("re."):
        if name == "re.compile":
            if isinstance(args[0], Const):
                fl = const_index(args[1]) if len(args) > 1 else const_index(kw["flags"]) if "flags" in kw else 0
                try:
                    _re.compile(args[0].v, fl or 0)
                except _re.error as e:
                    return I.throws(st, "ValueError", "bad regex %s" % e)
                return [(st, RegexV(args[0].v, fl or 0))]
            return [(st, I.fresh("regex"))]
        if name == "re.escape":
            return str_like(I, st, name, args)
        if isinstance(args[0], Const) and isinstance(args[0].v, str):
            return regex_call(I, st, RegexV(args[0].v, 0), name[3:], args[1:], kw)
        if isinstance(args[0], RegexV):
            return regex_call(I, st, args[0], name[3:], args[1:], kw)
        return [(st, I.fresh("re"))]
    if name in ("copy.copy", "copy.deepcopy"):
        return copy_model(I, st, args[0], name.endswith("deepcopy"))
    if name == "isinstance":
        c = args[1]
        r = I.isinstance_(st, args[0], c)
        if r is None:
            if isinstance(args[0], Opaque):
                return [(st, dec(st, ("isinst", args[0].key, c)))]
            return [(st, BoolV(("isinst", args[0], c), False))]
        return [(st, B(r))]
    if name == "issubclass":
        r = I.is_subclass(args[0], args[1])
        return [(st, B(r) if r is not None else BoolV(("issub", args[0], args[1]), False))]
    if name == "len":
        return length(I, st, args[0])
    if name == "abs":
        return absolute(I, st, args[0])
    if name in ("min", "max"):
        return minmax(I, st, name, args, kw)
    if name == "sum":
        out = []
        for s, items in iterate(I, st, args[0]):
            if isinstance(items, Raise):
                out.append((s, items))
                continue
            if isinstance(items, OSeq):
                out.append((s, Num(Rat(Poly.of(atom(("sum", items.key)))), "f")))
                continue
            cur = [(s, args[1] if len(args) > 1 else num(0))]
            for x in items:
                nx = []
                for s2, acc in cur:
                    if isinstance(acc, Raise):
                        nx.append((s2, acc))
                    else:
                        nx.extend(binop(I, s2, "Add", acc, x))
                cur = nx
            out.extend(cur)
        return out
    if name == "round":
        v = args[0]
        x = as_num(v)
        if x is None:
            c = user_class(I, st, v)
            if c is not None and has_user(I, c, "__round__"):
                return I.call_type_method(st, v, "__round__", list(args[1:]))
            if isinstance(v, Opaque):
                return [(st, Num(Rat(Poly.of(atom(("round", v.key)))), "i"))]
            if isinstance(v, Bits):
                return [(st, v)]
            if isinstance(v, Ref) and st.o(v).kind == "nd":
                return [(st, v)]
            return I.throws(st, "TypeError", "type doesn't define __round__ method")
        if len(args) > 1 and args[1] != NONE:
            c, d = x.const(), const_index(args[1])
            if c is not None and d is not None:
                return [(st, Num(R(Fraction(repr(round(float(c), d))) if x.k != "i" else round(int(c), d)), x.k if isinstance(x.k, str) else "f"))]
            return [(st, Num(fun("round", x.r, as_num(args[1]).r if as_num(args[1]) else ZERO), "f"))]
        if x.k == "i":
            return [(st, x)]
        return [(st, Num(fun("round", st.norm(x.r)), "i"))]
    if name == "pow":
        return binop(I, st, "Pow", args[0], args[1])
    if name == "divmod":
        out = []
        for s, q in binop(I, st, "FloorDiv", args[0], args[1]):
            for s2, r in binop(I, s, "Mod", args[0], args[1]):
                out.append((s2, Tup((q, r))))
        return out
    if name in ("any", "all"):
        out = []
        for s, items in iterate(I, st, args[0]):
            if isinstance(items, Raise):
                out.append((s, items))
                continue
            if isinstance(items, OSeq):
                out.append((s, BoolV((name, items.key), False)))
                continue
            live = [s]
            for x in items:
                nx = []
                for q in live:
                    for q2, b in I.truth(q, x):
                        if isinstance(b, Raise):
                            out.append((q2, b))
                        elif b is (name == "any"):
                            out.append((q2, B(name == "any")))
                        else:
                            nx.append(q2)
                live = nx
            out.extend((q, B(name == "all")) for q in live)
        return out
    if name == "sorted":
        return sorted_(I, st, args, kw)
    if name == "iter":
        v = args[0]
        if isinstance(v, Ref) and st.o(v).kind == "iter":
            return [(st, v)]
        c = user_class(I, st, v)
        if c is not None and has_user(I, c, "__iter__"):
            return I.call_type_method(st, v, "__iter__", [])
        out = []
        for s, items in iterate(I, st, v):
            out.append((s, items if isinstance(items, (Raise, OSeq)) else s.alloc(Obj("iter", BuiltinClass("iter"), {"pos": num(0)}, list(items)))))
        return out
    if name == "next":
        v = args[0]
        c = user_class(I, st, v)
        if c is not None and has_user(I, c, "__next__"):
            rs = I.call_type_method(st, v, "__next__", [])
        elif isinstance(v, Ref) and st.o(v).kind == "iter":
            o = st.o(v)
            p = int(o.fields["pos"].const())
            if p >= len(o.items):
                rs = I.throws(st, "StopIteration", "")
            else:
                st.w(v).fields["pos"] = num(p + 1)
                rs = [(st, o.items[p])]
        else:
            I.note("next on unknown")
            k = v.key if isinstance(v, (OSeq, Opaque)) else v
            I.opaque_n += 1
            if isinstance(v, OSeq):
                rs = I.possible(st, "StopIteration") + I.seq_elem(st, v, ("next", I.opaque_n))
            else:
                rs = I.possible(st, "StopIteration") + [(st, Opaque("any", ("next", k, I.opaque_n)))]
        if len(args) > 1:
            return [(s, args[1] if isinstance(r, Raise) and r.name == "StopIteration" else r) for s, r in rs]
        return rs
    if name == "str" or name == "repr":
        return to_repr(I, st, args[0]) if name == "repr" else to_str(I, st, args[0])
    if name == "format":
        if len(args) == 1 or args[1] == Const(""):
            return to_str(I, st, args[0])
        if isinstance(args[1], Const):
            return format_value(I, st, args[0], args[1].v)
        return [(st, I.fresh("fmt"))]
    if name == "hash":
        v = args[0]
        c = user_class(I, st, v)
        if c is not None:
            if has_user(I, c, "__hash__"):
                return I.call_type_method(st, v, "__hash__", [])
            own = next((k for k in c.mro if isinstance(k, ClassVal) and "__eq__" in k.dict), None)
            if own is not None:
                return I.throws(st, "TypeError", "unhashable type: '%s'" % c.name)
        if isinstance(v, Ref) and st.o(v).kind in ("list", "dict", "set"):
            return I.throws(st, "TypeError", "unhashable type")
        return [(st, Opaque("any", ("hash", v)))]
    if name == "id":
        return [(st, Opaque("any", ("id", args[0])))]
    if name == "getattr":
        if isinstance(args[1], Const):
            rs = I.get_attr(st, args[0], args[1].v)
            if len(args) > 2:
                return [(s, args[2] if isinstance(r, Raise) and r.name == "AttributeError" else r) for s, r in rs]
            return rs
        return [(st, I.fresh("getattr"))]
    if name == "hasattr":
        if isinstance(args[1], Const):
            if isinstance(args[0], Opaque) and args[0].t == "any":
                return [(st, BoolV(("hasattr", args[0].key, args[1].v), False))]
            return [(s, B(not (isinstance(r, Raise) and r.name == "AttributeError"))) if not (isinstance(r, Raise) and r.name != "AttributeError") else (s, r) for s, r in I.get_attr(st, args[0], args[1].v)]
        return [(st, BoolV(("hasattr", args[0], args[1]), False))]
    if name == "setattr":
        if isinstance(args[1], Const):
            return [(s, r if isinstance(r, Raise) else NONE) for s, r in I.set_attr(st, args[0], args[1].v, args[2])]
        I.note("setattr unknown name")
        return [(st, NONE)]
    if name == "callable":
        return [(st, B(isinstance(args[0], (FuncVal, BoundMethod, ClassVal, Builtin, BuiltinClass, BoundBuiltin))))]
    if name == "print":
        return [(st, NONE)]
    if name in ("chr", "ord", "hex", "oct", "bin"):
        if name == "ord" and isinstance(args[0], Const):
            return [(st, num(ord(args[0].v)))]
        i = const_index(args[0])
        if i is not None and name != "ord":
            return [(st, Const({"chr": chr, "hex": hex, "oct": oct, "bin": bin}[name](i)))]
        if name == "ord":
            return [(st, Num(Rat(Poly.of(atom(("ord", args[0])))), "i"))]
        return [(st, Opaque("str", (name, args[0])))]
    if name == "open":
        h = I.hooks.get("open")
        if h:
            return h(I, st, args, kw)
        return [(st, Opaque("any", ("open",) + tuple(args)))]
    if name.startswith("functools."):
        if name == "functools.partial":
            return [(st, Partial(args[0], tuple(args[1:]), tuple(kw.items())))]
        if name == "functools.reduce":
            out = []
            for s, items in iterate(I, st, args[1]):
                if isinstance(items, (Raise, OSeq)):
                    out.append((s, items if isinstance(items, Raise) else I.fresh("reduce")))
                    continue
                items = list(items)
                if len(args) > 2:
                    acc = args[2]
                elif items:
                    acc = items.pop(0)
                else:
                    out.append((s, I.exc("TypeError", "reduce of empty")))
                    continue
                cur = [(s, acc)]
                for x in items:
                    nx = []
                    for s2, a in cur:
                        nx.extend([(s2, a)] if isinstance(a, Raise) else I.call(s2, args[0], [a, x], {}))
                    cur = nx
                out.extend(cur)
            return out
        return [(st, Builtin(name))]
    if name.startswith("itertools."):
        f = name[10:]
        if f == "chain":
            cur = [(st, [])]
            for a in args:
                nx = []
                for s, acc in cur:
                    if isinstance(acc, (Raise, OSeq)):
                        nx.append((s, acc))
                        continue
                    for s2, it in iterate(I, s, a):
                        nx.append((s2, it if isinstance(it, Raise) else OSeq(("chain", tuple(args)), "any") if isinstance(it, OSeq) else acc + it))
                cur = nx
            return [(s, a if isinstance(a, (Raise, OSeq)) else s.alloc(Obj("iter", BuiltinClass("iter"), {"pos": num(0)}, a))) for s, a in cur]
        if f == "islice" and len(args) >= 2:
            out = []
            for s, items in iterate(I, st, args[0]):
                if isinstance(items, (Raise, OSeq)):
                    out.append((s, items))
                    continue
                cs = [const_index(a) if a != NONE else None for a in args[1:]]
                out.append((s, s.alloc(Obj("iter", BuiltinClass("iter"), {"pos": num(0)}, list(items)[slice(*cs)]))))
            return out
        return [(st, I.fresh(name))]
    if name.startswith("operator."):
        f = name[9:]
        ops = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "matmul": "MatMult", "mod": "Mod", "pow": "Pow", "and_": "BitAnd", "or_": "BitOr", "lshift": "LShift", "rshift": "RShift"}
        iops = {"i" + k.rstrip("_"): v for k, v in ops.items()}
        cmps = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq", "is_": "Is", "is_not": "IsNot"}
        if f in ops:
            return binop(I, st, ops[f], args[0], args[1])
        if f in iops:
            return inplace(I, st, iops[f], args[0], args[1])
        if f in cmps:
            return compare(I, st, cmps[f], args[0], args[1])
        if f == "neg":
            return unary(I, st, "USub", args[0])
        if f == "getitem":
            return get_item(I, st, args[0], args[1])
        if f == "contains":
            return contains(I, st, args[0], args[1])
        if f in ("attrgetter", "itemgetter", "methodcaller"):
            return [(st, Partial(Builtin("operator.%" + f), tuple(args), ()))]
        if f == "%attrgetter":
            return I.get_attr(st, args[-1], args[0].v)
        if f == "%itemgetter":
            return get_item(I, st, args[-1], args[0])
        return [(st, I.fresh(name))]
    for pre in I.present:
        if name.startswith(pre + "."):
            r = I.present[pre](I, st, name[len(pre) + 1:], args, kw)
            if r is not None:
                return r
    # unbound method of a builtin class: list.append(x, ...)
    if "." in name:
        cls, m = name.rsplit(".", 1)
        from .engine import PYTYPES

        if cls in PYTYPES:
            if m == "__new__":
                c = args[0]
                if isinstance(c, ClassVal):
                    return I.new_obj(st, c, args[1:], kw, init=False)
                return call_class(I, st, c, args[1:], kw)
            if m == "fromkeys":
                out = []
                for s, items in iterate(I, st, args[0]):
                    if isinstance(items, (Raise, OSeq)):
                        out.append((s, items if isinstance(items, Raise) else I.fresh("dict")))
                    else:
                        out.append((s, s.dict([(k, args[1] if len(args) > 1 else NONE) for k in items])))
                return out
            if m == "maketrans":
                return [(st, I.fresh("trans"))]
            if m in ("fromhex", "from_bytes"):
                return [(st, I.fresh(name))]
            if not args:
                return I.throws(st, "TypeError", "descriptor '%s' needs an argument" % m)
            return call_bound(I, st, args[0], cls + "." + m, list(args[1:]), kw)
    return std_call(I, st, name, args, kw)


def std_call(I, st, name, args, kw):
    """any other standard-library function: an unknown value, possible OSError/ValueError"""
    h = I.hooks.get("std:" + name)
    if h is not None:
        r = h(I, st, args, kw)
        if r is not None:
            return r
    I.opaque_n += 1
    return [(st, Opaque("any", ("std", name, tuple(args), tuple(sorted(kw.items(), key=lambda t: str(t[0]))))))]


def str_like(I, st, name, args):
    return [(st, Opaque("str", (name,) + tuple(args)))]


def sorted_(I, st, args, kw):
    out = []
    for s, items in iterate(I, st, args[0]):
        if isinstance(items, (Raise, OSeq)):
            out.append((s, items))
            continue
        rev = kw.get("reverse")
        key = kw.get("key")
        keyed = [(s, [])]
        if key is not None and key != NONE:
            for x in items:
                nx = []
                for q, acc in keyed:
                    if isinstance(acc, Raise):
                        nx.append((q, acc))
                        continue
                    for q2, kx in I.call(q, key, [x], {}):
                        nx.append((q2, kx if isinstance(kx, Raise) else acc + [kx]))
                keyed = nx
        else:
            keyed = [(s, list(items))]
        for q, ks in keyed:
            if isinstance(ks, Raise):
                out.append((q, ks))
                continue
            if all(isinstance(k, Num) and k.const() is not None for k in ks):
                l = [x for _, x in sorted(zip([k.const() for k in ks], items), key=lambda t: t[0])]
            elif all(isinstance(k, Const) and isinstance(k.v, str) for k in ks):
                l = [x for _, x in sorted(zip([k.v for k in ks], items), key=lambda t: t[0])]
            elif len(items) <= 1:
                l = list(items)
            else:
                bag = Tup(tuple(sorted(items, key=repr)))
                l = [Opaque("any", ("sorted", bag, i)) for i in range(len(items))]
                if all(isinstance(x, Num) for x in items):
                    l = [Num(Rat(Poly.of(atom(("sorted", bag, i)))), "f") for i in range(len(items))]
            if rev == TRUE:
                l = list(reversed(l))
            out.append((q, q.list(l)))
    return out


def minmax(I, st, name, args, kw):
    if len(args) == 1:
        res = iterate(I, st, args[0])
    else:
        res = [(st, list(args))]
    out = []
    for s, items in res:
        if isinstance(items, Raise):
            out.append((s, items))
            continue
        if isinstance(items, OSeq):
            k = (name, items.key)
            if items.elem in ("num",):
                out.append((s, Num(Rat(Poly.of(atom(k))), "f")))
            else:
                out.extend(I.possible(s, "ValueError", "empty"))
                out.append((s, Opaque("any", k)))
            continue
        if not items:
            out.append((s, kw["default"]) if "default" in kw else (s, I.exc("ValueError", "%s() arg is an empty sequence" % name)))
            continue
        key = kw.get("key")
        ks = items
        if key is not None and key != NONE:
            cur = [(s, [])]
            for x in items:
                nx = []
                for q, acc in cur:
                    if isinstance(acc, Raise):
                        nx.append((q, acc))
                        continue
                    for q2, kx in I.call(q, key, [x], {}):
                        nx.append((q2, kx if isinstance(kx, Raise) else acc + [kx]))
                cur = nx
            for q, kk in cur:
                if isinstance(kk, Raise):
                    out.append((q, kk))
                    continue
                out.extend(select(I, q, name, items, kk))
            continue
        ns = [as_num(x) for x in items]
        if all(n is not None for n in ns):
            r = fun(name, *[s.norm(n.r) for n in ns])
            kinds = {n.k if isinstance(n.k, str) else "f" for n in ns}
            out.append((s, Num(r, "i" if kinds == {"i"} else "f" if kinds == {"f"} else "n")))
            continue
        if any(isinstance(x, Opaque) and x.t in ("any",) for x in items):
            out.append((s, Opaque("any", (name, tuple(items)))))
            continue
        out.extend(select(I, s, name, items, items))
    return out


def select(I, st, name, items, keys):
    """first extreme element, by pairwise comparison"""
    cur = [(st, items[0], keys[0])]
    out = []
    op = "Lt" if name == "min" else "Gt"
    for x, k in zip(items[1:], keys[1:]):
        nx = []
        for s, best, bk in cur:
            for s2, v in compare(I, s, op, k, bk):
                if isinstance(v, Raise):
                    out.append((s2, v))
                    continue
                for s3, b in I.truth(s2, v):
                    if isinstance(b, Raise):
                        out.append((s3, b))
                    else:
                        nx.append((s3, x, k) if b else (s3, best, bk))
        cur = nx
    return out + [(s, b) for s, b, _ in cur]


def length(I, st, v):
    c = user_class(I, st, v)
    if c is not None and has_user(I, c, "__len__"):
        return I.call_type_method(st, v, "__len__", [])
    if isinstance(v, Tup):
        return [(st, num(len(v.items)))]
    if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
        return [(st, num(len(v.v)))]
    if isinstance(v, Ref) and st.o(v).items is not None:
        if st.o(v).fields.get("open") and st.o(v).kind == "dict":
            return [(st, Num(Rat(Poly.of(atom("len", (st.o(v).fields["open"],)))), "i"))]
        if st.o(v).kind == "iter":
            return I.throws(st, "TypeError", "object of type 'generator' has no len()")
        return [(st, num(len(st.o(v).items)))]
    if isinstance(v, OSeq):
        return [(st, Num(Rat(Poly.of(atom("len", (v.key,)))), "i"))]
    if isinstance(v, Text) or isinstance(v, Opaque):
        from . import bits

        if isinstance(v, Opaque) and v.t == "object":
            return I.throws(st, "TypeError", "object has no len()")
        n = bits.text_len(st, v)
        if n is not None:
            return [(st, num(n))]
        cv = lit_spelling(I, v)
        if cv is not None:
            return [(st, num(len(cv)))]
        return [(st, Num(Rat(Poly.of(atom("len", (v,)))), "i"))]
    t = I.type_of(st, v)
    return I.throws(st, "TypeError", "object of type '%s' has no len()" % getattr(t, "name", "?"))


def absolute(I, st, v):
    c = user_class(I, st, v)
    if c is not None and has_user(I, c, "__abs__"):
        return I.call_type_method(st, v, "__abs__", [])
    x = as_num(v)
    if x is not None:
        k = x.k if isinstance(x.k, str) else "f"
        r = st.norm(x.r)
        if st.decide(("lt", r)) is True or st.decide(("le", r)) is True:
            return [(st, Num(-r, k))]
        if st.decide(("lt", r)) is False:
            return [(st, Num(r, k))]
        return [(st, Num(fun("abs", r), k))]
    if isinstance(v, Cx):
        return [(st, Num(fun("sqrt", v.re * v.re + v.im * v.im), "f"))]
    if isinstance(v, Opaque):
        if v.t == "any":
            return [(st, Opaque("any", ("abs", v.key)))]
        return I.throws(st, "TypeError", "bad operand type for abs()")
    if isinstance(v, Ref) and st.o(v).kind == "nd":
        out = [(st, [])]
        for x in st.o(v).items:
            nx = []
            for s, acc in out:
                for s2, y in absolute(I, s, x):
                    nx.append((s2, acc + [y]))
            out = nx
        return [(s, s.alloc(Obj("nd", BuiltinClass("ndarray"), {}, a))) for s, a in out]
    if isinstance(v, Bits):
        return [(st, v)] if v.sign == 0 else [(st, I.fresh("abs"))]
    t = I.type_of(st, v)
    return I.throws(st, "TypeError", "bad operand type for abs(): '%s'" % getattr(t, "name", "?"))


def copy_model(I, st, v, deep=False):
    c = user_class(I, st, v)
    m = "__deepcopy__" if deep else "__copy__"
    if c is not None:
        if has_user(I, c, m):
            return I.call_type_method(st, v, m, [NONE] if deep else [])
        if isinstance(v, Num):
            return [(st, v)]
        o = st.o(v)
        n = Obj(o.kind, o.cls, dict(o.fields), None)
        if o.items is not None:
            n.items = list(o.items) if isinstance(o.items, list) else dict(o.items)
        return [(st, st.alloc(n))]
    if isinstance(v, Ref):
        o = st.o(v)
        if o.kind in ("list", "dict", "set"):
            n = o.clone()
            n.meta = None
            return [(st, st.alloc(n))]
    return [(st, v)]


def call_bound(I, st, recv, name, args, kw):
    """method of a builtin value (name possibly qualified by the builtin class)"""
    args = [I.resolve(st, a) for a in args]
    recv = I.resolve(st, recv)
    cls = None
    if "." in name:
        cls, name = name.rsplit(".", 1)
    if cls == "object" or name in ("__setattr__", "__getattribute__", "__delattr__") and cls is not None:
        if name == "__getattribute__":
            return I.generic_getattr(st, recv, args[0].v) if isinstance(args[0], Const) and isinstance(I.type_of(st, recv), ClassVal) else I.get_attr(st, recv, args[0].v)
        if name == "__setattr__":
            return [(s, r if isinstance(r, Raise) else NONE) for s, r in I.generic_setattr(st, recv, args[0].v, args[1])]
        if name in ("__init__", "__init_subclass__"):
            if args or kw:
                return I.throws(st, "TypeError", "object.__init__() takes exactly one argument")
            return [(st, NONE)]
        if name in ("__eq__", "__ne__"):
            if recv == args[0]:
                return [(st, B(name == "__eq__"))]
            return [(st, NOTIMPL)]
        if name in ("__repr__", "__str__"):
            return [(st, Opaque("str", (name, recv)))]
        if name == "__hash__":
            return [(st, Opaque("any", ("id", recv)))]
        if name == "__new__":
            return I.new_obj(st, args[0], args[1:], kw, init=False)
        if name == "__reduce_ex__" or name == "__reduce__":
            return [(st, I.fresh("reduce"))]
    if isinstance(recv, RegexV):
        return regex_call(I, st, recv, name, args, kw)
    if isinstance(recv, MatchV):
        if name == "group":
            if not args:
                return [(st, Opaque("str", ("grp", recv.key, 0)))]
            if len(args) == 1:
                return match_group(I, st, recv, args[0])
            cur = [(st, [])]
            for a in args:
                nx = []
                for s, acc in cur:
                    for s2, g in match_group(I, s, recv, a):
                        nx.append((s2, acc + [g]))
                cur = nx
            return [(s, Tup(tuple(a))) for s, a in cur]
        if name == "groups":
            n = group_info(recv.regex.pattern, recv.regex.flags)[0]
            cur = [(st, [])]
            for i in range(1, n + 1):
                nx = []
                for s, acc in cur:
                    for s2, g in match_group(I, s, recv, num(i)):
                        nx.append((s2, acc + [g]))
                cur = nx
            return [(s, Tup(tuple(a))) for s, a in cur]
        if name in ("end", "start"):
            return [(st, Num(Rat(Poly.of(atom(("m" + name, recv.key) + tuple(args)))), "i"))]
        return [(st, Opaque("any", ("m", name, recv.key, tuple(args))))]
    if is_str(recv):
        if name == "__eq__":
            return eq(I, st, recv, args[0])
        if name in ("__contains__",):
            return contains(I, st, recv, args[0])
        if name == "__getitem__":
            return get_item(I, st, recv, args[0])
        if name == "__len__":
            return length(I, st, recv)
        return str_method(I, st, recv, name, args, kw)
    if isinstance(recv, (Num, Cx, Bits)) or isinstance(recv, (Const,)) and isinstance(recv.v, bool) or isinstance(recv, BoolV):
        return num_method(I, st, recv, name, args, kw)
    if isinstance(recv, Tup):
        if name == "index":
            for i, x in enumerate(recv.items):
                if x == args[0]:
                    return [(st, num(i))]
            return I.throws(st, "ValueError", "tuple.index")
        if name == "count":
            return [(st, num(sum(1 for x in recv.items if x == args[0])))]
        if name == "__getitem__":
            return get_item(I, st, recv, args[0])
        if name == "__len__":
            return length(I, st, recv)
        if name == "__iter__":
            return [(st, recv)]
        if name == "__eq__":
            return eq(I, st, recv, args[0])
        if name == "__contains__":
            return contains(I, st, recv, args[0])
        return [(st, I.fresh("tuple." + name))]
    if isinstance(recv, Ref):
        o = st.o(recv)
        if o.kind == "model":
            if o.cls == BuiltinClass("re.Match"):
                return constmatch_call(I, st, o.meta, name, args)
            h = I.hooks.get("model:" + o.cls.name)
            if h is not None:
                return h(I, st, recv, name, args, kw)
        if o.items is not None and isinstance(o.items, list) and o.kind in ("list", "inst"):
            return list_method(I, st, recv, name, args, kw)
        if o.kind == "dict":
            return dict_method(I, st, recv, name, args, kw)
        if o.kind == "set":
            return set_method(I, st, recv, name, args, kw)
        if o.kind == "iter":
            if name == "__next__":
                return call_builtin(I, st, "next", [recv], {})
            if name == "__iter__":
                return [(st, recv)]
            return [(st, I.fresh("iter." + name))]
        if o.kind == "nd":
            for pre in I.present:
                r = I.present[pre](I, st, "ndarray." + name, [recv] + list(args), kw)
                if r is not None:
                    return r
            return [(st, I.fresh("nd." + name))]
        if name == "__init__":
            return [(st, NONE)]
    if isinstance(recv, OSeq):
        if name in ("append", "extend", "insert", "remove", "reverse", "sort", "clear"):
            I.note("mutation of unknown sequence")
            return [(st, NONE)]
        return [(st, Opaque("any", ("m", name, recv.key, tuple(args))))]
    if isinstance(recv, Opaque):
        if recv.t == "dict" and name == "get":
            return [(st, Opaque("any", ("item", recv.key, args[0])))]
        return [(st, Opaque("any", ("m", name, recv.key, tuple(args))))]
    if isinstance(recv, SliceV) and name == "indices":
        sl, n = slice_of(recv), const_index(args[0])
        if sl is not None and n is not None:
            return [(st, Tup(tuple(num(i) for i in sl.indices(n))))]
    return [(st, I.fresh("bound." + name))]


def num_method(I, st, recv, name, args, kw):
    if name == "conjugate":
        if isinstance(recv, Cx):
            return [(st, Cx(recv.re, -recv.im))]
        return [(st, recv)]
    if name == "is_integer":
        c = recv.const() if isinstance(recv, Num) else None
        if c is not None:
            return [(st, B(c.denominator == 1))]
        return [(st, BoolV(("isint", recv), False))]
    base = recv
    if isinstance(recv, Num) and not isinstance(recv.k, str):
        base = Num(recv.r, "f")
    ops = {"__add__": "Add", "__sub__": "Sub", "__mul__": "Mult", "__truediv__": "Div", "__mod__": "Mod", "__pow__": "Pow", "__floordiv__": "FloorDiv", "__and__": "BitAnd", "__or__": "BitOr", "__lshift__": "LShift", "__rshift__": "RShift"}
    if name in ops:
        return builtin_binop(I, st, ops[name], base, args[0])
    if name.startswith("__r") and "__" + name[3:] in ops:
        return builtin_binop(I, st, ops["__" + name[3:]], args[0], base)
    if name == "__eq__":
        return builtin_eq(I, st, base, args[0])
    if name == "__ne__":
        return [(s, I.notv(v) or v) for s, v in builtin_eq(I, st, base, args[0])]
    if name in ("__lt__", "__le__", "__gt__", "__ge__"):
        return builtin_order(I, st, {"__lt__": "Lt", "__le__": "LtE", "__gt__": "Gt", "__ge__": "GtE"}[name], base, args[0])
    if name == "__neg__":
        return unary(I, st, "USub", base)
    if name == "__abs__":
        return absolute(I, st, base)
    if name in ("__float__",):
        return to_number(I, st, "float", [base], {})
    if name in ("__int__", "__trunc__"):
        return to_number(I, st, "int", [base], {})
    if name in ("__repr__", "__str__"):
        return [(st, num_text("str", base))] if isinstance(base, Num) else to_str(I, st, base)
    if name == "__hash__":
        return [(st, Opaque("any", ("hash", Num(base.r, "f") if isinstance(base, Num) else base)))]
    if name == "__round__":
        return call_builtin(I, st, "round", [base] + list(args), {})
    if name == "__format__":
        return call_builtin(I, st, "format", [base] + list(args), {})
    if name == "__bool__":
        return [(s, B(b)) for s, b in I.truth(st, base)]
    if name in ("bit_length", "hex", "as_integer_ratio", "to_bytes"):
        return [(st, I.fresh("num." + name))]
    return [(st, I.fresh("num." + name))]


def list_method(I, st, recv, name, args, kw):
    o = st.o(recv)
    if name == "append":
        st.w(recv).items.append(args[0])
        return [(st, NONE)]
    if name in ("extend", "__iadd__", "__init__"):
        out = []
        for s, items in iterate(I, st, args[0]) if args else [(st, [])]:
            if isinstance(items, Raise):
                out.append((s, items))
                continue
            if isinstance(items, OSeq):
                I.note("list.extend with unknown sequence")
                out.append((s, NONE))
                continue
            if name == "__init__":
                s.w(recv).items[:] = list(items)
            else:
                s.w(recv).items.extend(items)
            out.append((s, recv if name == "__iadd__" else NONE))
        return out
    if name == "insert":
        i = const_index(args[0])
        if i is None:
            I.note("insert at unknown index")
            return [(st, NONE)]
        st.w(recv).items.insert(i, args[1])
        return [(st, NONE)]
    if name == "pop":
        i = const_index(args[0]) if args else -1
        if i is None:
            I.note("pop at unknown index")
            return [(st, I.fresh("pop"))]
        if not (-len(o.items) <= i < len(o.items)):
            return I.throws(st, "IndexError", "pop index out of range")
        return [(st, st.w(recv).items.pop(i))]
    if name in ("remove", "index", "count", "__contains__"):
        start = const_index(args[1]) if len(args) > 1 else 0
        live, out = [(st, 0)], []
        for i, x in enumerate(o.items):
            if name == "index" and i < (start or 0):
                continue
            nx = []
            for s, cnt in live:
                if isinstance(x, Ref) and x == args[0]:
                    rs = [(s, True)]
                else:
                    rs = []
                    for s2, v in eq(I, s, x, args[0]):
                        rs.extend([(s2, v)] if isinstance(v, Raise) else I.truth(s2, v))
                for s3, b in rs:
                    if isinstance(b, Raise):
                        out.append((s3, b))
                    elif not b:
                        nx.append((s3, cnt))
                    elif name == "count":
                        nx.append((s3, cnt + 1))
                    elif name == "index":
                        out.append((s3, num(i)))
                    elif name == "__contains__":
                        out.append((s3, TRUE))
                    else:
                        del s3.w(recv).items[i]
                        out.append((s3, NONE))
            live = nx
        for s, cnt in live:
            if name == "count":
                out.append((s, num(cnt)))
            elif name == "__contains__":
                out.append((s, FALSE))
            else:
                out.append((s, I.exc("ValueError", "list.%s: x not in list" % name)))
        return out
    if name == "reverse":
        st.w(recv).items.reverse()
        return [(st, NONE)]
    if name == "clear":
        st.w(recv).items.clear()
        return [(st, NONE)]
    if name == "copy":
        return [(st, st.list(o.items))]
    if name == "sort":
        out = []
        for s, l in sorted_(I, st, [st.list(o.items)], kw):
            if isinstance(l, Raise):
                out.append((s, l))
            else:
                s.w(recv).items[:] = s.o(l).items
                out.append((s, NONE))
        return out
    if name == "__len__":
        return [(st, num(len(o.items)))]
    if name == "__iter__":
        return [(st, st.alloc(Obj("iter", BuiltinClass("iter"), {"pos": num(0)}, list(o.items))))]
    if name == "__reversed__":
        return [(st, st.alloc(Obj("iter", BuiltinClass("reversed"), {"pos": num(0)}, list(reversed(o.items)))))]
    if name == "__getitem__":
        k = args[0]
        i = const_index(k)
        if i is not None:
            if -len(o.items) <= i < len(o.items):
                return [(st, o.items[i])]
            return I.throws(st, "IndexError", "list index out of range")
        if isinstance(k, SliceV) and slice_of(k) is not None:
            return [(st, st.list(o.items[slice_of(k)]))]
        return [(st, I.fresh("item"))]
    if name == "__setitem__":
        i = const_index(args[0])
        if i is not None and -len(o.items) <= i < len(o.items):
            st.w(recv).items[i] = args[1]
        return [(st, NONE)]
    if name == "__delitem__":
        i = const_index(args[0])
        if i is not None and -len(o.items) <= i < len(o.items):
            del st.w(recv).items[i]
        return [(st, NONE)]
    if name == "__eq__" or name == "__ne__":
        if listy(st, args[0]):
            rs = seq_eq(I, st, o.items, st.o(args[0]).items)
            if name == "__eq__":
                return rs
            return [(s, v if isinstance(v, Raise) else I.notv(v)) for s, v in rs]
        return [(st, NOTIMPL)]
    if name == "__add__":
        if listy(st, args[0]):
            return [(st, st.list(o.items + st.o(args[0]).items))]
        return [(st, NOTIMPL)]
    if name in ("__repr__", "__str__"):
        return to_repr(I, st, st.list(o.items))
    return [(st, I.fresh("list." + name))]


def dict_method(I, st, recv, name, args, kw):
    o = st.o(recv)
    if name == "get":
        return dict_get(I, st, recv, args[0], args[1] if len(args) > 1 else kw.get("default", NONE), True)
    if name == "setdefault":
        out = []
        dflt = args[1] if len(args) > 1 else NONE
        for s, v in contains(I, st, recv, args[0]):
            for s2, b in I.truth(s, v):
                if b:
                    out.extend(dict_get(I, s2, recv, args[0], None))
                else:
                    s2.w(recv).items[hkey(args[0])] = (args[0], dflt)
                    out.append((s2, dflt))
        return out
    if name in ("keys", "values", "items"):
        if o.fields.get("open"):
            k = ("open", o.fields["open"], name)
            if name == "items":
                et = o.fields.get("elem", "any")
                return [(st, OSeq(k, ("tuple", ("str", et))))]
            return [(st, OSeq(k, "str" if name == "keys" else o.fields.get("elem", "any")))]
        if name == "keys":
            return [(st, Tup(tuple(k for k, _ in o.items.values())))]
        if name == "values":
            return [(st, Tup(tuple(v for _, v in o.items.values())))]
        return [(st, Tup(tuple(Tup((k, v)) for k, v in o.items.values())))]
    if name == "update":
        out = []
        if args:
            a = args[0]
            if isinstance(a, Ref) and st.o(a).kind == "dict":
                w = st.w(recv)
                for k, kv in st.o(a).items.items():
                    w.items[k] = kv
                if st.o(a).fields.get("open"):
                    w.fields["open"] = (w.fields.get("open"), st.o(a).fields["open"]) if w.fields.get("open") else st.o(a).fields["open"]
                    if "elem" in st.o(a).fields:
                        w.fields["elem"] = st.o(a).fields["elem"]
            elif isinstance(a, Opaque):
                st.w(recv).fields["open"] = a.key
            else:
                for s, items in iterate(I, st, a):
                    if isinstance(items, Raise):
                        out.append((s, items))
                        continue
                    if isinstance(items, OSeq):
                        s.w(recv).fields["open"] = items.key
                        out.append((s, NONE))
                        continue
                    for it in items:
                        for s2, p in iterate(I, s, it, need=2):
                            s = s2
                            if not isinstance(p, Raise):
                                s.w(recv).items[hkey(p[0])] = (p[0], p[1])
                    out.append((s, NONE))
                return out
        for k, v in kw.items():
            if k == "**":
                st.w(recv).fields["open"] = v.key if isinstance(v, Opaque) else st.o(v).fields.get("open")
            else:
                st.w(recv).items[hkey(Const(k))] = (Const(k), v)
        return [(st, NONE)]
    if name == "pop":
        if hkey(args[0]) in o.items:
            return [(st, st.w(recv).items.pop(hkey(args[0]))[1])]
        if o.fields.get("open"):
            return dict_get(I, st, recv, args[0], args[1] if len(args) > 1 else None, len(args) > 1)
        if len(args) > 1:
            return [(st, args[1])]
        return I.throws(st, "KeyError", repr(args[0]))
    if name == "copy":
        n = o.clone()
        return [(st, st.alloc(n))]
    if name == "clear":
        w = st.w(recv)
        w.items.clear()
        w.fields.pop("open", None)
        return [(st, NONE)]
    if name == "__contains__":
        return contains(I, st, recv, args[0])
    if name == "__getitem__":
        return dict_get(I, st, recv, args[0], None)
    if name == "__setitem__":
        st.w(recv).items[hkey(args[0])] = (args[0], args[1])
        return [(st, NONE)]
    if name == "__len__":
        return length(I, st, recv)
    if name == "__iter__":
        return call_builtin(I, st, "iter", [recv], {})
    if name == "popitem":
        if o.items:
            k = list(o.items)[-1]
            kv = st.w(recv).items.pop(k)
            return [(st, Tup(kv))]
        return I.throws(st, "KeyError", "empty")
    if name == "__eq__":
        return builtin_eq(I, st, recv, args[0])
    return [(st, I.fresh("dict." + name))]


def set_method(I, st, recv, name, args, kw):
    if name == "add":
        st.w(recv).items[hkey(args[0])] = (args[0], TRUE)
        return [(st, NONE)]
    if name in ("discard", "remove"):
        k = hkey(args[0])
        if k in st.o(recv).items:
            del st.w(recv).items[k]
            return [(st, NONE)]
        if name == "remove":
            return I.throws(st, "KeyError", "remove")
        return [(st, NONE)]
    if name == "__contains__":
        return contains(I, st, recv, args[0])
    if name == "copy":
        return [(st, st.alloc(st.o(recv).clone()))]
    if name in ("update", "union", "issubset", "issuperset", "intersection", "difference"):
        out = []
        for s, items in iterate(I, st, args[0]):
            if isinstance(items, (Raise, OSeq)):
                out.append((s, items if isinstance(items, Raise) else I.fresh("set")))
                continue
            ks = {hkey(x): (x, TRUE) for x in items}
            o = s.o(recv)
            if name == "update":
                s.w(recv).items.update(ks)
                out.append((s, NONE))
            elif name == "union":
                d = dict(o.items)
                d.update(ks)
                out.append((s, s.alloc(Obj("set", SET, {}, d))))
            elif name == "issubset":
                out.append((s, B(set(o.items) <= set(ks))))
            elif name == "issuperset":
                out.append((s, B(set(o.items) >= set(ks))))
            elif name == "intersection":
                out.append((s, s.alloc(Obj("set", SET, {}, {k: v for k, v in o.items.items() if k in ks}))))
            else:
                out.append((s, s.alloc(Obj("set", SET, {}, {k: v for k, v in o.items.items() if k not in ks}))))
        return out
    if name == "__len__":
        return [(st, num(len(st.o(recv).items)))]
    return [(st, I.fresh("set." + name))]
