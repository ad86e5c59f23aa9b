"""A model of the part of numpy that array code over short, known-length arrays needs.
Arrays are Obj kind 'nd' with `items` (rows are nested arrays); truth values in masks are decided,
one partition per combination."""
from .values import *
from .sym import *


def M():
    from . import models
    return models


def is_nd(st, v):
    return isinstance(v, Ref) and st.o(v).kind == "nd"


def make(st, xs):
    return st.alloc(Obj("nd", BuiltinClass("ndarray"), {}, list(xs)))


def deep(I, st, v):
    """nested lists and tuples -> nested arrays (None when the shape is unknown)"""
    v = I.resolve(st, v)
    if is_nd(st, v):
        return make(st, [deep(I, st, x) for x in st.o(v).items])
    if isinstance(v, Tup):
        xs = list(v.items)
    elif isinstance(v, Ref) and st.o(v).kind == "list":
        xs = list(st.o(v).items)
    elif isinstance(v, (Num, Const, BoolV)):
        return v
    else:
        return None
    xs = [deep(I, st, x) for x in xs]
    if any(x is None for x in xs):
        return None
    return make(st, xs)


def rows_of(I, st, v):
    """values assigned to a row or region, as a nested python list of abstract values"""
    v = I.resolve(st, v)
    if is_nd(st, v) or isinstance(v, Ref) and st.o(v).items is not None and isinstance(st.o(v).items, list) and st.o(v).kind == "list":
        return [rows_of(I, st, x) for x in st.o(v).items]
    if isinstance(v, Tup):
        return [rows_of(I, st, x) for x in v.items]
    if isinstance(v, Ref):
        rs = M().iterate(I, st, v)
        if len(rs) == 1 and isinstance(rs[0][1], (list, tuple)):
            return [rows_of(I, rs[0][0], x) for x in rs[0][1]]
        return None
    return v


def shape(x):
    out = []
    while isinstance(x, list):
        out.append(len(x))
        if not x:
            break
        x = x[0]
    return out


def compare(I, st, op, l, r):
    """elementwise comparison, each truth value decided"""
    li = st.o(l).items if is_nd(st, l) else None
    ri = st.o(r).items if is_nd(st, r) else None
    if li is not None and ri is not None:
        if len(li) == 1:
            li = li * len(ri)
        elif len(ri) == 1:
            ri = ri * len(li)
        if len(li) != len(ri):
            return I.throws(st, "ValueError", "operands could not be broadcast")
        pairs = list(zip(li, ri))
    elif li is not None:
        pairs = [(x, r) for x in li]
    else:
        pairs = [(l, x) for x in ri]
    cur = [(st, [])]
    for a, b in pairs:
        nxt = []
        for s, acc in cur:
            if isinstance(acc, Raise):
                nxt.append((s, acc))
                continue
            for s2, v in M().compare(I, s, op, a, b):
                if isinstance(v, Raise):
                    nxt.append((s2, v))
                    continue
                if is_nd(s2, v):
                    nxt.append((s2, acc + [v]))
                    continue
                for s3, t in I.truth(s2, v):
                    nxt.append((s3, t if isinstance(t, Raise) else acc + [Const(bool(t))]))
        cur = nxt
    return [(s, a if isinstance(a, Raise) else make(s, a)) for s, a in cur]


def mask_of(I, st, k):
    k = I.resolve(st, k)
    if is_nd(st, k):
        xs = [I.resolve(st, x) for x in st.o(k).items]
        if xs and all(isinstance(x, Const) and isinstance(x.v, bool) for x in xs):
            return [x.v for x in xs]
    return None


def select(I, st, k, n):
    """positions chosen by one index: (positions, keeps_dimension) or None"""
    m = M()
    k = I.resolve(st, k)
    if isinstance(k, SliceV):
        sl = m.slice_of(k)
        return (list(range(n))[sl], True) if sl is not None else None
    i = m.const_index(k)
    if i is not None:
        if -n <= i < n:
            return [i % n], False
        return "out", False
    mk = mask_of(I, st, k)
    if mk is not None:
        if len(mk) != n:
            return "out", False
        return [j for j, b in enumerate(mk) if b], True
    if is_nd(st, k) and not st.o(k).items:
        return [], True
    return None


def getitem(I, st, o, k):
    ks = list(k.items) if isinstance(k, Tup) else [k]

    def go(v, ks):
        if not ks:
            return v
        if not is_nd(st, v):
            return "out"
        xs = st.o(v).items
        p = select(I, st, ks[0], len(xs))
        if p is None or p[0] == "out":
            return p if p is None else "out"
        if not p[1]:
            return go(xs[p[0][0]], ks[1:])
        sub = [go(xs[j], ks[1:]) for j in p[0]]
        if any(x is None for x in sub):
            return None
        if any(isinstance(x, str) for x in sub):
            return "out"
        return make(st, sub)
    r = go(o, ks)
    if r is None:
        I.note("numpy item")
        return [(st, I.fresh("nd"))]
    if isinstance(r, str):
        return I.throws(st, "IndexError", "index out of bounds of an array")
    return [(st, r)]


def setitem(I, st, o, k, v):
    ks = list(k.items) if isinstance(k, Tup) else [k]
    new = rows_of(I, st, v)
    if new is None:
        I.note("numpy store of unknown")
        return [(st, None)]

    def put(o, ks, new):
        xs = st.o(o).items
        p = select(I, st, ks[0], len(xs)) if ks else (list(range(len(xs))), True)
        if p is None or p[0] == "out":
            return p
        pos, dim = p
        rest = ks[1:] if ks else []
        if not dim:
            j = pos[0]
            if is_nd(st, xs[j]):
                return put(xs[j], rest, new)
            if isinstance(new, list):
                if len(new) == 1 and not isinstance(new[0], list):
                    new = new[0]
                else:
                    return "bad", False
            st.w(o).items[j] = new
            return True
        # depth of the region below this dimension decides how values are spread
        below = depth(xs[pos[0] if pos else 0], rest) if xs else 0
        if isinstance(new, list) and len(shape(new)) == below + 1:
            if len(new) == 1:
                new = new * len(pos)
            if len(new) != len(pos):
                return "bad", False
            vals = new
        else:
            vals = [new] * len(pos)
        for j, x in zip(pos, vals):
            if is_nd(st, st.o(o).items[j]):
                r = put(st.o(o).items[j], rest, x)
                if r is not True:
                    return r
            else:
                if isinstance(x, list):
                    if len(x) != 1:
                        return "bad", False
                    x = x[0]
                st.w(o).items[j] = x
        return True

    def depth(v, ks):
        """dimensions of the region inside v"""
        if not is_nd(st, v):
            return 0
        xs = st.o(v).items
        p = select(I, st, ks[0], len(xs)) if ks else (list(range(len(xs))), True)
        if p is None or p[0] == "out" or not xs:
            return 0
        return (1 if p[1] else 0) + depth(xs[0], ks[1:] if ks else [])
    r = put(o, ks, new)
    if r is None:
        I.note("numpy store")
        return [(st, None)]
    if r is not True:
        return I.throws(st, "ValueError" if r[0] == "bad" else "IndexError", "array store does not fit")
    return [(st, None)]


# attributes of numpy.ndarray
ATTRS = set("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate
copy ctypes cumprod cumsum data device diagonal dot dtype dump dumps fill flags flat flatten getfield imag item
itemset itemsize mT max mean min nbytes ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape
resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device tobytes
tofile tolist tostring trace transpose var view __len__ __iter__ __getitem__ __setitem__ __array__ __eq__ __ne__
__add__ __mul__ __class__ __doc__ __contains__ __lt__ __le__ __gt__ __ge__""".split())
CONSTANTS = {"pi": True, "nan": True, "inf": True, "e": True}
MATH = {"cos", "sin", "tan", "sqrt", "exp", "log", "radians", "degrees", "hypot", "floor", "ceil"}
ALIAS = {"arctan2": "atan2", "arctan": "atan", "arccos": "acos", "arcsin": "asin", "deg2rad": "radians", "rad2deg": "degrees"}


def dims(I, st, v):
    m = M()
    v = I.resolve(st, v)
    i = m.const_index(v)
    if i is not None:
        return [i]
    if isinstance(v, Tup):
        xs = [m.const_index(I.resolve(st, x)) for x in v.items]
        return xs if all(x is not None for x in xs) else None
    return None


def filled(st, ds, val):
    if not ds:
        return val() if callable(val) else val
    return make(st, [filled(st, ds[1:], val) for _ in range(ds[0])])


def each(I, st, fn, xs):
    """apply fn(s, x) -> outcomes to every leaf"""
    cur = [(st, [])]
    for x in xs:
        nxt = []
        for s, acc in cur:
            if isinstance(acc, Raise):
                nxt.append((s, acc))
                continue
            for s2, v in (map_nd(I, s, fn, x) if is_nd(s, x) else fn(s, x)):
                nxt.append((s2, v if isinstance(v, Raise) else acc + [v]))
        cur = nxt
    return cur


def map_nd(I, st, fn, x):
    return [(s, a if isinstance(a, Raise) else make(s, a)) for s, a in each(I, st, fn, st.o(x).items)]


def numpy(I, st, name, args=None, kw=None):
    m = M()
    if args is None:
        if name in CONSTANTS:
            return m.module_attr_value("math", name, I, st) if hasattr(m, "module_attr_value") else Builtin("math." + name)
        if name == "newaxis":
            return NONE
        if name == "ndarray":
            return BuiltinClass("ndarray")
        if name in ("float64", "float", "double", "float_"):
            return BuiltinClass("float")
        return Builtin("numpy." + name)
    if name in ALIAS or name in MATH:
        f = ALIAS.get(name, name)
        x = I.resolve(st, args[0])
        if is_nd(st, x) and len(args) == 1:
            return map_nd(I, st, lambda s, y: m.call_builtin(I, s, "math." + f, [y], {}), x)
        if isinstance(x, Ref) or isinstance(x, Tup):
            y = deep(I, st, x)
            if y is not None and is_nd(st, y):
                return map_nd(I, st, lambda s, z: m.call_builtin(I, s, "math." + f, [z], {}), y)
        return m.call_builtin(I, st, "math." + f, list(args), {})
    if name in ("array", "asarray", "asfarray", "atleast_1d", "ascontiguousarray"):
        x = deep(I, st, args[0])
        if x is None:
            return [(st, I.fresh("nd"))]
        if name == "atleast_1d" and not is_nd(st, x):
            x = make(st, [x])
        return [(st, x)]
    if name in ("empty", "zeros", "ones", "full"):
        d = dims(I, st, kw.get("shape", args[0] if args else NONE))
        if d is None:
            return [(st, I.fresh("nd"))]
        if name == "empty":
            val = lambda: I.fresh("uninitialised")
        elif name == "full":
            val = args[1]
        else:
            val = Num(R(1 if name == "ones" else 0), "f")
        return [(st, filled(st, d, val))]
    if name in ("empty_like", "zeros_like", "ones_like"):
        x = deep(I, st, args[0])
        if x is None or not is_nd(st, x):
            return [(st, I.fresh("nd"))]
        v = I.fresh("uninitialised") if name == "empty_like" else Num(R(1 if name == "ones_like" else 0), "f")
        return [(st, map_nd(I, st, lambda s, y: [(s, v)], x)[0][1])]
    if name in ("column_stack", "stack", "vstack", "transpose", "hstack", "concatenate"):
        x = rows_of(I, st, args[0])
        ax = m.const_index(kw.get("axis", args[1] if len(args) > 1 else num(0)))
        if not isinstance(x, list) or not x:
            return [(st, I.fresh("nd"))]
        if name in ("hstack", "concatenate") and all(isinstance(r, list) for r in x):
            return [(st, build(st, [y for r in x for y in r]))]
        if name in ("column_stack", "transpose") or name == "stack" and ax in (1, -1):
            if any(not isinstance(r, list) or len(r) != len(x[0]) for r in x):
                return [(st, I.fresh("nd"))]
            return [(st, build(st, [list(c) for c in zip(*x)]))]
        if name in ("stack", "vstack"):
            return [(st, build(st, x))]
    if name == "interp":
        xp, fp = rows_of(I, st, args[1]), rows_of(I, st, args[2])
        x = deep(I, st, args[0])
        if x is None or not isinstance(xp, list) or not isinstance(fp, list) or len(xp) != len(fp) or len(xp) < 1:
            return [(st, I.fresh("nd"))]
        xs, ys = [m.as_num(v) for v in xp], [m.as_num(v) for v in fp]
        if any(v is None for v in xs + ys):
            return [(st, I.fresh("nd"))]
        one = lambda s, t: interp1(I, s, t, xs, ys)
        return map_nd(I, st, one, x) if is_nd(st, x) else one(st, x)
    if name == "linspace":
        a, b = m.as_num(args[0]), m.as_num(args[1])
        n = m.const_index(kw.get("num", args[2] if len(args) > 2 else num(50)))
        if a is not None and b is not None and n is not None and n > 1:
            return [(st, make(st, [Num(a.r + (b.r - a.r) * R(Fraction(k, n - 1)), "f") for k in range(n)]))]
    if name in ("where",) and len(args) == 3:
        mk = mask_of(I, st, args[0])
        if mk is not None:
            def at(v, j):
                return st.o(v).items[j] if is_nd(st, v) else v
            return [(st, make(st, [at(args[1] if b else args[2], j) for j, b in enumerate(mk)]))]
    if name in ("abs", "absolute", "fabs"):
        return m.absolute(I, st, args[0])
    if name in ("power", "multiply", "add", "subtract", "divide", "true_divide"):
        o = {"power": "Pow", "multiply": "Mult", "add": "Add", "subtract": "Sub"}.get(name, "Div")
        return m.binop(I, st, o, args[0], args[1])
    if name in ("isscalar",):
        return [(st, Const(not isinstance(args[0], Ref)))]
    if name.startswith("ndarray."):
        f = name[8:]
        recv = args[0]
        if f == "tolist":
            return [(st, tolist(st, recv))]
        if f in ("copy", "astype"):
            return [(st, deep(I, st, recv))]
        if f in ("__getitem__",):
            return getitem(I, st, recv, args[1])
    I.note("numpy." + name)
    return [(st, I.fresh("numpy." + name))]


def tolist(st, v):
    if is_nd(st, v):
        return st.list([tolist(st, x) for x in st.o(v).items])
    return v


def build(st, x):
    return make(st, [build(st, y) for y in x]) if isinstance(x, list) else x


def interp1(I, st, t, xs, ys):
    m = M()
    t = m.as_num(t)
    if t is None:
        return [(st, I.fresh("interp"))]
    out = []
    live = st
    n = len(xs)
    cands = [(("le", t.r - xs[0].r), ys[0])]
    for k in range(1, n):
        d = xs[k].r - xs[k - 1].r
        cands.append((("lt", t.r - xs[k].r), Num(ys[k - 1].r + (t.r - xs[k - 1].r) / d * (ys[k].r - ys[k - 1].r), "f")))
    for c, v in cands:
        a = live.fork()
        if a.assume(c, True):
            out.append((a, v))
        live = live.fork()
        if not live.assume(c, False):
            return out
    out.append((live, ys[-1]))
    return out
