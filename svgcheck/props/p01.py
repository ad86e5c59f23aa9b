"""P01: third-party packages are optional.  Over the syntax trees: every import of a module that is
neither the package's nor the standard library's is guarded in place, or every way to its function
is guarded at a call; names only such an import binds are not used on the path where it failed; all
standard names exist.  Over the paths: the obligations of other properties, and the path methods
that prefer a third-party package, interpreted with every third-party module absent, never end in an
import error or an unbound name."""
import ast
import builtins
import importlib
import re

from ..names import *
from ..names import May
from ..objects import *
from .p02 import import_exists, Spy as Base

WANT = ("ImportError", "ModuleNotFoundError", "Exception", "BaseException")
NAMES = ("NameError", "UnboundLocalError")


def third(prog, m):
    """(node, top-level name) of each import of a third-party module, dynamic ones included"""
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            if isinstance(n, ast.ImportFrom):
                src = prog.source_of(m, n)
                if src[0] == "third":
                    yield n, src[1].split(".")[0]
            else:
                for a in n.names:
                    if prog.module_ref(a.name)[0] == "third":
                        yield n, a.name.split(".")[0]
        elif isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            f = n.func
            if getattr(f, "id", getattr(f, "attr", None)) in ("__import__", "import_module"):
                top = n.args[0].value.split(".")[0]
                if top and prog.module_ref(top)[0] == "third":
                    yield n, top


def owner(n):
    p = getattr(n, "_parent", None)
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        p = getattr(p, "_parent", None)
    return p


def tests_before(n, top):
    """the tests that decide whether n is executed (within its function or module): those it stands
    under and those of earlier exits; None stands for a decision that is not a plain test"""
    child, p, out = n, getattr(n, "_parent", None), []
    while p is not None:
        if isinstance(p, (ast.If, ast.While, ast.IfExp)) and child is not p.test:
            out.append(p.test)
        if isinstance(p, ast.BoolOp) and child is not p.values[0]:
            out += p.values[: p.values.index(child)]
        if isinstance(p, (ast.For, ast.comprehension)) and child is not p.iter:
            out.append(p.iter)
        if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and child is not p.generators[0]:
            for g in p.generators:
                out += [g.iter] + g.ifs
        if isinstance(p, ast.ExceptHandler):
            out.append(None)
        if isinstance(p, ast.Try) and (child in p.orelse or child in p.handlers):
            out.append(None)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(p, f, None)
            if isinstance(b, list) and child in b:
                for s in b[: b.index(child)]:
                    for x in inner_statements(s):
                        if isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                            out += tests_before(x, p) or [None]
        if p is top:
            return out
        child, p = p, getattr(p, "_parent", None)
    return out


def inner_statements(s):
    yield s
    for c in ast.iter_child_nodes(s):
        if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            yield from inner_statements(c)


def conditional(n, top, prog=None, f=None):
    """is n executed only under a test that could ask whether a package is there: any test but those
    over the function's parameters and values made of them"""
    ts = tests_before(n, top)
    if f is None:
        return bool(ts)
    a = f.node.args
    known = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    grown = True
    while grown:
        grown = False
        for x in inner(f.node):
            if isinstance(x, ast.Assign) and plain(prog, f, x.value, known):
                for t in x.targets:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name) and y.id not in known and all(plain(prog, f, z.value, known) for z in inner(f.node) if isinstance(z, ast.Assign) and any(isinstance(w, ast.Name) and w.id == y.id for t2 in z.targets for w in ast.walk(t2))):
                            if not any(isinstance(z, (ast.Import, ast.ImportFrom)) and any((q.asname or q.name) == y.id for q in z.names) for z in inner(f.node)):
                                known.add(y.id)
                                grown = True
    return any(t is None or not plain(prog, f, t, known) for t in ts)


PROBES = ("hasattr", "getattr", "type", "callable", "find_spec", "globals", "locals", "vars", "__import__", "eval", "dir")


def plain(prog, f, e, known):
    for x in ast.walk(e):
        if isinstance(x, ast.Name) and x.id not in known:
            r = prog.resolve(f.mod, x.id)
            if x.id in PROBES or not (r and r[0] in ("class", "std") or hasattr(builtins, x.id)):
                return False
        elif isinstance(x, ast.Attribute) and (x.attr.startswith("__") or x.attr in ("dtype", "shape", "ndim")):
            return False
        elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ("sys", "os", "importlib"):
            return False
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            own = [g for g in prog.fns if g.qual.split(".")[-1] == x.func.attr]
            if not own or any(isinstance(y, ast.Import) or isinstance(y, ast.ImportFrom) and prog.source_of(g.mod, y)[0] == "third" or getattr(y, "id", None) in PROBES for g in own for y in inner(g.node)):
                return False
        elif isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "len", "abs", "int", "float", "bool", "list", "tuple")):
            return False
    return True


def guarded_at(n, wanted=WANT):
    """inside a try body whose handler takes the exception and does not just raise again"""
    child, p = n, getattr(n, "_parent", None)
    while p is not None:
        if isinstance(p, ast.Try) and child in p.body:
            for h in p.handlers:
                ts = [None] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for t in ts:
                    if t is None or getattr(t, "id", getattr(t, "attr", None)) in wanted:
                        last = h.body[-1]
                        if not (isinstance(last, ast.Raise)):
                            return True
        if isinstance(p, ast.With) and child in p.body:
            for i in p.items:
                e = i.context_expr
                if isinstance(e, ast.Call) and getattr(e.func, "id", getattr(e.func, "attr", None)) == "suppress":
                    if any(getattr(a, "id", None) in wanted for a in e.args):
                        return True
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return False
        child, p = p, getattr(p, "_parent", None)
    return False


RASTER = re.compile(r"^Image\.(load\w*|to_image|\w*pil\w*)$", re.I)


def public(f):
    last = f.qual.split(".")[-1]
    return (not last.startswith("_") or (last.startswith("__") and last.endswith("__"))) and f.outer is None


def callers(prog, f):
    """call sites of a function, by name"""
    name = f.qual.split(".")[-1]
    for g in prog.fns:
        for n in inner(g.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id == name and f.cls is None:
                    yield g, n
                elif isinstance(n.func, ast.Attribute) and n.func.attr == name:
                    if f.cls is not None or isinstance(n.func.value, ast.Name):
                        yield g, n


def needs(prog, f, sites, seen=()):
    """what reaches an unguarded need from a public function: (verdict, message)"""
    if f in seen:
        return True, ""
    verdict, msg = True, ""
    for n, why, wanted in sites:
        if guarded_at(n, wanted):
            continue
        if RASTER.match(f.qual):
            continue
        if conditional(n, f.node, prog, f):
            verdict, msg = None, "%s only under a condition" % why
            continue
        if public(f):
            return False, "%s line %d: %s" % (f.qual, n.lineno, why)
        if f.outer is not None:
            verdict, msg = None, "nested function"
            continue
        for g, call in callers(prog, f):
            r = needs(prog, g, [(call, "%s, called here, %s" % (f.qual, why), wanted)], tuple(seen) + (f,))
            if r[0] is False:
                return r
            if r[0] is None:
                verdict, msg = r
    return verdict, msg


class Absent(May):
    """definite assignment on the paths where third-party imports fail"""

    def __init__(self, f, imports):
        super().__init__(f)
        self.imports = {id(n) for n in imports}

    def stmt(self, s, st):
        if id(s) in self.imports:
            return False
        if isinstance(s, ast.Try):
            for i, x in enumerate(s.body):
                if id(x) in self.imports:
                    # the body ends here
                    t = ast.Try(body=s.body[: i + 1], handlers=s.handlers, orelse=[], finalbody=s.finalbody)
                    ast.copy_location(t, s)
                    return self.cut(t, st)
        return super().stmt(s, st)

    def cut(self, s, st):
        start = set(st)
        if self.block(s.body[:-1], st) is False:
            return False
        out, live = set(), False
        for h in s.handlers:
            ts = [None] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            if not any(t is None or getattr(t, "id", getattr(t, "attr", None)) in WANT for t in ts):
                continue
            b = set(st)
            if h.name:
                b.add(h.name)
            r = self.block(h.body, b)
            if h.name:
                b.discard(h.name)
            if r:
                out |= b
                live = True
            break
        if s.finalbody and self.block(s.finalbody, set(st) | out) is False:
            return False
        if not live:
            return False
        st.clear()
        st |= out | start
        return True


def absent_reads(f, imports):
    a = Absent(f, imports)
    a.loop_exits = [set()]
    before = dict(unbound(f))
    bad = {}
    for k, l in a.run().items():
        if k not in before:
            bad[k] = l
    return bad


def unbound(f):
    m = May(f)
    m.loop_exits = [set()]
    return m.run()


class Spy(Base):
    def __init__(self, rep, prog, name, tops):
        super().__init__(rep, prog, name)
        self.tops = tops

    def interp(self, **kw):
        I = super().interp(**kw)
        I.missing.update(self.tops)
        return I

    def dangling(self, r):
        if r.name in ("ImportError", "ModuleNotFoundError"):
            return True
        return r.name in NAMES and bool(r.where) and not str(r.where[0]).startswith("_")

    def each(self, rule, inst, fn, *a):
        if " numpy" in inst and "no numpy" not in inst:
            return
        self.note = inst

        def go():
            del self.escaped[:]
            limit = None
            try:
                fn(*a)
            except Anchor:
                raise
            except (AnalysisLimit, RecursionError) as e:
                limit = str(e)
            for s, r in self.escaped:
                if feasible(s):
                    return False, "with no third-party package ends in %s: %s%s" % (r.name, getattr(r.exc.args[0], "v", "") if r.exc.args else "", facts_note(s)), r.where
            return (True, "") if limit is None else (None, limit)
        self.rep.each("runs", "%s %s %s" % (self.name, rule, inst), go)


QUICK = ("p03", "p16", "p24", "p25", "p19", "p17")
DEEP = ("p04", "p05", "p06", "p07", "p09", "p10", "p11", "p12", "p13", "p14", "p15", "p18")


def check(rep):
    rep.rule("standard", "every module and name imported from the standard library exists in this Python (or an alternative is imported in its place)", 12)
    rep.rule("guard", "every import of a third-party module is guarded in place, or at a call on every way to it from a public function", 2)
    rep.rule("bound", "no name is read that only a failed third-party import would have bound", 100)
    rep.rule("load", "each module loads with every third-party module absent", 4)
    rep.rule("length", "lengths are computed without scipy and numpy", 6)
    rep.rule("along", "points along a path and its segments are computed without numpy", 10)
    rep.rule("runs", "the obligations of the other properties, interpreted without third-party packages, never end in an import error or an unbound name", 300)
    prog = Program()
    for m in prog.mods.values():
        link(m.tree)
    tops, sites = set(), {}
    by_node = {id(f.node): f for f in prog.fns}
    for m in prog.mods.values():
        for node, src, mod, name in imports_of(prog, m):
            if src[0] != "third" and (src[0] == "std"):
                inst = "%s imports %s" % (m.name, mod or "%s from %s" % (name, ".".join(str(x) for x in src)))
                rep.each("standard", inst, import_exists, prog, m, node, src, mod, name)
        for n, top in third(prog, m):
            tops.add(top)
            f = by_node.get(id(owner(n))) if owner(n) is not None else None
            where = "%s.%s" % (m.name, f.qual if f else "(module)")
            sites.setdefault((m.name, f), []).append(n)

            def guard(m=m, n=n, f=f, top=top):
                if guarded_at(n):
                    return True, ""
                if f is None:
                    return (None, "under a condition") if conditional(n, m.tree) else (False, "module %s imports %s unconditionally" % (m.name, top), "%s.py line %d" % (m.name, n.lineno))
                r = needs(prog, f, [(n, "imports %s without a guard" % top, WANT)])
                return r + ("%s.py line %d" % (m.name, n.lineno),)
            rep.each("guard", "%s imports %s" % (where, top), guard)
    # module names that only a third-party import binds
    lost = {}
    for m in prog.mods.values():
        ims = [n for (mn, f), ns in sites.items() if mn == m.name and f is None for n in ns]
        ids = {id(n) for n in ims}
        bound, other = set(), set()
        for n in ast.walk(m.tree):
            if owner(n) is not None or isinstance(n, ast.Lambda):
                continue
            if id(n) in ids:
                bound |= {(a.asname or a.name.split(".")[0]) for a in getattr(n, "names", [])}
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                other |= {a.asname or a.name.split(".")[0] for a in n.names}
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                other.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                other.add(n.name)
        lost[m.name] = bound - other
    for f in prog.fns:
        ns = sites.get((f.mod.name, f), [])
        bad = absent_reads(f, ns) if ns else {}
        inst = "%s.%s" % (f.mod.name, f.qual)
        reads = []
        gone = lost[f.mod.name]
        if gone:
            own = May(f).locals
            reads = [(n, "uses %s, which only a third-party import binds" % n.id, NAMES + WANT) for n in inner(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in gone and n.id not in own]

        def ok(f=f, bad=bad, reads=reads):
            for k, l in bad.items():
                return False, "%s reads %s although its import failed" % (f.qual, k), "%s.py line %d" % (f.mod.name, l)
            if reads:
                return needs(prog, f, reads) + ("%s.py" % f.mod.name,)
            return True, ""
        rep.each("bound", inst, ok)

    tops |= {"numpy", "scipy", "PIL"}

    def interp():
        I = ops(rep.interp())
        I.missing.update(tops)
        return I

    for m in sorted(prog.mods):
        def load(m=m):
            I = rep.interp()
            I.missing.update(tops)
            try:
                I.load_module(I.start(), m)
            except Anchor as e:
                return (False, str(e)) if "ImportError" in str(e) else (None, str(e))
            return True
        rep.each("load", m, load)

    def judge(rs):
        res = True, ""
        for s, v in rs:
            if isinstance(v, Raise) and v.name in ("ImportError", "ModuleNotFoundError") + NAMES:
                if feasible(s):
                    return False, "with no third-party package ends in %s: %s" % (v.name, getattr(v.exc.args[0], "v", "") if v.exc.args else ""), v.where
        return res
    I = interp()
    # the recursive subdivision stands for some number
    stubs = {k: (lambda I, st, a, kw: [(st, sym("subdivided"))]) for k in ("path.PathSegment.segment_length", "path.Curve.segment_length")}
    for kind in ("Line", "Close", "QuadraticBezier", "CubicBezier", "Arc", "Move"):
        def length(kind=kind):
            I.hooks.update(stubs)
            try:
                s, g, parts = segment(I, I.start(), kind)
                return judge(method(I, s, g, "length"))
            finally:
                for k in stubs:
                    I.hooks.pop(k, None)
        rep.each("length", kind, length)
        for what, args in (("npoint", 1), ("point", 0)):
            def along(kind=kind, what=what, args=args):
                s, g, parts = segment(I, I.start(), kind)
                t = sym("t")
                s.facts[Poly.of(atom("t"))] = Interval(Fraction(0), Fraction(1), False, False)
                return judge(method(I, s, g, what, s.list([t]) if args else t))
            rep.each("along", "%s %s" % (kind, what), along)
    for what in ("npoint", "point", "length", "as_points"):
        def path(what=what):
            s, p = path_of(I, I.start(), chain(("Move", "Line", "Close")))
            if what == "as_points":
                return judge(method(I, s, p, what))
            if what == "length":
                return judge(method(I, s, p, what))
            t = sym("t")
            s.facts[Poly.of(atom("t"))] = Interval(Fraction(0), Fraction(1), False, False)
            return judge(method(I, s, p, what, s.list([t]) if what == "npoint" else t))
        rep.each("length" if what == "length" else "along", "Path %s" % what, path)
    for n in QUICK + (DEEP if rep.thorough else ()):
        importlib.import_module("svgcheck.props." + n).check(Spy(rep, prog, n.upper(), tops))
    rep.facts["third-party modules"] = sorted(tops)
