"""Resolution of names and members over the syntax trees of the package (nothing is imported from it).

Program    modules, classes (with linearised bases), functions
checks     yield (function, name, message, line) for references that resolve to nothing
"""
import ast
import builtins
import importlib
import io
import os
import re
import symtable
import sys

REPO = os.environ.get("SVGIO_ROOT", "/repo")
PKG = "svgio"
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__class__", "__package__", "__path__", "__spec__", "__loader__", "__builtins__", "__module__", "__qualname__", "__annotations__"}
STD = set(sys.stdlib_module_names)
DIRS = {"str": str, "int": int, "float": float, "list": list, "tuple": tuple, "dict": dict, "complex": complex, "set": set, "frozenset": frozenset, "bool": bool, "bytes": bytes, "object": object}
VALUES = [str, int, float, list, tuple, dict, complex, set, frozenset, bool, bytes, range, type, type(lambda: 0), type((i for i in ())), re.Pattern, re.Match, io.TextIOWrapper, io.BytesIO, io.StringIO, BaseException, OSError, ImportError, UnicodeError, slice, property, memoryview, bytearray]
ARRAY = set("T real imag shape size ndim dtype reshape transpose astype item tolist ravel flatten copy sum min max dot any all mean cumsum argmin argmax sort argsort conj fill nonzero prod round std squeeze swapaxes take".split())


class Fn:
    def __init__(self, mod, cls, node, qual, outer=None):
        self.mod, self.cls, self.node, self.qual, self.outer = mod, cls, node, qual, outer


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.members = {}  # name -> kind
        self.bases = []  # Cls or python type or None (unknown)
        self.stores = {}  # attribute -> [Fn]
        self.subs = []

    def mro(self):
        """linearisation good enough for lookups: depth first, a base after all its subclasses"""
        seqs = []
        for b in self.bases:
            if isinstance(b, Cls):
                seqs.append(list(b.mro()))
            else:
                seqs.append([b])
        seqs.append(list(self.bases))
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                while c in s:
                    s.remove(c)

    def lookup(self, name):
        """('own', Cls, kind) / ('ext', type) / None; unknown bases answer ('any',)"""
        for c in self.mro():
            if c is None:
                return ("any",)
            if isinstance(c, Cls):
                if name in c.members:
                    return ("own", c, c.members[name])
            elif hasattr(c, name):
                return ("ext", c)
        if hasattr(object, name):
            return ("ext", object)
        return None

    def dynamic(self):
        return any(c is None for c in self.mro())


class Mod:
    def __init__(self, prog, name, path):
        self.prog, self.name, self.path = prog, name, path
        src = open(path, "rb").read()
        self.tree = ast.parse(src)
        text = src.decode("utf-8", "replace")
        # the first line may declare another encoding, irrelevant for scopes
        self.sym = symtable.symtable(re.sub(r"^#.*coding.*$", "#", text, count=1, flags=re.M), path, "exec")
        self.globals = {}  # name -> ("class", Cls) ("func",) ("mod", Mod) ("std", module name, attr) ("third",) ("value", node)
        self.stars = []
        self.all = None


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        d = os.path.join(self.root, PKG)
        self.mods = {}
        self.fns = []
        self.classes = []
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                n = f[:-3]
                self.mods[n] = Mod(self, n, os.path.join(d, f))
        for m in self.mods.values():
            self.collect(m)
        for m in self.mods.values():
            self.resolve_stars(m, set())
        for c in self.classes:
            for b in c.node.bases:
                r = self.resolve_expr(c.mod, b)
                if r and r[0] == "class":
                    c.bases.append(r[1])
                    r[1].subs.append(c)
                elif r and r[0] == "std":
                    c.bases.append(std_value(r[1], r[2]))
                elif isinstance(b, ast.Name) and b.id in DIRS:
                    c.bases.append(DIRS[b.id])
                elif isinstance(b, ast.Name) and hasattr(builtins, b.id):
                    c.bases.append(getattr(builtins, b.id))
                else:
                    c.bases.append(None)
        self.ext_stores = set()
        self.instantiated = set()
        self.scan()

    def by_name(self):
        if not hasattr(self, "_by_name"):
            self._by_name = {}
            for f in self.fns:
                self._by_name.setdefault(f.qual.split(".")[-1], []).append(f)
        return self._by_name

    def calls(self):
        if not hasattr(self, "_calls"):
            self._calls = {}
            for g in self.fns:
                for n in inner(g.node):
                    if isinstance(n, ast.Call):
                        name = getattr(n.func, "id", getattr(n.func, "attr", None))
                        self._calls.setdefault(name, []).append((g, n))
        return self._calls

    # ------------------------------------------------------------ collection
    def collect(self, m):
        def bind(name, what):
            old = m.globals.get(name)
            if old is None or old[0] == "value":
                m.globals[name] = what

        def body(stmts):
            for s in stmts:
                if isinstance(s, ast.ClassDef):
                    c = Cls(m, s)
                    m.globals[s.name] = ("class", c)
                    self.classes.append(c)
                    self.class_members(m, c)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.globals[s.name] = ("func", s)
                    self.add_fn(m, None, s, s.name)
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        n = a.asname or a.name.split(".")[0]
                        bind(n, self.module_ref(a.name if a.asname else a.name.split(".")[0]))
                elif isinstance(s, ast.ImportFrom):
                    src = self.source_of(m, s)
                    for a in s.names:
                        if a.name == "*":
                            m.stars.append(src)
                        else:
                            bind(a.asname or a.name, ("from", src, a.name))
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                m.globals.setdefault(n.id, ("value", getattr(s, "value", None)))
                                if n.id == "__all__" and isinstance(s.value, (ast.List, ast.Tuple)):
                                    m.all = [e.value for e in s.value.elts if isinstance(e, ast.Constant)]
                else:
                    for f in ("body", "orelse", "finalbody"):
                        body(getattr(s, f, []) or [])
                    for h in getattr(s, "handlers", []) or []:
                        body(h.body)
                    if isinstance(s, (ast.For, ast.With)):
                        for n in ast.walk(s):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                m.globals.setdefault(n.id, ("value", None))

        body(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    m.globals.setdefault(x, ("value", None))

    def module_ref(self, name):
        top = name.split(".")[0]
        if top == PKG:
            rest = name.split(".")[1:]
            if not rest:
                return ("mod", self.mods.get("__init__"))
            return ("mod", self.mods.get(rest[0]))
        if top in STD:
            return ("std", name, None)
        return ("third", name)

    def source_of(self, m, s):
        """what an ImportFrom reads from"""
        if s.level:
            if s.module is None:
                return ("pkg",)
            return ("mod", s.module.split(".")[0])
        top = s.module.split(".")[0]
        if top == PKG:
            rest = s.module.split(".")[1:]
            return ("mod", rest[0]) if rest else ("pkg",)
        if top in STD:
            return ("std", s.module)
        return ("third", s.module)

    def resolve_stars(self, m, seen):
        if m.name in seen:
            return
        seen.add(m.name)
        for src in m.stars:
            if src[0] == "mod" and src[1] in self.mods:
                o = self.mods[src[1]]
                self.resolve_stars(o, seen)
                for k, v in list(o.globals.items()):
                    if (o.all is not None and k in o.all) or (o.all is None and not k.startswith("_")):
                        old = m.globals.get(k)
                        if old is None or m.name == "__init__":
                            m.globals[k] = v if v[0] != "from" else self.deref(v)
            elif src[0] == "std":
                mod = std_value(src[1], None)
                for k in getattr(mod, "__all__", None) or [x for x in dir(mod) if not x.startswith("_")]:
                    m.globals.setdefault(k, ("std", src[1], k))

    def deref(self, v, depth=0):
        if v is None or v[0] != "from" or depth > 8:
            return v
        src, name = v[1], v[2]
        if src[0] == "pkg":
            if name in self.mods:
                return ("mod", self.mods[name])
            i = self.mods.get("__init__")
            return self.deref(i.globals.get(name), depth + 1) if i else None
        if src[0] == "mod":
            o = self.mods.get(src[1])
            if o is None:
                return None
            return self.deref(o.globals.get(name), depth + 1)
        if src[0] == "std":
            return ("std", src[1], name)
        return ("third", src[1] + "." + name)

    def resolve(self, m, name):
        return self.deref(m.globals.get(name))

    def resolve_expr(self, m, e, local=None):
        if isinstance(e, ast.Name):
            if local and e.id in local:
                return local[e.id]
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value, local)
            if r and r[0] == "mod" and r[1] is not None:
                return self.resolve(r[1], e.attr)
            if r and r[0] == "std" and r[2] is None:
                return ("std", r[1], e.attr)
            if r and r[0] == "third":
                return ("third", r[1] + "." + e.attr)
        return None

    def class_members(self, m, c):
        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    kind = "method"
                    for d in s.decorator_list:
                        if isinstance(d, ast.Name) and d.id == "property":
                            kind = "property"
                        elif isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod"):
                            kind = d.id
                        elif isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter", "getter"):
                            kind = "settable" if d.attr == "setter" else c.members.get(s.name, "property")
                    c.members[s.name] = kind
                    self.add_fn(m, c, s, "%s.%s" % (c.name, s.name))
                elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                k = "attr"
                                v = s.value
                                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "property":
                                    k = "settable" if len(v.args) > 1 or any(q.arg == "fset" for q in v.keywords) else "property"
                                elif isinstance(v, ast.Name) and v.id in c.members:
                                    k = c.members[v.id]
                                c.members[n.id] = k
                elif isinstance(s, ast.ClassDef):
                    c.members[s.name] = "attr"
                elif hasattr(s, "body"):
                    body(s.body)
                    body(getattr(s, "orelse", []) or [])

        body(c.node.body)

    def add_fn(self, m, c, node, qual, outer=None):
        f = Fn(m, c, node, qual, outer)
        self.fns.append(f)
        for n in inner(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.add_fn(m, c, n, qual + "." + n.name, f)

    # ------------------------------------------------------------ stores and instantiations
    def scan(self):
        for f in self.fns:
            if f.outer:
                continue
            me = self_name(f)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    if isinstance(n.value, ast.Name) and n.value.id == me and f.cls:
                        f.cls.stores.setdefault(n.attr, []).append(f)
                    else:
                        self.ext_stores.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        self.ext_stores.add(n.args[1].value)
                    elif f.cls:
                        f.cls.stores.setdefault("*", []).append(f)
                    else:
                        self.ext_stores.add("*")
                elif isinstance(n, ast.Attribute) and n.attr == "__dict__" and f.cls:
                    f.cls.stores.setdefault("*", []).append(f)
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    r = self.resolve_expr(m, n.func)
                    if r and r[0] == "class":
                        self.instantiated.add(r[1])
                elif isinstance(n, ast.Dict):
                    for v in n.values:
                        r = self.resolve_expr(m, v) if isinstance(v, ast.Name) else None
                        if r and r[0] == "class":
                            self.instantiated.add(r[1])

    def concrete(self):
        return [c for c in self.classes if not c.subs or c in self.instantiated]

    def has(self, c, name):
        """whether instances of the class c have the member (conservative towards yes)"""
        if c.lookup(name) is not None or name in self.ext_stores or "*" in self.ext_stores:
            return True
        for k in c.mro():
            if isinstance(k, Cls) and (name in k.stores or "*" in k.stores):
                return True
        return name.startswith("__") or norm(name) in self.fallback(c)

    def fallback(self, c):
        """names answered by __getattr__: the string keys of the tables it consults"""
        out = set()
        for hook in ("__getattr__", "__getattribute__"):
            r = c.lookup(hook)
            if r and r[0] == "own":
                k = r[1]
                fn = [f for f in self.fns if f.cls is k and f.node.name == hook and f.outer is None][0]
                todo, seen = [fn.node], set()
                while todo:
                    node = todo.pop()
                    for n in ast.walk(node):
                        if isinstance(n, ast.Constant) and isinstance(n.value, str) and node is not fn.node:
                            out.add(norm(n.value))
                        if isinstance(n, ast.Name) and n.id not in seen:
                            seen.add(n.id)
                            r2 = self.resolve(k.mod, n.id)
                            if r2 and r2[0] == "value" and r2[1] is not None:
                                todo.append(r2[1])
                            elif r2 and r2[0] == "func":
                                todo.append(r2[1])
        return out


def norm(name):
    return re.sub("[-_]", "", str(name)).lower()


def std_value(module, attr):
    try:
        mod = importlib.import_module(module)
    except Exception:
        return None
    if attr is None:
        return mod
    if hasattr(mod, attr):
        return getattr(mod, attr)
    try:
        return importlib.import_module(module + "." + attr)
    except Exception:
        return None


def inner(node):
    """the statements and expressions of a function, nested functions and classes not entered
    (but yielded)"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop(0)
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo = list(ast.iter_child_nodes(n)) + todo


def self_name(f):
    if f.cls is None:
        return None
    if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.node.decorator_list):
        return None
    a = f.node.args.posonlyargs + f.node.args.args
    return a[0].arg if a else None


def is_classmethod(f):
    return any(isinstance(d, ast.Name) and d.id == "classmethod" for d in f.node.decorator_list)


def caught(node, wanted):
    """parents-aware: is the node inside a try body whose handlers take the exception"""
    p = getattr(node, "_parent", None)
    child = node
    while p is not None:
        if isinstance(p, ast.Try) and child in p.body:
            for h in p.handlers:
                if h.type is None:
                    return True
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for t in ts:
                    n = t.id if isinstance(t, ast.Name) else getattr(t, "attr", None)
                    if n in wanted:
                        return True
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)):
            # continue outward only for lambdas / comprehensions
            return False
        child, p = p, getattr(p, "_parent", None)
    return False


def link(tree):
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c._parent = n


# ------------------------------------------------------------------ rules


def unresolved_names(prog, m):
    """(function qual, name, line): global references that are defined nowhere"""
    tables = []

    def walk(t, path):
        tables.append((t, path))
        for c in t.get_children():
            walk(c, path + ([c.get_name()] if c.get_type() != "module" else []))

    walk(m.sym, [])
    where = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            where.setdefault(n.id, []).append(n)
    out = []
    for t, path in tables:
        for s in t.get_symbols():
            if not s.is_referenced():
                continue
            if t.get_type() == "module":
                glob = not (s.is_assigned() or s.is_imported() or s.is_namespace())
            else:
                glob = s.is_global()
            name = s.get_name()
            if not glob or name in BUILTINS or name in m.globals:
                continue
            nodes = [n for n in where.get(name, []) if not caught(n, ("NameError", "Exception", "BaseException"))]
            if nodes:
                line = t.get_lineno()
                node = min((n for n in nodes if n.lineno >= line), key=lambda n: n.lineno, default=nodes[0])
                out.append((".".join(path) or "<module>", name, node.lineno))
    return out


class May:
    """names of a function that may have been assigned on some path so far"""

    def __init__(self, f):
        self.f = f
        a = f.node.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                self.params.add(x.arg)
        self.locals = set(self.params)
        skip = set()
        for n in inner(f.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                skip |= set(n.names)
        comp = set()
        for n in inner(f.node):
            if isinstance(n, ast.comprehension):
                for x in ast.walk(n.target):
                    comp.add(id(x))
        for n in inner(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in comp:
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    self.locals.add(x.asname or x.name.split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
        self.locals -= skip
        self.bad = {}

    def run(self):
        self.block(self.f.node.body, set(self.params))
        return self.bad

    def use(self, e, st, bound=frozenset()):
        """visit an expression: loads are checked against st, walrus targets are added"""
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in st and e.id not in bound:
                if not caught(e, ("UnboundLocalError", "NameError", "Exception", "BaseException")):
                    self.bad.setdefault(e.id, e.lineno)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            b = set(bound)
            for g in e.generators:
                self.use(g.iter, st, frozenset(b))
                b |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for i in g.ifs:
                    self.use(i, st, frozenset(b))
            for x in [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]:
                self.use(x, st, frozenset(b))
            return
        if isinstance(e, ast.Lambda):
            return  # runs later
        if isinstance(e, ast.NamedExpr):
            self.use(e.value, st, bound)
            st.add(e.target.id)
            return
        for c in ast.iter_child_nodes(e):
            self.use(c, st, bound)

    def bind(self, t, st):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.add(n.id)
        for n in ast.iter_child_nodes(t) if not isinstance(t, ast.Name) else ():
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                self.use(n, st)
            else:
                self.bind(n, st) if isinstance(n, ast.expr) else None

    def block(self, stmts, st):
        """st is updated in place; None when the end is not reached"""
        for s in stmts:
            if self.stmt(s, st) is False:
                return False
        return True

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            self.use(s.value, st)
            for t in s.targets:
                self.bind(t, st)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.use(s.value, st)
                self.bind(s.target, st)
        elif isinstance(s, ast.AugAssign):
            self.use(s.value, st)
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
                st.add(s.target.id)
            else:
                self.use(s.target, st)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            st.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for x in s.names:
                st.add(x.asname or x.name.split(".")[0])
        elif isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.use(c, st)
            return False
        elif isinstance(s, (ast.Break, ast.Continue)):
            self.loop_exits[-1].update(st)
            return False
        elif isinstance(s, ast.If):
            self.use(s.test, st)
            a, b = set(st), set(st)
            ra, rb = self.block(s.body, a), self.block(s.orelse, b)
            if ra is False and rb is False:
                return False
            st |= (a if ra else set()) | (b if rb else set())
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.use(s.test, st)
            else:
                self.use(s.iter, st)
            # everything assigned anywhere in the loop may be assigned at its start
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    st.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for x in n.names:
                        st.add(x.asname or x.name.split(".")[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    st.add(n.name)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    st.add(n.name)
            self.loop_exits.append(set())
            self.block(s.body, set(st))
            self.block(s.orelse, set(st))
            self.loop_exits.pop()
        elif isinstance(s, ast.Try):
            start = set(st)
            a = set(st)
            ra = self.block(s.body, a)
            every = set(start)
            for n in [x for b in s.body for x in ast.walk(b)]:
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    every.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for x in n.names:
                        every.add(x.asname or x.name.split(".")[0])
            if ra:
                ra = self.block(s.orelse, a)
            out = set(a) if ra else set()
            live = bool(ra)
            for h in s.handlers:
                b = set(every)
                if h.type is not None:
                    self.use(h.type, b)
                if h.name:
                    b.add(h.name)
                rb = self.block(h.body, b)
                if h.name:
                    b.discard(h.name)
                if rb:
                    out |= b
                    live = True
            fin = set(out) | every
            rf = self.block(s.finalbody, fin)
            if rf is False:
                return False
            if not live:
                return False
            st |= out | (fin if s.finalbody else set())
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, st)
            return self.block(s.body, st)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.use(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
                    st.discard(t.id)
                else:
                    self.use(t, st)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.use(c, st)
        return True

    loop_exits = None


def unbound_locals(f):
    m = May(f)
    m.loop_exits = [set()]
    return m.run()


def visible(prog, c, f):
    """does the method f run on an instance of class c"""
    name = f.qual.split(".")[1]
    r = c.lookup(name)
    if r and r[0] == "own" and r[1] is f.cls:
        return True
    # overridden: only through super() or an explicit class reference
    for k in c.mro():
        if not isinstance(k, Cls) or k is f.cls:
            continue
        for g in prog.fns:
            if g.cls is k and g.outer is None:
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Attribute) and n.attr == name:
                        v = n.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                            return True
                        if isinstance(v, ast.Name) and v.id == f.cls.name:
                            return True
    return False


def guarded(n, f, attr):
    if caught(n, ("AttributeError", "Exception", "BaseException")):
        return True
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == attr:
            return True
    return False


def self_members(prog, f):
    """members of self (per concrete class that runs this method) that do not exist"""
    me = self_name(f)
    if me is None:
        return
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and n.id == me and isinstance(n.ctx, ast.Store):
            return
    classes = [c for c in prog.concrete() if f.cls in c.mro() and visible(prog, c, f)]
    for n in ast.walk(f.node):
        if not (isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me):
            continue
        if isinstance(n.ctx, ast.Load):
            lost = [c for c in classes if not prog.has(c, n.attr)]
            if lost and not guarded(n, f, n.attr):
                yield n.attr, "%s refers to %s.%s, which %s does not have" % (f.qual, me, n.attr, lost[0].name), n.lineno
        else:
            ro = [c for c in classes if readonly(c, n.attr)]
            if ro and not guarded(n, f, n.attr):
                yield n.attr, "%s assigns %s.%s, a property of %s without a setter" % (f.qual, me, n.attr, ro[0].name), n.lineno


def readonly(c, name):
    r = c.lookup(name)
    return bool(r and r[0] == "own" and r[2] == "property")


def local_types(prog, f):
    """variables that only ever hold new instances of one package class, or imported things"""
    env, bad = {}, set()
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        bad.add(x.arg)
    imports = {}
    for n in inner(f.node):
        if isinstance(n, ast.Import):
            for x in n.names:
                imports[x.asname or x.name.split(".")[0]] = prog.module_ref(x.name if x.asname else x.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            src = prog.source_of(f.mod, n)
            for x in n.names:
                if x.name != "*":
                    imports[x.asname or x.name] = prog.deref(("from", src, x.name))
    stores = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stores.setdefault(n.id, []).append(n)
    for name, nodes in stores.items():
        if name in bad:
            continue
        kinds = set()
        for n in nodes:
            p = getattr(n, "_parent", None)
            k = None
            if isinstance(p, ast.Assign) and n in p.targets and isinstance(p.value, ast.Call):
                r = prog.resolve_expr(f.mod, p.value.func, imports)
                if r and r[0] == "class" and r[1].lookup("__new__") in (None, ("ext", object)):
                    k = r[1]
            kinds.add(k)
        if len(kinds) == 1 and None not in kinds:
            env[name] = kinds.pop()
    return env, imports


def narrowed(n, var, prog, f, imports):
    """classes that an enclosing isinstance test leaves for the variable, or None"""
    p, child = getattr(n, "_parent", None), n
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.Lambda)):
        tests, scope = [], None
        if isinstance(p, ast.If) and child in p.body:
            tests, scope = [p.test], p.body
        elif isinstance(p, ast.IfExp) and child is p.body:
            tests, scope = [p.test], [p.body]
        elif isinstance(p, ast.BoolOp) and isinstance(p.op, ast.And):
            i = p.values.index(child)
            tests, scope = p.values[:i], [child]
        flat = []
        for t in tests:
            flat += t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) else [t]
        for t in flat:
            if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name) and t.args[0].id == var:
                if any(isinstance(x, ast.Name) and x.id == var and isinstance(x.ctx, ast.Store) for s in scope for x in ast.walk(s)):
                    return None
                ts = t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]]
                out = []
                for e in ts:
                    r = prog.resolve_expr(f.mod, e, imports)
                    if r and r[0] == "class":
                        out.append(r[1])
                    elif isinstance(e, ast.Name) and e.id in DIRS and r is None:
                        out.append(DIRS[e.id])
                    else:
                        return None
                return out
        child, p = p, getattr(p, "_parent", None)
    return None


def subs_of(c):
    out = [c]
    for s in c.subs:
        out += subs_of(s)
    return out


def tainted(prog, f, e, imports, depth=0):
    """may the value come from a third-party package"""
    if isinstance(e, ast.Name):
        k = (id(f.node), e.id)
        memo = prog.__dict__.setdefault("_tainted", {})
        if k not in memo:
            memo[k] = False  # while on the way; what depends on itself alone does not count
            memo[k] = tainted_value(prog, f, e, imports, depth)
        return memo[k]
    return tainted_value(prog, f, e, imports, depth)


def tainted_value(prog, f, e, imports, depth):
    if depth > 12:
        return False
    if isinstance(e, ast.Name):
        r = imports.get(e.id) or prog.resolve(f.mod, e.id)
        if r and r[0] == "third":
            return True
        for n in ast.walk(f.node):
            src = None
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                ts, src = n.targets if isinstance(n, ast.Assign) else [n.target], n.value
            elif isinstance(n, (ast.For, ast.comprehension)):
                ts, src = [n.target], n.iter
            elif isinstance(n, ast.withitem):
                ts, src = [n.optional_vars], n.context_expr
            elif isinstance(n, ast.NamedExpr):
                ts, src = [n.target], n.value
            if src is not None and any(isinstance(x, ast.Name) and x.id == e.id for t in ts if t is not None for x in ast.walk(t)):
                if any(isinstance(x, ast.Name) and x.id != e.id and tainted(prog, f, x, imports, depth + 1) for x in ast.walk(src)):
                    return True
                if any(isinstance(x, ast.Call) and from_outside(prog, x, depth + 1) for x in ast.walk(src)):
                    return True
        for g, x in passes(prog, f, e.id):
            if tainted(prog, g, x, local_imports(prog, g), depth + 1):
                return True
        if f.outer is not None:
            o = f.outer if isinstance(f.outer, Fn) else None
            if o is not None:
                return tainted(prog, o, e, local_imports(prog, o), depth + 1)
        return False
    if isinstance(e, (ast.Attribute, ast.Subscript)):
        if isinstance(e, ast.Attribute) and e.attr in third_attributes(prog):
            return True
        return tainted(prog, f, e.value, imports, depth + 1)
    if isinstance(e, ast.Call):
        return from_outside(prog, e, depth + 1) or tainted(prog, f, e.func, imports, depth + 1)
    return any(tainted(prog, f, c, imports, depth + 1) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr))


def local_imports(prog, f):
    if not hasattr(f, "_imports"):
        f._imports = local_types(prog, f)[1]
    return f._imports


def from_outside(prog, call, depth):
    """a call of a package function that imports something of a third party or hands such a value out"""
    name = getattr(call.func, "id", getattr(call.func, "attr", None))
    for g in prog.by_name().get(name, ()):
        if not hasattr(g, "_outside"):
            g._outside = False
            im = local_imports(prog, g)
            g._outside = any(v and v[0] == "third" for v in im.values()) or any(isinstance(n, ast.Return) and n.value is not None and tainted(prog, g, n.value, im, depth + 1) for n in inner(g.node))
        if g._outside:
            return True
    return False


def passes(prog, f, param):
    """what calls, matched by name, hand to the parameter of a function"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if param not in pos + [x.arg for x in a.kwonlyargs] or param == self_name(f):
        return
    name = f.qual.split(".")[-1]
    for g, n in prog.calls().get(name, ()):
        for k in n.keywords:
            if k.arg == param:
                yield g, k.value
        if param in pos:
            i = pos.index(param)
            for j in {i, i - 1 if f.cls is not None else i}:  # bound or called on the class
                if 0 <= j < len(n.args):
                    yield g, n.args[j]


def third_attributes(prog):
    """attributes and module names that are assigned third-party modules or values"""
    if not hasattr(prog, "_third"):
        prog._third = set()
        for f in prog.fns:
            im = local_imports(prog, f)
            for n in inner(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(n.value, ast.Name) and (im.get(n.value.id) or prog.resolve(f.mod, n.value.id) or ("",))[0] == "third":
                            prog._third.add(t.attr)
    return prog._third


def universe(prog):
    out = set(ARRAY) | set(prog.ext_stores)
    for c in prog.classes:
        out |= set(c.members) | set(c.stores)
        for k in c.mro():
            if not isinstance(k, Cls) and k is not None:
                out |= set(dir(k))
        out |= prog.fallback(c)
    for t in VALUES:
        out |= set(dir(t))
    for m in prog.mods.values():
        for v in m.globals.values():
            v = prog.deref(v)
            if v and v[0] == "std":
                x = std_value(v[1], v[2])
                out |= set(dir(x)) if x is not None else set()
    for f in prog.fns:
        for n in inner(f.node):
            if isinstance(n, ast.ImportFrom) and n.level == 0 and n.module.split(".")[0] in STD:
                mod = std_value(n.module, None)
                for x in n.names:
                    v = std_value(n.module, x.name)
                    out |= set(dir(v)) if v is not None else set()
                out |= set(dir(mod)) if mod is not None else set()
    import xml.etree.ElementTree as ET

    out |= set(dir(ET.Element("a")))
    return out


def other_members(prog, f, uni):
    """members of receivers other than self"""
    env, imports = local_types(prog, f)
    me = self_name(f)
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Attribute):
            continue
        v = n.value
        load = isinstance(n.ctx, ast.Load)
        if isinstance(v, ast.Name) and v.id == me and not is_classmethod(f):
            continue
        r = None
        if isinstance(v, (ast.Name, ast.Attribute)):
            root = v
            while isinstance(root, ast.Attribute):
                root = root.value
            local = isinstance(root, ast.Name) and any(isinstance(x, ast.Name) and x.id == root.id and isinstance(x.ctx, ast.Store) for x in ast.walk(f.node))
            params = {x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
            if isinstance(root, ast.Name) and not local and root.id not in params and root.id != me:
                r = prog.resolve_expr(f.mod, v, imports)
        msg = None
        if r and r[0] == "third":
            continue
        if r and r[0] == "class":
            c = r[1]
            if load and c.lookup(n.attr) is None and n.attr not in prog.ext_stores and not n.attr.startswith("__"):
                msg = "%s refers to %s.%s, which the class does not have" % (f.qual, c.name, n.attr)
        elif r and r[0] == "mod":
            if r[1] is None:
                msg = "%s refers to a module that does not exist" % f.qual
            elif load and n.attr not in r[1].globals and not (r[1].name == "__init__" and n.attr in prog.mods) and not n.attr.startswith("__"):
                msg = "%s refers to %s.%s, which the module does not define" % (f.qual, r[1].name, n.attr)
        elif r and r[0] == "std":
            x = std_value(r[1], r[2])
            if load and x is not None and not hasattr(x, n.attr) and std_value(r[1] + "." + (r[2] or n.attr), None) is None:
                msg = "%s refers to %s.%s, which does not exist" % (f.qual, ".".join(y for y in r[1:] if y), n.attr)
        elif isinstance(v, ast.Name) and v.id in env:
            c = env[v.id]
            if load and not prog.has(c, n.attr):
                msg = "%s refers to %s.%s, a %s has no such member" % (f.qual, v.id, n.attr, c.name)
            elif not load and readonly(c, n.attr):
                msg = "%s assigns %s.%s, a property of %s without a setter" % (f.qual, v.id, n.attr, c.name)
        elif isinstance(v, ast.Call) and prog.resolve_expr(f.mod, v.func, imports) and prog.resolve_expr(f.mod, v.func, imports)[0] == "class":
            c = prog.resolve_expr(f.mod, v.func, imports)[1]
            if load and not prog.has(c, n.attr):
                msg = "%s refers to %s(...).%s, which does not exist" % (f.qual, c.name, n.attr)
        elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls is not None:
            found = False
            for c in [c for c in prog.concrete() if f.cls in c.mro()] or [f.cls]:
                order = c.mro()
                rest = order[order.index(f.cls) + 1 :]
                if any(k is None or (isinstance(k, Cls) and n.attr in k.members) or (not isinstance(k, Cls) and hasattr(k, n.attr)) for k in rest) or hasattr(object, n.attr):
                    found = True
            if not found:
                msg = "%s refers to super().%s, which no base class has" % (f.qual, n.attr)
        elif isinstance(v, (ast.Constant, ast.JoinedStr)) and not hasattr(getattr(v, "value", ""), n.attr) and not isinstance(v, ast.JoinedStr):
            msg = "%s refers to %r.%s" % (f.qual, v.value, n.attr)
        else:
            ts = narrowed(n, v.id, prog, f, imports) if isinstance(v, ast.Name) else None
            if ts:
                if load:
                    miss = []
                    for t in ts:
                        if isinstance(t, Cls):
                            miss.append(not any(prog.has(k, n.attr) for k in subs_of(t)))
                        else:
                            miss.append(not hasattr(t, n.attr))
                    if all(miss):
                        msg = "%s refers to %s.%s, which none of %s has" % (f.qual, v.id, n.attr, ", ".join(t.name if isinstance(t, Cls) else t.__name__ for t in ts))
                elif all(isinstance(t, Cls) and readonly(t, n.attr) for t in ts):
                    msg = "%s assigns %s.%s, a property without a setter" % (f.qual, v.id, n.attr)
            elif load and n.attr not in uni and norm(n.attr) not in uni and not tainted(prog, f, v, imports):
                msg = "%s refers to a member %s, which nothing defines" % (f.qual, n.attr)
        if msg and not guarded(n, f, n.attr):
            yield n.attr, msg, n.lineno


def imports_of(prog, m):
    """(enclosing function or '', imported thing, problem or None, guarded, node, kind)"""
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                yield n, prog.module_ref(a.name), a.name, None
        elif isinstance(n, ast.ImportFrom):
            src = prog.source_of(m, n)
            for a in n.names:
                yield n, src, None, a.name
