"""Abstract interpreter for the Python subset the analysed package is written in.

The interpreter computes, for a function applied to abstract arguments, the
finite set of abstract outcomes (abstract store, result or exception).  It never
imports or executes the analysed package: it walks its syntax trees.

* stores are disjunctive (trace partitioning); partitions that become equal are
  merged at every join and the path facts that differ are dropped;
* branches on undecided conditions split the partition and refine the facts;
* calls are resolved through the class hierarchy (MRO, properties, dunder
  protocols) and analysed context-sensitively;
* anything outside the modelled subset evaluates to an unknown value.
"""
import ast
import builtins as _bi
import importlib.util
import os
import sys
from fractions import Fraction

from .values import *
from .sym import R, Rat, Poly, atom, fun, subst, equal, ZERO, RONE, TAU

sys.setrecursionlimit(60000)


class AnalysisLimit(Exception):
    pass


class Anchor(Exception):
    """a public anchor of a property is missing: analysis broken"""


class Fr:
    __slots__ = ("addr", "info", "gl", "cls", "firstarg", "classbody")

    def __init__(self, addr, info, gl, cls=None, classbody=False):
        self.addr = addr
        self.info = info
        self.gl = gl
        self.cls = cls
        self.classbody = classbody
        self.firstarg = None


EXC = {
    n: getattr(_bi, n)
    for n in dir(_bi)
    if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)
}
PYTYPES = {
    "int": int, "float": float, "str": str, "list": list, "tuple": tuple, "dict": dict,
    "set": set, "complex": complex, "bool": bool, "bytes": bytes, "object": object,
    "type": type, "slice": slice, "frozenset": frozenset, "bytearray": bytearray,
    "range": range, "NoneType": type(None), "map": map, "zip": zip, "filter": filter,
    "enumerate": enumerate, "reversed": reversed, "iter": type(iter([])), "generator": type((i for i in [])),
    "classmethod": classmethod, "staticmethod": staticmethod, "property": property, "super": super,
    "function": type(lambda: 0), "method": type(Anchor().__init__), "ellipsis": type(...), "notimpl": type(NotImplemented), "memoryview": memoryview,
}
PYTYPES.update(EXC)


def assigned_names(node):
    out, gl, nl = set(), set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for s in ast.walk(n):
                if isinstance(s, ast.NamedExpr):
                    out.add(s.target.id)
            return
        if isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != "*":
                    out.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.NamedExpr):
            out.add(n.target.id)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    return out - gl - nl, gl, nl


def has_yield(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def mangle(cls, name):
    if cls is not None and name.startswith("__") and not name.endswith("__"):
        return "_%s%s" % (cls.lstrip("_"), name)
    return name


class Interp:
    def __init__(self, root="/repo", package="svgio"):
        self.root = root
        self.package = package
        self.next_addr = 0
        self.tick = 0
        self.modules = {}  # name -> frame Ref
        self.sources = {}
        self.functions = {}  # qual -> FuncInfo
        self.classes = {}  # qual -> ClassVal
        self.hooks = {}
        self.handlers = []
        self.want = ()
        self.steps = 0
        self.max_steps = 400000
        self.max_states = 600
        self.max_depth = 60
        self.loop_bound = 3
        self.depth = 0
        self.callstack = []
        self.visited_fns = set()
        self.notes = {}
        self.missing = set()  # third-party modules considered absent
        self.at_load = None
        self.present = {}  # third-party modules with a model
        self.opaque_n = 0
        self.cur = None
        self.nonrepo = {}
        self.allow_missing_imports = True
        self.on_call = None
        self.lits = {}
        self.lit_style = "decimal"
        self.hexd = {}
        self.hexspell = {}
        from . import models

        self.M = models
        st = State(self)
        self.base = self.load(st)

    # ---------------------------------------------------------------- load
    def module_path(self, name):
        return os.path.join(self.root, self.package, name + ".py")

    def parse_module(self, name):
        if name not in self.sources:
            p = self.module_path(name)
            with open(p, encoding="utf-8") as f:
                src = f.read()
            self.sources[name] = ast.parse(src, p)
        return self.sources[name]

    def module_names(self):
        d = os.path.join(self.root, self.package)
        return sorted(f[:-3] for f in os.listdir(d) if f.endswith(".py"))

    def load(self, st):
        for name in self.module_names():
            st = self.load_module(st, name)
        return st

    def load_module(self, st, name):
        if name in self.modules:
            return st
        tree = self.parse_module(name)
        ref = st.alloc(Obj("module", None, {"__name__": Const(self.package + "." + name)}, None, name))
        self.modules[name] = ref
        fi = FuncInfo(tree, name, None, name, set(), False, None)
        fr = Fr(ref.addr, fi, ref.addr)
        fr.classbody = True
        # optional packages imported by a module: taken as absent, or as present if it cannot do without
        ok, outer, known = [], self.at_load, dict(self.modules)
        for choice in (False, True):
            self.at_load, self.modules = choice, dict(known)
            res = self.exec_block(tree.body, st.fork(), fr)
            self.at_load = outer
            ok = [s for s, sig in res if sig is None]
            if ok:
                break
        if len(ok) != 1:
            bad = [sig for s, sig in res if sig is not None]
            raise Anchor("module %s does not load to a single abstract store: %s" % (name, bad or len(ok)))
        return ok[0]

    def add_module(self, name, source):
        """an analysis harness: extra source interpreted next to the package's modules"""
        self.sources[name] = ast.parse(source, name)
        self.base = self.load_module(self.base, name)

    def start(self):
        self.steps = 0
        return self.base.fork()

    def get(self, st, module, name):
        """public global of a module"""
        if module not in self.modules:
            raise Anchor("module %s vanished" % module)
        v = st.o(self.modules[module]).fields.get(name)
        if v is None:
            raise Anchor("%s.%s vanished" % (module, name))
        return v

    def fresh(self, hint="v"):
        self.opaque_n += 1
        return Opaque("any", (hint, self.opaque_n))

    def note(self, what):
        self.notes[what] = self.notes.get(what, 0) + 1

    # ---------------------------------------------------------------- util
    def loc(self, fr, node):
        return (fr.info.module, fr.info.qual, getattr(node, "lineno", 0), self.construct(node))

    def construct(self, node):
        try:
            s = ast.unparse(node)
        except Exception:
            s = type(node).__name__
        s = s.split("\n")[0]
        return s if len(s) < 110 else s[:107] + "..."

    def exc(self, name, msg="", where=None):
        return Raise(ExcInst(EXC[name], (Const(msg),)), where or self.cur)

    def throws(self, st, name, msg=""):
        return [(st, self.exc(name, msg))]

    def possible(self, st, name, msg=""):
        """fork an exceptional outcome only when somebody can observe it"""
        e = EXC[name]
        if any(issubclass(e, h) for hs in self.handlers for h in hs) or any(
            issubclass(e, w) for w in self.want
        ):
            return [(st.fork(), self.exc(name, msg))]
        return []

    # ---------------------------------------------------------------- merge
    def vkey(self, v, st, ren, todo, mark):
        if isinstance(v, Ref):
            a = v.addr
            if a in ren:
                return ("r", ren[a])
            if a <= mark:
                return ("R", a)
            ren[a] = len(ren)
            todo.append(a)
            return ("r", ren[a])
        if isinstance(v, Tup):
            return ("T",) + tuple(self.vkey(x, st, ren, todo, mark) for x in v.items)
        if isinstance(v, (BoundMethod, BoundBuiltin)):
            return ("M", v.fn if isinstance(v, BoundMethod) else v.name, self.vkey(v.recv, st, ren, todo, mark))
        if isinstance(v, FuncVal):
            return ("F", v.info.qual, v.closure if v.closure is None or v.closure <= mark else self.vkey(Ref(v.closure), st, ren, todo, mark))
        if isinstance(v, ClassVal):
            return ("C", v.qual)
        if isinstance(v, Num):
            return ("N", st.norm(v.r), v.k if isinstance(v.k, str) else v.k.qual)
        if isinstance(v, Cx):
            return ("c", st.norm(v.re), st.norm(v.im))
        if isinstance(v, Text):
            if not st.sub:
                return v
            return Text(tuple(NumPiece(p.fmt, Num(st.norm(p.num.r), p.num.k)) if isinstance(p, NumPiece) and isinstance(p.num, Num) else p for p in v.pieces))
        if isinstance(v, Ret):
            return ("ret", self.vkey(v.v, st, ren, todo, mark))
        if isinstance(v, Raise):
            return ("raise", v.name, v.where)
        if isinstance(v, tuple):
            return ("t",) + tuple(self.vkey(x, st, ren, todo, mark) for x in v)
        if isinstance(v, list):
            return ("l",) + tuple(self.vkey(x, st, ren, todo, mark) for x in v)
        return v

    def okey(self, o, st, ren, todo, mark):
        its = None
        if o.items is not None:
            if isinstance(o.items, dict):
                its = tuple(
                    (self.vkey(k, st, ren, todo, mark), self.vkey(v, st, ren, todo, mark))
                    for k, v in o.items.values()
                )
            else:
                its = tuple(self.vkey(v, st, ren, todo, mark) for v in o.items)
        return (
            o.kind,
            getattr(o.cls, "qual", o.cls),
            tuple((f, self.vkey(v, st, ren, todo, mark)) for f, v in sorted(o.fields.items(), key=lambda t: str(t[0]))),
            its,
        )

    def skey(self, st, extra, amark, tmark):
        ren, todo = {}, []
        key = []
        key.append(self.vkey(extra, st, ren, todo, amark))
        key.append(self.vkey(st.log, st, ren, todo, amark))
        if st.over:
            key.append(tuple((k, self.vkey(v, st, ren, todo, amark)) for k, v in sorted(st.over.items(), key=str)))
        for a in sorted(x for x, ob in st.heap.items() if x <= amark and ob.stamp > tmark):
            key.append((a, self.okey(st.heap[a], st, ren, todo, amark)))
        i = 0
        while i < len(todo):
            a = todo[i]
            i += 1
            if a in st.heap:
                key.append(self.okey(st.heap[a], st, ren, todo, amark))
        return tuple(key)

    def merge(self, results, amark, tmark):
        """results: list of (state, signal); join partitions with equal stores"""
        if len(results) < 2:
            return results
        if len(results) > self.max_states:
            raise AnalysisLimit("more than %d partitions" % self.max_states)
        seen = {}
        out = []
        groups = {}
        for st, sig in results:
            try:
                k = self.skey(st, sig, amark, tmark)
                hash(k)
            except TypeError:
                out.append((st, sig))
                continue
            j = seen.get(k)
            if j is None:
                seen[k] = len(out)
                out.append((st, sig))
            else:
                a = out[j][0]
                if j not in groups:
                    groups[j] = [(dict(a.facts), dict(a.sub), a.hist)]
                groups[j].append((dict(st.facts), dict(st.sub), st.hist))
                if a.sub and any(st.sub.get(k2) != v2 for k2, v2 in a.sub.items()):
                    out[j] = (a, self.normalise(a, out[j][1], amark, tmark))
                self.join_facts(a, st)
        for j, alts in groups.items():
            common = alts[0][2]
            for f, sb, h in alts[1:]:
                n = 0
                while n < len(common) and n < len(h) and common[n] is h[n]:
                    n += 1
                common = common[:n]
            if all(not f and not sb and len(h) == len(common) for f, sb, h in alts):
                out[j][0].hist = common
                continue
            alts = [(f, sb, h[len(common) :]) for f, sb, h in alts]
            out[j][0].hist = common + (Alt(alts),)
        return out

    def normalise(self, st, sig, amark, tmark):
        """rewrite numbers with the equations of the partition before these are dropped"""

        def nv(v):
            if isinstance(v, Num):
                r = st.norm(v.r)
                return v if r is v.r else Num(r, v.k)
            if isinstance(v, Tup):
                return Tup(tuple(nv(x) for x in v.items))
            if isinstance(v, Cx):
                return Cx(st.norm(v.re), st.norm(v.im))
            if isinstance(v, Text):
                return Text(tuple(NumPiece(p.fmt, nv(p.num)) if isinstance(p, NumPiece) else p for p in v.pieces))
            if isinstance(v, tuple):
                return tuple(nv(x) for x in v)
            return v

        for a, o in list(st.heap.items()):
            if a <= amark and o.stamp <= tmark:
                continue
            c = o.clone()
            c.fields = {k: nv(v) for k, v in c.fields.items()}
            if isinstance(c.items, dict):
                c.items = {k: (nv(v) if not (isinstance(v, tuple) and len(v) == 2) else (nv(v[0]), nv(v[1]))) for k, v in c.items.items()}
            elif c.items is not None:
                c.items = [nv(v) for v in c.items]
            st.heap[a] = c
            st.owned.add(a)
        st.log = nv(st.log) if isinstance(st.log, tuple) else st.log
        if isinstance(sig, Ret):
            return Ret(nv(sig.v))
        if isinstance(sig, V):
            return nv(sig)
        return sig

    def join_facts(self, a, b):
        """a := facts common to a and b (stores are equal)"""
        f = {}
        for p, iv in a.facts.items():
            o = b.facts.get(p)
            if o is None:
                r = b.norm(Rat(p))
                o = b.iv_rat(r)
            f[p] = iv.hull(o)
        for p, iv in b.facts.items():
            if p not in f:
                o = a.iv_rat(a.norm(Rat(p)))
                f[p] = iv.hull(o)
        a.facts = f
        a.atoms = {k: v for k, v in a.atoms.items() if b.atoms.get(k) is v}
        a.sub = {k: v for k, v in a.sub.items() if b.sub.get(k) == v}
        a.csub = {k: v for k, v in a.csub.items() if b.csub.get(k) == v}
        neq = {}
        for k in set(a.neq) | set(b.neq):
            x = a.neq.get(k)
            y = b.neq.get(k)
            if x is not None and y is not None and x & y:
                neq[k] = x & y
        a.neq = neq

    # ---------------------------------------------------------------- exec
    def exec_block(self, stmts, st, fr):
        """-> list of (state, signal)"""
        live = [st]
        out = []
        amark, tmark = self.next_addr, self.tick
        # owned objects keep old stamps until written; writes restamp them
        for s in stmts:
            nxt = []
            for x in live:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise AnalysisLimit("step budget")
                for st2, sig in self.exec(s, x, fr):
                    if sig is None:
                        nxt.append(st2)
                    else:
                        out.append((st2, sig))
            if len(nxt) > len(live) or len(nxt) > 8:
                nxt = [q for q, _ in self.merge([(q, None) for q in nxt], amark, tmark)]
            live = nxt
            if not live:
                break
        return out + [(x, None) for x in live]

    def exec(self, n, st, fr):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.note("statement " + type(n).__name__)
            return [(st, None)]
        return m(n, st, fr)

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return [(s, v if isinstance(v, Raise) else None) for s, v in self.ev(n.value, st, fr)]

    def s_Pass(self, n, st, fr):
        return [(st, None)]

    def s_Break(self, n, st, fr):
        return [(st, BRK)]

    def s_Continue(self, n, st, fr):
        return [(st, CNT)]

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [(st, Ret(NONE))]
        return [(s, v if isinstance(v, Raise) else Ret(v)) for s, v in self.ev(n.value, st, fr)]

    def s_Global(self, n, st, fr):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Assign(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            cur = [(s, None)]
            for t in n.targets:
                nxt = []
                for s1, sig in cur:
                    if sig is not None:
                        nxt.append((s1, sig))
                    else:
                        nxt.extend(self.assign(t, v, s1, fr))
                cur = nxt
            out.extend(cur)
        return out

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.ev(n.value, st, fr):
            out.extend([(s, v)] if isinstance(v, Raise) else self.assign(n.target, v, s, fr))
        return out

    def assign(self, t, v, st, fr):
        self.cur = self.loc(fr, t)
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, fr)
            return [(st, None)]
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, fr):
                if isinstance(o, Raise):
                    out.append((s, o))
                else:
                    self.cur = self.loc(fr, t)
                    out.extend(self.set_attr(s, o, mangle(fr.cls, t.attr), v))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, vs in self.evs([t.value, t.slice], st, fr):
                if isinstance(vs, Raise):
                    out.append((s, vs))
                else:
                    self.cur = self.loc(fr, t)
                    out.extend(self.set_item(s, vs[0], vs[1], v))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for s, items in self.iterate(st, v, need=len(t.elts) if not star else None):
                if isinstance(items, Raise):
                    out.append((s, items))
                    continue
                if star:
                    i = star[0]
                    k = len(t.elts) - i - 1
                    if len(items) < len(t.elts) - 1:
                        out.append((s, self.exc("ValueError", "not enough values to unpack", self.loc(fr, t))))
                        continue
                    mid = items[i: len(items) - k]
                    items = list(items[:i]) + [s.list(mid)] + list(items[len(items) - k:])
                elif len(items) != len(t.elts):
                    out.append((s, self.exc("ValueError", "wrong number of values to unpack", self.loc(fr, t))))
                    continue
                cur = [(s, None)]
                for e, x in zip(t.elts, items):
                    if isinstance(e, ast.Starred):
                        e = e.value
                    nxt = []
                    for s1, sig in cur:
                        nxt.extend([(s1, sig)] if sig is not None else self.assign(e, x, s1, fr))
                    cur = nxt
                out.extend(cur)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        self.note("assign target " + type(t).__name__)
        return [(st, None)]

    def store_name(self, name, v, st, fr):
        name = mangle(fr.cls, name) if fr.cls else name
        node = fr.info.node
        if not fr.classbody and name not in fr.info.locals:
            # global / nonlocal declaration
            p = fr.info.parent
            a = fr.info_closure if hasattr(fr, "info_closure") else None
            c = st.heap[fr.addr].meta
            while c is not None and c in st.heap:
                if name in st.heap[c].fields and st.heap[c].kind == "frame":
                    st.w(Ref(c)).fields[name] = v
                    return
                c = st.heap[c].meta if st.heap[c].kind == "frame" else None
            st.w(Ref(fr.gl)).fields[name] = v
            return
        st.w(Ref(fr.addr)).fields[name] = v

    def s_AugAssign(self, n, st, fr):
        op = type(n.op).__name__
        out = []
        t = n.target
        if isinstance(t, ast.Name):
            for s, vs in self.evs([ast.copy_location(ast.Name(t.id, ast.Load()), t), n.value], st, fr):
                if isinstance(vs, Raise):
                    out.append((s, vs))
                    continue
                self.cur = self.loc(fr, n)
                for s2, r in self.inplace(s, op, vs[0], vs[1]):
                    out.extend([(s2, r)] if isinstance(r, Raise) else self.assign(t, r, s2, fr))
        elif isinstance(t, ast.Attribute):
            attr = mangle(fr.cls, t.attr)
            for s, o in self.ev(t.value, st, fr):
                if isinstance(o, Raise):
                    out.append((s, o))
                    continue
                self.cur = self.loc(fr, t)
                for s1, cur in self.get_attr(s, o, attr):
                    if isinstance(cur, Raise):
                        out.append((s1, cur))
                        continue
                    for s2, v in self.ev(n.value, s1, fr):
                        if isinstance(v, Raise):
                            out.append((s2, v))
                            continue
                        self.cur = self.loc(fr, n)
                        for s3, r in self.inplace(s2, op, cur, v):
                            out.extend([(s3, r)] if isinstance(r, Raise) else self.set_attr(s3, o, attr, r))
        elif isinstance(t, ast.Subscript):
            for s, vs in self.evs([t.value, t.slice], st, fr):
                if isinstance(vs, Raise):
                    out.append((s, vs))
                    continue
                for s1, cur in self.get_item(s, vs[0], vs[1]):
                    if isinstance(cur, Raise):
                        out.append((s1, cur))
                        continue
                    for s2, v in self.ev(n.value, s1, fr):
                        if isinstance(v, Raise):
                            out.append((s2, v))
                            continue
                        self.cur = self.loc(fr, n)
                        for s3, r in self.inplace(s2, op, cur, v):
                            out.extend([(s3, r)] if isinstance(r, Raise) else self.set_item(s3, vs[0], vs[1], r))
        return out

    def s_Delete(self, n, st, fr):
        cur = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, sig in cur:
                if sig is not None:
                    nxt.append((s, sig))
                elif isinstance(t, ast.Name):
                    f = s.w(Ref(fr.addr)).fields
                    if t.id in f:
                        del f[t.id]
                        nxt.append((s, None))
                    else:
                        nxt.append((s, self.exc("UnboundLocalError", t.id, self.loc(fr, t))))
                elif isinstance(t, ast.Attribute):
                    for s1, o in self.ev(t.value, s, fr):
                        if isinstance(o, Raise):
                            nxt.append((s1, o))
                        else:
                            self.cur = self.loc(fr, t)
                            nxt.extend(self.del_attr(s1, o, mangle(fr.cls, t.attr)))
                elif isinstance(t, ast.Subscript):
                    for s1, vs in self.evs([t.value, t.slice], s, fr):
                        if isinstance(vs, Raise):
                            nxt.append((s1, vs))
                        else:
                            self.cur = self.loc(fr, t)
                            nxt.extend(self.del_item(s1, vs[0], vs[1]))
                else:
                    nxt.append((s, None))
            cur = nxt
        return cur

    def s_If(self, n, st, fr):
        amark, tmark = self.next_addr, self.tick
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Raise):
                out.append((s, b))
            elif b:
                out.extend(self.exec_block(n.body, s, fr))
            else:
                out.extend(self.exec_block(n.orelse, s, fr) if n.orelse else [(s, None)])
        return self.merge(out, amark, tmark)

    def s_While(self, n, st, fr):
        amark, tmark = self.next_addr, self.tick
        out = []
        live = [st]
        forks = 0
        seen = set()
        it = 0
        while live:
            it += 1
            nxt = []
            undecided = False
            for s in live:
                rs = self.cond(n.test, s, fr)
                if sum(1 for _, b in rs if not isinstance(b, Raise)) > 1:
                    undecided = True
                for s1, b in rs:
                    if isinstance(b, Raise):
                        out.append((s1, b))
                    elif not b:
                        out.extend(self.exec_block(n.orelse, s1, fr) if n.orelse else [(s1, None)])
                    else:
                        for s2, sig in self.exec_block(n.body, s1, fr):
                            if sig is None or sig is CNT:
                                nxt.append(s2)
                            elif sig is BRK:
                                out.append((s2, None))
                            else:
                                out.append((s2, sig))
            if len(nxt) > len(live):
                undecided = True
            nxt = [q for q, _ in self.merge([(q, None) for q in nxt], amark, tmark)]
            fresh = []
            for q in nxt:
                try:
                    k = (self.skey(q, None, amark, tmark))
                    if k in seen:
                        continue
                    seen.add(k)
                except TypeError:
                    pass
                fresh.append(q)
            live = fresh
            if undecided:
                forks += 1
            if forks >= self.loop_bound or it > 3000:
                if live:
                    self.note("loop bound in " + fr.info.qual)
                    for q in live:
                        if isinstance(n.test, ast.Constant) and n.test.value:
                            continue
                        out.append((q, None))
                break
        return self.merge(out, amark, tmark)

    def s_For(self, n, st, fr):
        amark, tmark = self.next_addr, self.tick
        out = []
        for s, it in self.ev(n.iter, st, fr):
            if isinstance(it, Raise):
                out.append((s, it))
                continue
            self.cur = self.loc(fr, n.iter)
            if isinstance(it, Ref) and s.o(it).kind == "list" or (
                isinstance(it, Ref) and s.o(it).kind == "inst" and s.o(it).items is not None
                and isinstance(s.o(it).items, list) and self.plain_list_iter(s.o(it).cls)
            ):
                live = [s]
                i = 0
                while live:
                    nxt = []
                    for q in live:
                        items = q.o(it).items
                        if i >= len(items):
                            out.extend(self.exec_block(n.orelse, q, fr) if n.orelse else [(q, None)])
                            continue
                        nxt.extend(self._for_step(n, q, fr, items[i], out))
                    i += 1
                    if i > 5000:
                        raise AnalysisLimit("for loop over growing list")
                    live = [q for q, _ in self.merge([(q, None) for q in nxt], amark, tmark)]
                continue
            lazy = self.own_iterator(s, it)
            if lazy is not None:
                for s1, ref in lazy:
                    if isinstance(ref, Raise):
                        out.append((s1, ref))
                    else:
                        self._for_lazy(n, s1, fr, ref, out, amark, tmark)
                continue
            for s1, items in self.iterate(s, it):
                if isinstance(items, Raise):
                    out.append((s1, items))
                    continue
                if isinstance(items, OSeq):
                    self._for_opaque(n, s1, fr, items, out, amark, tmark)
                    continue
                live = [s1]
                for x in items:
                    nxt = []
                    for q in live:
                        nxt.extend(self._for_step(n, q, fr, x, out))
                    live = [q for q, _ in self.merge([(q, None) for q in nxt], amark, tmark)]
                for q in live:
                    out.extend(self.exec_block(n.orelse, q, fr) if n.orelse else [(q, None)])
        return self.merge(out, amark, tmark)

    def own_iterator(self, s, it):
        """the iterators of an object whose class defines __iter__ and whose iterator is stepped by a
        __next__ of the source (so the loop body runs between two steps); None otherwise"""
        if not (isinstance(it, Ref) and s.o(it).kind == "inst" and isinstance(s.o(it).cls, ClassVal)):
            return None
        f, _ = self.find(s.o(it).cls, "__next__")
        g, _ = self.find(s.o(it).cls, "__iter__")
        if not isinstance(f, FuncVal) or not isinstance(g, FuncVal):
            return None
        out = []
        for s1, v in self.call_type_method(s, it, "__iter__", []):
            if isinstance(v, Raise) or isinstance(v, Ref) and s1.o(v).kind == "inst" and isinstance(s1.o(v).cls, ClassVal):
                out.append((s1, v))
            else:
                return None
        return out

    def _for_lazy(self, n, s1, fr, ref, out, amark, tmark):
        live = [s1]
        for step in range(5000):
            nxt = []
            for q in live:
                for s2, x in self.call_type_method(q, ref, "__next__", []):
                    if isinstance(x, Raise):
                        if x.name == "StopIteration":
                            out.extend(self.exec_block(n.orelse, s2, fr) if n.orelse else [(s2, None)])
                        else:
                            out.append((s2, x))
                        continue
                    nxt.extend(self._for_step(n, s2, fr, x, out))
            live = [q for q, _ in self.merge([(q, None) for q in nxt], amark, tmark)]
            if not live:
                return
        raise AnalysisLimit("iterator without end")

    def plain_list_iter(self, cls):
        return isinstance(cls, ClassVal) and self.find(cls, "__iter__")[0] in (None,) or (
            isinstance(cls, ClassVal) and isinstance(self.find(cls, "__iter__")[1], BuiltinClass)
        )

    def _for_step(self, n, q, fr, x, out):
        nxt = []
        for s2, sig in self.assign(n.target, x, q, fr):
            if sig is not None:
                out.append((s2, sig))
                continue
            for s3, sig3 in self.exec_block(n.body, s2, fr):
                if sig3 is None or sig3 is CNT:
                    nxt.append(s3)
                elif sig3 is BRK:
                    out.append((s3, None))
                else:
                    out.append((s3, sig3))
        return nxt

    def _for_opaque(self, n, s1, fr, seq, out, amark, tmark):
        live = [s1]
        seen = set()
        for i in range(self.loop_bound):
            for q in live:
                x = q.fork()
                if x.assume(("lenle", seq.key, i), True) is not False:
                    out.extend(self.exec_block(n.orelse, x, fr) if n.orelse else [(x, None)])
            nxt = []
            for q in live:
                q = q.fork()
                if q.assume(("lenle", seq.key, i), False) is False:
                    continue
                for q2, x in self.seq_elem(q, seq, i):
                    nxt.extend(self._for_step(n, q2, fr, x, out))
            nxt = [q for q, _ in self.merge([(q, None) for q in nxt], amark, tmark)]
            live = []
            for q in nxt:
                try:
                    k = self.skey(q, None, amark, tmark)
                    if k in seen:
                        out.extend([(q, None)])
                        continue
                    seen.add(k)
                except TypeError:
                    pass
                live.append(q)
            if not live:
                return
        if live:
            self.note("loop bound in " + fr.info.qual)
            for q in live:
                q.assume(("lenle", seq.key, self.loop_bound), True)
                out.append((q, None))

    def seq_elem(self, st, seq, i):
        """element i of an unknown sequence -> [(state, value)]"""
        e = seq.elem
        k = (seq.key, i)
        if callable(e):
            return e(self, st, seq, i)
        if e == "str":
            return [(st, Opaque("str", ("elem",) + k))]
        if e == "numstr":
            return [(st, Opaque("numstr", ("elem",) + k))]
        if isinstance(e, tuple) and e[0] == "tuple":
            return [(st, Tup(tuple(Opaque(t, ("elem",) + k + (j,)) for j, t in enumerate(e[1]))))]
        if isinstance(e, tuple) and e[0] == "match":
            return [(st, MatchV(e[1], ("elem",) + k))]
        if e == "num":
            return [(st, Num(Rat(Poly.of(atom(("elem",) + k))), "f"))]
        return [(st, Opaque("any", ("elem",) + k))]

    def s_With(self, n, st, fr):
        cur = [(st, None)]
        exits = []
        for item in n.items:
            nxt = []
            for s, sig in cur:
                if sig is not None:
                    nxt.append((s, sig))
                    continue
                for s1, v in self.ev(item.context_expr, s, fr):
                    if isinstance(v, Raise):
                        nxt.append((s1, v))
                        continue
                    val = v
                    if isinstance(v, Ref) and isinstance(s1.o(v).cls, ClassVal) and self.find(s1.o(v).cls, "__enter__")[0] is not None:
                        for s2, e in self.call_method(s1, v, "__enter__", []):
                            if isinstance(e, Raise):
                                nxt.append((s2, e))
                            elif item.optional_vars is not None:
                                nxt.extend(self.assign(item.optional_vars, e, s2, fr))
                            else:
                                nxt.append((s2, None))
                        exits.append(v)
                        continue
                    if item.optional_vars is not None:
                        nxt.extend(self.assign(item.optional_vars, val, s1, fr))
                    else:
                        nxt.append((s1, None))
            cur = nxt
        out = []
        for s, sig in cur:
            if sig is not None:
                out.append((s, sig))
                continue
            out.extend(self.exec_block(n.body, s, fr))
        for v in reversed(exits):
            nxt = []
            for s, sig in out:
                for s2, e in self.call_method(s, v, "__exit__", [NONE, NONE, NONE]):
                    nxt.append((s2, e if isinstance(e, Raise) else sig))
            out = nxt
        return out

    def s_Assert(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Raise):
                out.append((s, b))
            elif b:
                out.append((s, None))
            else:
                out.append((s, self.exc("AssertionError", "", self.loc(fr, n))))
        return out

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            cur = self.active_exc(st, fr)
            return [(st, cur if cur is not None else self.exc("RuntimeError", "no active exception", self.loc(fr, n)))]
        out = []
        for s, v in self.ev(n.exc, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.append((s, self.to_raise(s, v, self.loc(fr, n))))
        return out

    def to_raise(self, st, v, where):
        if isinstance(v, BuiltinClass) and v.name in EXC:
            return Raise(ExcInst(EXC[v.name], ()), where)
        if isinstance(v, ExcInst):
            return Raise(v, where)
        if isinstance(v, ClassVal):
            return Raise(ExcInst(v, ()), where)
        if isinstance(v, Ref) and isinstance(st.o(v).cls, ClassVal):
            return Raise(ExcInst(st.o(v).cls, ()), where)
        return Raise(ExcInst(Exception, (v,)), where)

    def active_exc(self, st, fr):
        v = st.heap[fr.addr].fields.get("%exc")
        return v.v if isinstance(v, Ret) else None

    def exc_matches(self, st, r, t):
        """does exception r match class value t: True/False/None"""
        if isinstance(t, Tup):
            rs = [self.exc_matches(st, r, x) for x in t.items]
            if True in rs:
                return True
            return None if None in rs else False
        c = r.exc.cls
        if isinstance(t, BuiltinClass) and t.name in EXC:
            tc = EXC[t.name]
            if isinstance(c, type):
                return issubclass(c, tc)
            if isinstance(c, ClassVal):
                return any(isinstance(b, BuiltinClass) and b.name in EXC and issubclass(EXC[b.name], tc) for b in c.mro)
        if isinstance(t, ClassVal):
            if isinstance(c, ClassVal):
                return t in c.mro
            return False
        return None

    def handler_classes(self, n, st, fr):
        out = []
        for h in n.handlers:
            if h.type is None:
                out.append(BaseException)
                continue
            for sub in ast.walk(h.type):
                nm = sub.id if isinstance(sub, ast.Name) else sub.attr if isinstance(sub, ast.Attribute) else None
                if nm in EXC:
                    out.append(EXC[nm])
        return out

    def s_Try(self, n, st, fr):
        amark, tmark = self.next_addr, self.tick
        self.handlers.append(self.handler_classes(n, st, fr))
        try:
            body = self.exec_block(n.body, st, fr)
        finally:
            self.handlers.pop()
        out = []
        for s, sig in body:
            if isinstance(sig, Raise):
                handled = False
                for h in n.handlers:
                    if h.type is None:
                        mt = True
                    else:
                        tv = self.ev(h.type, s, fr)
                        s, t = tv[0]
                        if isinstance(t, Raise):
                            out.append((s, t))
                            handled = True
                            break
                        mt = self.exc_matches(s, sig, t)
                    if mt is False:
                        continue
                    s2 = s.fork() if mt is None else s
                    f = s2.w(Ref(fr.addr)).fields
                    if h.name:
                        f[h.name] = sig.exc
                    old = f.get("%exc")
                    f["%exc"] = Ret(sig)
                    for s3, sig3 in self.exec_block(h.body, s2, fr):
                        f3 = s3.w(Ref(fr.addr)).fields
                        if old is None:
                            f3.pop("%exc", None)
                        else:
                            f3["%exc"] = old
                        if h.name:
                            f3.pop(h.name, None)
                        out.append((s3, sig3))
                    if mt:
                        handled = True
                        break
                if not handled:
                    out.append((s, sig))
            elif sig is None and n.orelse:
                out.extend(self.exec_block(n.orelse, s, fr))
            else:
                out.append((s, sig))
        if n.finalbody:
            fin = []
            for s, sig in out:
                for s2, sig2 in self.exec_block(n.finalbody, s, fr):
                    fin.append((s2, sig if sig2 is None else sig2))
            out = fin
        return self.merge(out, amark, tmark)

    def s_Import(self, n, st, fr):
        cur = [(st, None)]
        for a in n.names:
            nxt = []
            for s, sig in cur:
                if sig is not None:
                    nxt.append((s, sig))
                    continue
                self.cur = self.loc(fr, n)
                for s2, m in self.import_module(s, a.name):
                    if isinstance(m, Raise):
                        nxt.append((s2, m))
                        continue
                    if a.asname:
                        self.store_name(a.asname, m, s2, fr)
                    else:
                        self.store_name(a.name.split(".")[0], ModuleV(a.name.split(".")[0]), s2, fr)
                    nxt.append((s2, None))
            cur = nxt
        return cur

    def repo_module(self, node):
        """name of the package module an ImportFrom refers to, or None"""
        if node.level:
            return node.module or "__init__"
        if node.module == self.package:
            return "__init__"
        if node.module and node.module.startswith(self.package + "."):
            return node.module.split(".", 1)[1]
        return None

    def s_ImportFrom(self, n, st, fr):
        rm = self.repo_module(n)
        self.cur = self.loc(fr, n)
        if rm is not None:
            cur = st
            if rm == "__init__" and n.module in (None, self.package):
                # from . import x
                for a in n.names:
                    if os.path.exists(self.module_path(a.name)):
                        cur = self.load_module(cur, a.name)
                        self.store_name(a.asname or a.name, ModuleV("%repo." + a.name), cur, fr)
                return [(cur, None)]
            if not os.path.exists(self.module_path(rm)):
                return self.throws_sig(st, "ImportError", rm)
            cur = self.load_module(cur, rm)
            mod = cur.o(self.modules[rm])
            for a in n.names:
                if a.name == "*":
                    allv = mod.fields.get("__all__")
                    for k, v in list(mod.fields.items()):
                        if not k.startswith("_"):
                            self.store_name(k, v, cur, fr)
                elif a.name in mod.fields:
                    self.store_name(a.asname or a.name, mod.fields[a.name], cur, fr)
                else:
                    return self.throws_sig(cur, "ImportError", "%s.%s" % (rm, a.name))
            return [(cur, None)]
        if n.module == "__future__":
            return [(st, None)]
        out = []
        for s, m in self.import_module(st, n.module):
            if isinstance(m, Raise):
                out.append((s, m))
                continue
            sig = None
            for a in n.names:
                if a.name == "*":
                    self.note("star import " + n.module)
                    continue
                v = self.M.module_attr(self, s, m, a.name)
                if v is None:
                    sub = self.find_std(n.module + "." + a.name)
                    if sub:
                        v = ModuleV(n.module + "." + a.name)
                if v is None:
                    sig = self.exc("ImportError", "%s.%s" % (n.module, a.name))
                    break
                self.store_name(a.asname or a.name, v, s, fr)
            out.append((s, sig))
        return out

    def throws_sig(self, st, name, msg):
        return [(st, self.exc(name, msg))]

    def find_std(self, name):
        try:
            return importlib.util.find_spec(name) is not None
        except (ImportError, ValueError, AttributeError):
            return False

    def import_module(self, st, name):
        top = name.split(".")[0]
        if top == self.package:
            rest = name.split(".", 1)[1] if "." in name else "__init__"
            st = self.load_module(st, rest)
            return [(st, ModuleV("%repo." + rest))]
        if top in self.missing:
            return self.throws(st, "ImportError", name)
        if top in self.present:
            return [(st, ModuleV(name))]
        if top in sys.stdlib_module_names:
            if not self.find_std(name):
                return self.throws(st, "ImportError", name)
            return [(st, ModuleV(name))]
        if self.at_load is not None:
            return [(st, ModuleV(name))] if self.at_load else self.throws(st, "ImportError", name)
        # third party without a model: present or absent, both configurations
        res = []
        k = ("import", top)
        a = st.fork()
        if a.assume(k, True):
            res.append((a, ModuleV(name)))
        b = st.fork()
        if b.assume(k, False):
            res.append((b, self.exc("ImportError", name)))
        return res

    def s_FunctionDef(self, n, st, fr):
        out = []
        for s, f in self.make_function(n, st, fr):
            if isinstance(f, Raise):
                out.append((s, f))
                continue
            cur = [(s, f)]
            for d in reversed(n.decorator_list):
                nxt = []
                for s1, v in cur:
                    if isinstance(v, Raise):
                        nxt.append((s1, v))
                        continue
                    for s2, dv in self.ev(d, s1, fr):
                        if isinstance(dv, Raise):
                            nxt.append((s2, dv))
                        else:
                            nxt.extend(self.decorate(s2, dv, v))
                cur = nxt
            for s1, v in cur:
                if isinstance(v, Raise):
                    out.append((s1, v))
                else:
                    self.store_name(n.name, v, s1, fr)
                    out.append((s1, None))
        return out

    def decorate(self, st, dv, v):
        if isinstance(dv, BuiltinClass):
            if dv.name == "staticmethod":
                return [(st, StaticM(v))]
            if dv.name == "classmethod":
                return [(st, ClassM(v))]
            if dv.name == "property":
                return [(st, Prop(v, None, None))]
        if isinstance(dv, PropPart):
            p = dv.prop
            if dv.part == "setter":
                return [(st, Prop(p.fget, v, p.fdel))]
            if dv.part == "getter":
                return [(st, Prop(v, p.fset, p.fdel))]
            return [(st, Prop(p.fget, p.fset, v))]
        if isinstance(dv, (Builtin, ModuleV)) or isinstance(dv, (Opaque, BoundBuiltin)):
            nm = getattr(dv, "name", "")
            if "lru_cache" in str(nm) or "cache" in str(nm) or "wraps" in str(nm) or "abstractmethod" in str(nm):
                return [(st, v)]
            self.note("decorator %r" % (dv,))
            return [(st, v)]
        return self.call(st, dv, [v], {})

    def make_function(self, n, st, fr):
        a = n.args
        dn = list(a.defaults)
        kn = [d for d in a.kw_defaults if d is not None]
        out = []
        for s, vs in self.evs(dn + kn, st, fr):
            if isinstance(vs, Raise):
                out.append((s, vs))
                continue
            defaults = tuple(vs[: len(dn)])
            it = iter(vs[len(dn):])
            kwd = tuple(next(it) if d is not None else None for d in a.kw_defaults)
            info = self.func_info(n, fr)
            closure = None if fr.classbody and st.heap[fr.addr].kind in ("module",) else fr.addr
            if fr.classbody is True:
                # class scope is not visible from functions
                closure = st.heap[fr.addr].meta if st.heap[fr.addr].kind == "frame" else None
            if closure is not None and closure in s.heap and s.heap[closure].kind == "frame":
                s.w(Ref(closure)).fields["%captured"] = TRUE
            out.append((s, FuncVal(info, defaults, kwd, closure)))
        return out

    def func_info(self, n, fr):
        name = getattr(n, "name", "<lambda>")
        cached = getattr(n, "_fi", None)
        if cached is not None and cached.cls == fr.cls:
            return cached
        loc, gl, nl = assigned_names(n)
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            loc.add(x.arg)
        if a.vararg:
            loc.add(a.vararg.arg)
        if a.kwarg:
            loc.add(a.kwarg.arg)
        if fr.cls:
            loc = {mangle(fr.cls, x) for x in loc}
        qual = "%s.%s" % (fr.info.qual, name)
        # property setters share the name of the getter
        fi = FuncInfo(n, fr.info.module, fr.cls, qual, loc, not isinstance(n, ast.Lambda) and has_yield(n), fr.info)
        n._fi = fi
        k = qual
        i = 2
        while k in self.functions and self.functions[k].node is not n:
            k = "%s#%d" % (qual, i)
            i += 1
        fi.qual = k
        self.functions[k] = fi
        return fi

    def s_ClassDef(self, n, st, fr):
        out = []
        for s, bases in self.evs(n.bases, st, fr):
            if isinstance(bases, Raise):
                out.append((s, bases))
                continue
            cv = ClassVal(n.name, fr.info.module, n, bases)
            qual = "%s.%s" % (fr.info.qual, n.name)
            try:
                cv.mro = self.c3(cv)
            except TypeError as e:
                out.append((s, self.exc("TypeError", str(e), self.loc(fr, n))))
                continue
            fi = FuncInfo(n, fr.info.module, n.name, qual, set(), False, fr.info)
            meta = fr.addr if s.heap[fr.addr].kind == "frame" else None
            ref = s.alloc(Obj("frame", None, {"__module__": Const(self.package + "." + fr.info.module), "__qualname__": Const(n.name)}, None, meta))
            cfr = Fr(ref.addr, fi, fr.gl, n.name, True)
            for s2, sig in self.exec_block(n.body, s, cfr):
                if sig is not None:
                    out.append((s2, sig))
                    continue
                cv2 = cv
                cv2.dict = dict(s2.o(ref).fields)
                cv2.dict.pop("%captured", None)
                s2.heap.pop(ref.addr, None)
                self.classes["%s.%s" % (fr.info.module, n.name)] = cv2
                for v in cv2.dict.values():
                    for f in self.funcs_of(v):
                        f.info.owner = cv2
                cur = [(s2, cv2)]
                for d in reversed(n.decorator_list):
                    nxt = []
                    for s3, v in cur:
                        for s4, dv in self.ev(d, s3, fr):
                            if isinstance(dv, Raise):
                                nxt.append((s4, dv))
                            elif isinstance(dv, FuncVal):
                                nxt.extend(self.call(s4, dv, [v], {}))
                            else:
                                self.note("class decorator %r" % (dv,))
                                nxt.append((s4, v))
                    cur = nxt
                for s3, v in cur:
                    if isinstance(v, Raise):
                        out.append((s3, v))
                    else:
                        self.store_name(n.name, v, s3, fr)
                        out.append((s3, None))
        return out

    def funcs_of(self, v):
        if isinstance(v, FuncVal):
            return [v]
        if isinstance(v, (StaticM, ClassM)):
            return self.funcs_of(v.fn)
        if isinstance(v, Prop):
            return [f for x in (v.fget, v.fset, v.fdel) for f in self.funcs_of(x)]
        return []

    def mro_of(self, b):
        if isinstance(b, ClassVal):
            return list(b.mro)
        if isinstance(b, BuiltinClass):
            if b.name == "object":
                return [OBJECT]
            ext = self.M.builtin_mro(self, b)
            if ext is not None:
                return ext
            py = PYTYPES.get(b.name)
            if py is not None:
                return [BuiltinClass(c.__name__) for c in py.__mro__]
            return [b, OBJECT]
        return [OBJECT]

    def c3(self, cv):
        bases = list(cv.bases) or [OBJECT]
        bases = [b for b in bases if isinstance(b, (ClassVal, BuiltinClass))] or [OBJECT]
        seqs = [self.mro_of(b) for b in bases] + [list(bases)]
        res = [cv]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise TypeError("Cannot create a consistent method resolution order (MRO)")
            res.append(c)
            for s in seqs:
                if s[0] == c:
                    del s[0]

    def s_Match(self, n, st, fr):
        self.note("match statement")
        return [(st, None)]

    # ---------------------------------------------------------------- expr
    def ev(self, n, st, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            self.note("expression " + type(n).__name__)
            return [(st, self.fresh("expr"))]
        return m(n, st, fr)

    def evs(self, nodes, st, fr):
        """evaluate left to right -> [(state, [values]) | (state, Raise)]"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if isinstance(vs, Raise):
                    nxt.append((s, vs))
                    continue
                rs = self.ev(n, s, fr)
                for s2, v in rs:
                    nxt.append((s2, v if isinstance(v, Raise) else vs + [v]))
            cur = nxt
        return cur

    def cond(self, n, st, fr):
        """truth of an expression -> [(state, bool | Raise)]"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur = [(st, isand)]
            for x in n.values:
                nxt = []
                for s, b in cur:
                    if isinstance(b, Raise) or b is not isand:
                        nxt.append((s, b))
                    else:
                        nxt.extend(self.cond(x, s, fr))
                cur = nxt
            return cur
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, b if isinstance(b, Raise) else not b) for s, b in self.cond(n.operand, st, fr)]
        out = []
        for s, v in self.ev(n, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                self.cur = self.loc(fr, n)
                out.extend(self.truth(s, v))
        return out

    def truth(self, st, v):
        if isinstance(v, Const):
            return [(st, bool(v.v))]
        if isinstance(v, Num):
            if not isinstance(v.k, str):
                f, owner = self.find(v.k, "__bool__")
                if isinstance(f, FuncVal):
                    return self.truth_of_call(st, self.call(st, f, [v], {}))
            return self.branch(st, ("eq", v.r), True)
        if isinstance(v, BoolV):
            return self.branch(st, v.atom, v.neg)
        if isinstance(v, Tup):
            return [(st, bool(v.items))]
        if isinstance(v, Text):
            if any(isinstance(p, (str, NumPiece)) and p != "" for p in v.pieces):
                return [(st, True)]
            return self.branch(st, ("ceq", v, Const("")), True)
        if isinstance(v, Cx):
            if v.re.cval() is not None and v.im.cval() is not None:
                return [(st, v.re.cval() != 0 or v.im.cval() != 0)]
            return self.branch(st, ("true", v), False)
        if isinstance(v, Opaque):
            if v.key in st.csub:
                return [(st, bool(st.csub[v.key].v))]
            if v.t in ("str", "numstr"):
                if v.t == "numstr":
                    return [(st, True)]
                return self.branch(st, ("ceq", v.key, Const("")), True)
            if v.t == "object":
                return [(st, True)]
            return self.branch(st, ("true", v.key), False)
        if isinstance(v, OSeq):
            return self.branch(st, ("lenle", v.key, 0), True)
        if isinstance(v, Ref):
            o = st.o(v)
            if o.kind in ("list", "dict", "set"):
                if o.fields.get("open"):
                    if o.items:
                        return [(st, True)]
                    return self.branch(st, ("true", ("open", o.fields["open"])), False)
                return [(st, bool(o.items))]
            if o.kind == "nd":
                return [(st, bool(o.items))]
            if isinstance(o.cls, ClassVal):
                f, owner = self.find(o.cls, "__bool__")
                if f is not None and isinstance(f, FuncVal):
                    return self.truth_of_call(st, self.call(st, f, [v], {}))
                f, owner = self.find(o.cls, "__len__")
                if isinstance(f, FuncVal):
                    return self.truth_of_call(st, self.call(st, f, [v], {}))
                if o.items is not None:
                    return [(st, bool(o.items))]
            return [(st, True)]
        if isinstance(v, Bits):
            if all(b == 0 for b in v.bits) and v.sign == 0:
                return [(st, False)]
            if any(b == 1 for b in v.bits) or v.sign == 1:
                return [(st, True)]
            return self.branch(st, ("true", v), False)
        return [(st, True)]

    def truth_of_call(self, st, rs):
        out = []
        for s, v in rs:
            out.extend([(s, v)] if isinstance(v, Raise) else self.truth(s, v))
        return out

    def branch(self, st, at, neg):
        d = st.decide(at)
        if d is not None:
            return [(st, d != neg)]
        out = []
        a = st.fork()
        if a.assume(at, True):
            out.append((a, not neg))
        b = st.fork()
        if b.assume(at, False):
            out.append((b, neg))
        return out

    def notv(self, v):
        if isinstance(v, Const):
            return B(not v.v)
        if isinstance(v, BoolV):
            return BoolV(v.atom, not v.neg)
        return None

    def e_Constant(self, n, st, fr):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
            return [(st, Const(v))]
        if isinstance(v, int):
            return [(st, num(v, "i"))]
        if isinstance(v, float):
            return [(st, num(v, "f"))]
        if isinstance(v, complex):
            return [(st, Cx(R(v.real), R(v.imag)))]
        return [(st, self.fresh("const"))]

    def e_Name(self, n, st, fr):
        name = mangle(fr.cls, n.id) if fr.cls else n.id
        v = self.lookup(name, st, fr)
        if v is None:
            self.cur = self.loc(fr, n)
            kind = "UnboundLocalError" if (not fr.classbody and name in fr.info.locals) else "NameError"
            return self.throws(st, kind, name)
        return [(st, self.resolve(st, v))]

    def resolve(self, st, v):
        """apply constant refinements"""
        if isinstance(v, Opaque):
            c = st.csub.get(v.key)
            if c is not None:
                return c
        return v

    def lookup(self, name, st, fr):
        f = st.heap[fr.addr]
        if name in f.fields:
            return f.fields[name]
        if not fr.classbody and name in fr.info.locals:
            return None
        c = f.meta if f.kind == "frame" else None
        while c is not None and c in st.heap:
            g = st.heap[c]
            if name in g.fields:
                return g.fields[name]
            c = g.meta if g.kind == "frame" else None
        g = st.heap[fr.gl].fields
        if name in g:
            return g[name]
        return self.M.builtin(self, name)

    def e_NamedExpr(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            if not isinstance(v, Raise):
                self.store_name(n.target.id, v, s, fr)
            out.append((s, v))
        return out

    def e_Attribute(self, n, st, fr):
        out = []
        for s, o in self.ev(n.value, st, fr):
            if isinstance(o, Raise):
                out.append((s, o))
            else:
                self.cur = self.loc(fr, n)
                out.extend(self.get_attr(s, o, mangle(fr.cls, n.attr)))
        return out

    def e_Subscript(self, n, st, fr):
        out = []
        for s, vs in self.evs([n.value, n.slice], st, fr):
            if isinstance(vs, Raise):
                out.append((s, vs))
            else:
                self.cur = self.loc(fr, n)
                out.extend(self.get_item(s, vs[0], vs[1]))
        return out

    def e_Slice(self, n, st, fr):
        parts = [p if p is not None else ast.Constant(None) for p in (n.lower, n.upper, n.step)]
        return [(s, v if isinstance(v, Raise) else SliceV(*v)) for s, v in self.evs(parts, st, fr)]

    def e_Tuple(self, n, st, fr):
        return [(s, v if isinstance(v, Raise) else Tup(tuple(v))) for s, v in self.ev_star(n.elts, st, fr)]

    def e_List(self, n, st, fr):
        return [(s, v if isinstance(v, Raise) else s.list(v)) for s, v in self.ev_star(n.elts, st, fr)]

    def e_Set(self, n, st, fr):
        out = []
        for s, v in self.ev_star(n.elts, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.append((s, s.alloc(Obj("set", SET, {}, {hkey(x): (x, TRUE) for x in v}))))
        return out

    def ev_star(self, elts, st, fr):
        cur = [(st, [])]
        for e in elts:
            nxt = []
            for s, vs in cur:
                if isinstance(vs, Raise):
                    nxt.append((s, vs))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, fr):
                        if isinstance(v, Raise):
                            nxt.append((s2, v))
                            continue
                        for s3, items in self.iterate(s2, v):
                            if isinstance(items, Raise):
                                nxt.append((s3, items))
                            elif isinstance(items, OSeq):
                                nxt.append((s3, vs + [Opaque("star", items)]))
                            else:
                                nxt.append((s3, vs + list(items)))
                else:
                    for s2, v in self.ev(e, s, fr):
                        nxt.append((s2, v if isinstance(v, Raise) else vs + [v]))
            cur = nxt
        return cur

    def e_Dict(self, n, st, fr):
        cur = [(st, [])]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, ps in cur:
                if isinstance(ps, Raise):
                    nxt.append((s, ps))
                    continue
                if k is None:
                    for s2, d in self.ev(v, s, fr):
                        if isinstance(d, Raise):
                            nxt.append((s2, d))
                        elif isinstance(d, Ref) and s2.o(d).kind == "dict":
                            nxt.append((s2, ps + list(s2.o(d).items.values())))
                        else:
                            nxt.append((s2, ps))
                    continue
                for s2, kv in self.evs([k, v], s, fr):
                    nxt.append((s2, kv if isinstance(kv, Raise) else ps + [tuple(kv)]))
            cur = nxt
        return [(s, p if isinstance(p, Raise) else s.dict(p)) for s, p in cur]

    def e_JoinedStr(self, n, st, fr):
        cur = [(st, [])]
        for v in n.values:
            nxt = []
            for s, ps in cur:
                if isinstance(ps, Raise):
                    nxt.append((s, ps))
                    continue
                if isinstance(v, ast.Constant):
                    nxt.append((s, ps + [Const(v.value)]))
                    continue
                for s2, x in self.ev(v.value, s, fr):
                    if isinstance(x, Raise):
                        nxt.append((s2, x))
                        continue
                    spec = ""
                    if v.format_spec is not None:
                        for s3, sp in self.ev(v.format_spec, s2, fr):
                            s2 = s3
                            if isinstance(sp, Const):
                                spec = sp.v
                            else:
                                spec = None
                    if spec is None:
                        nxt.append((s2, ps + [self.fresh("fmt")]))
                        continue
                    conv = {115: "str", 114: "repr", 97: "repr"}.get(v.conversion)
                    if spec and conv is None:
                        rs = self.M.format_value(self, s2, x, spec)
                    elif conv == "repr":
                        rs = self.M.to_repr(self, s2, x)
                    else:
                        rs = self.M.to_str(self, s2, x)
                    for s3, y in rs:
                        nxt.append((s3, y if isinstance(y, Raise) else ps + [y]))
            cur = nxt
        return [(s, p if isinstance(p, Raise) else self.M.concat(p)) for s, p in cur]

    def e_FormattedValue(self, n, st, fr):
        return self.e_JoinedStr(ast.JoinedStr([n]), st, fr)

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        out = []
        cur = [st]
        last = len(n.values) - 1
        for i, x in enumerate(n.values):
            nxt = []
            for s in cur:
                for s2, v in self.ev(x, s, fr):
                    if isinstance(v, Raise) or i == last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v):
                        if isinstance(b, Raise):
                            out.append((s3, b))
                        elif b is isand:
                            nxt.append(s3)
                        else:
                            r = self.resolve(s3, v)
                            if isinstance(r, BoolV):
                                r = B(b)
                            out.append((s3, r))
            cur = nxt
        return out

    def e_UnaryOp(self, n, st, fr):
        out = []
        if isinstance(n.op, ast.Not):
            for s, v in self.ev(n.operand, st, fr):
                if isinstance(v, Raise):
                    out.append((s, v))
                    continue
                q = self.notv(v)
                if q is not None:
                    out.append((s, q))
                    continue
                for s2, b in self.truth(s, v):
                    out.append((s2, b if isinstance(b, Raise) else B(not b)))
            return out
        for s, v in self.ev(n.operand, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            self.cur = self.loc(fr, n)
            out.extend(self.unary(s, type(n.op).__name__, v))
        return out

    def e_BinOp(self, n, st, fr):
        out = []
        for s, vs in self.evs([n.left, n.right], st, fr):
            if isinstance(vs, Raise):
                out.append((s, vs))
            else:
                self.cur = self.loc(fr, n)
                out.extend(self.binop(s, type(n.op).__name__, vs[0], vs[1]))
        return out

    def e_Compare(self, n, st, fr):
        out = []
        cur = [(st, None)]
        for s, l in self.ev(n.left, st, fr):
            if isinstance(l, Raise):
                out.append((s, l))
                continue
            live = [(s, l)]
            for i, (op, rn) in enumerate(zip(n.ops, n.comparators)):
                nxt = []
                for s1, lv in live:
                    for s2, rv in self.ev(rn, s1, fr):
                        if isinstance(rv, Raise):
                            out.append((s2, rv))
                            continue
                        self.cur = self.loc(fr, n)
                        lv2, rv2 = self.resolve(s2, lv), self.resolve(s2, rv)
                        for s3, b in self.compare(s2, type(op).__name__, lv2, rv2):
                            if isinstance(b, Raise) or i == len(n.ops) - 1:
                                out.append((s3, b))
                                continue
                            for s4, t in self.truth(s3, b):
                                if isinstance(t, Raise):
                                    out.append((s4, t))
                                elif not t:
                                    out.append((s4, FALSE))
                                else:
                                    nxt.append((s4, rv))
                live = nxt
        return out

    def e_IfExp(self, n, st, fr):
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Raise):
                out.append((s, b))
            else:
                out.extend(self.ev(n.body if b else n.orelse, s, fr))
        return out

    def e_Lambda(self, n, st, fr):
        return self.make_function(n, st, fr)

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Call(self, n, st, fr):
        out = []
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args and self.lookup("super", st, fr) == BuiltinClass("super"):
            owner = getattr(fr.info, "owner", None)
            p = fr.info
            while owner is None and p is not None:
                p = p.parent
                owner = getattr(p, "owner", None) if p else None
            if owner is None and fr.cls:
                owner = self.classes.get("%s.%s" % (fr.info.module, fr.cls))
            a = fr.info.node.args
            first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
            recv = st.heap[fr.addr].fields.get(first)
            return [(st, SuperV(owner, recv))]
        for s, f in self.ev(n.func, st, fr):
            if isinstance(f, Raise):
                out.append((s, f))
                continue
            for s2, args in self.ev_star(n.args, s, fr):
                if isinstance(args, Raise):
                    out.append((s2, args))
                    continue
                for s3, kw in self.ev_kw(n.keywords, s2, fr):
                    if isinstance(kw, Raise):
                        out.append((s3, kw))
                        continue
                    self.cur = self.loc(fr, n)
                    args2 = [self.resolve(s3, a) for a in args]
                    out.extend(self.call(s3, f, args2, kw))
        if len(out) > 8:
            if len(out) > self.max_states:
                raise AnalysisLimit("more than %d partitions" % self.max_states)
        return out

    def ev_kw(self, kws, st, fr):
        cur = [(st, {})]
        for k in kws:
            nxt = []
            for s, d in cur:
                if isinstance(d, Raise):
                    nxt.append((s, d))
                    continue
                for s2, v in self.ev(k.value, s, fr):
                    if isinstance(v, Raise):
                        nxt.append((s2, v))
                        continue
                    d2 = dict(d)
                    if k.arg is None:
                        if isinstance(v, Ref) and s2.o(v).kind == "dict":
                            for kk, vv in s2.o(v).items.values():
                                if isinstance(kk, Const):
                                    d2[kk.v] = vv
                            if s2.o(v).fields.get("open"):
                                d2["**"] = v
                        else:
                            d2["**"] = v
                    else:
                        d2[k.arg] = v
                    nxt.append((s2, d2))
            cur = nxt
        return cur

    def comp(self, n, st, fr, kind):
        ref = st.alloc(Obj("frame", None, {}, None, fr.addr))
        cf = Fr(ref.addr, fr.info, fr.gl, fr.cls)
        cf.classbody = "comp"  # names resolve through the frame chain
        res = [(st, [])]
        res = self._comp(n, 0, st, fr, cf, [])
        out = []
        for s, items in res:
            if not isinstance(items, Raise):
                s.heap.pop(ref.addr, None) if not s.heap[ref.addr].fields.get("%captured") else None
            out.append((s, items))
        return out

    def _comp(self, n, gi, st, fr, cf, acc):
        """-> [(state, items|Raise)]"""
        if gi == len(n.generators):
            out = []
            if isinstance(n, ast.DictComp):
                for s, kv in self.evs([n.key, n.value], st, cf):
                    out.append((s, kv if isinstance(kv, Raise) else acc + [tuple(kv)]))
            else:
                for s, v in self.ev(n.elt, st, cf):
                    out.append((s, v if isinstance(v, Raise) else acc + [v]))
            return out
        g = n.generators[gi]
        out = []
        amark, tmark = self.next_addr, self.tick
        for s, it in self.ev(g.iter, st, fr if gi == 0 else cf):
            if isinstance(it, Raise):
                out.append((s, it))
                continue
            for s1, items in self.iterate(s, it):
                if isinstance(items, Raise):
                    out.append((s1, items))
                    continue
                if isinstance(items, OSeq):
                    out.extend(self._comp_opaque(n, gi, s1, fr, cf, acc, items))
                    continue
                live = [(s1, list(acc))]
                for x in items:
                    nxt = []
                    for q, a in live:
                        for q2, sig in self.assign(g.target, x, q, cf):
                            if sig is not None:
                                out.append((q2, sig))
                                continue
                            conds = [(q2, True)]
                            for c in g.ifs:
                                cn = []
                                for q3, b in conds:
                                    if b is not True:
                                        cn.append((q3, b))
                                    else:
                                        cn.extend(self.cond(c, q3, cf))
                                conds = cn
                            for q3, b in conds:
                                if isinstance(b, Raise):
                                    out.append((q3, b))
                                elif not b:
                                    nxt.append((q3, a))
                                else:
                                    for q4, r in self._comp(n, gi + 1, q3, fr, cf, a):
                                        if isinstance(r, Raise):
                                            out.append((q4, r))
                                        else:
                                            nxt.append((q4, r))
                    if len(nxt) > self.max_states:
                        raise AnalysisLimit("comprehension partitions")
                    live = nxt
                out.extend(live)
        return out

    def _comp_opaque(self, n, gi, st, fr, cf, acc, seq):
        """comprehension over an unknown sequence: element-wise image"""
        g = n.generators[gi]
        I = self

        def elem(I_, s, sq, i):
            outs = []
            for s1, x in I.seq_elem(s, seq, i):
                ref = s1.alloc(Obj("frame", None, {}, None, fr.addr))
                c2 = Fr(ref.addr, fr.info, fr.gl, fr.cls)
                c2.classbody = "comp"
                for s2, sig in I.assign(g.target, x, s1, c2):
                    if sig is not None:
                        outs.append((s2, sig))
                        continue
                    outs.extend(I.ev(n.elt, s2, c2))
            return outs

        if gi == len(n.generators) - 1 and not isinstance(n, ast.DictComp) and not acc and not g.ifs:
            probe = elem(self, st.fork(), seq, 0)
            bad = [(s, v) for s, v in probe if isinstance(v, Raise)]
            return bad + [(st, OSeq(("comp", seq.key, id(n)), elem))]
        self.note("comprehension over unknown sequence")
        return [(st, OSeq(("comp", seq.key, id(n)), "any"))]

    def e_ListComp(self, n, st, fr):
        return [
            (s, v if isinstance(v, (Raise, OSeq)) else s.list(v)) for s, v in self.comp(n, st, fr, "list")
        ]

    def e_GeneratorExp(self, n, st, fr):
        return [
            (s, v if isinstance(v, (Raise, OSeq)) else s.alloc(Obj("iter", BuiltinClass("generator"), {"pos": num(0)}, list(v))))
            for s, v in self.comp(n, st, fr, "gen")
        ]

    def e_SetComp(self, n, st, fr):
        return [
            (s, v if isinstance(v, (Raise, OSeq)) else s.alloc(Obj("set", SET, {}, {hkey(x): (x, TRUE) for x in v})))
            for s, v in self.comp(n, st, fr, "set")
        ]

    def e_DictComp(self, n, st, fr):
        return [
            (s, v if isinstance(v, (Raise, OSeq)) else s.dict(v)) for s, v in self.comp(n, st, fr, "dict")
        ]

    def e_Yield(self, n, st, fr):
        out = []
        rs = self.ev(n.value, st, fr) if n.value is not None else [(st, NONE)]
        for s, v in rs:
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            f = s.w(Ref(fr.addr)).fields
            f["%yield"] = Tup(f["%yield"].items + (v,)) if "%yield" in f else Tup((v,))
            if len(f["%yield"].items) > 5000:
                raise AnalysisLimit("generator")
            out.append((s, NONE))
        return out

    def e_YieldFrom(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            for s2, items in self.iterate(s, v):
                if isinstance(items, Raise):
                    out.append((s2, items))
                    continue
                f = s2.w(Ref(fr.addr)).fields
                f["%yield"] = Tup((f["%yield"].items if "%yield" in f else ()) + tuple(items))
                out.append((s2, NONE))
        return out

    # ---------------------------------------------------------------- classes
    def find(self, cls, name, after=None):
        """MRO lookup -> (value, owner) or (None, None)"""
        mro = cls.mro if isinstance(cls, ClassVal) else self.mro_of(cls)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            if isinstance(c, ClassVal):
                if name in c.dict:
                    return c.dict[name], c
            else:
                v = self.M.builtin_class_attr(self, c, name)
                if v is not None:
                    return v, c
        return None, None

    def type_of(self, st, v):
        if isinstance(v, Const):
            if v.v is None:
                return BuiltinClass("NoneType")
            return BuiltinClass(type(v.v).__name__)
        if isinstance(v, Num):
            if isinstance(v.k, ClassVal):
                return v.k
            return BuiltinClass("int" if v.k == "i" else "float")
        if isinstance(v, Bits):
            return BuiltinClass("int")
        if isinstance(v, Cx):
            return BuiltinClass("complex")
        if isinstance(v, Tup):
            return BuiltinClass("tuple")
        if isinstance(v, Text):
            return BuiltinClass("str")
        if isinstance(v, BoolV):
            return BuiltinClass("bool")
        if isinstance(v, SliceV):
            return BuiltinClass("slice")
        if isinstance(v, Opaque):
            if v.t in ("str", "numstr"):
                return BuiltinClass("str")
            if v.t == "bytes":
                return BuiltinClass("bytes")
            if v.t in ("dict", "list"):
                return BuiltinClass(v.t)
            return None
        if isinstance(v, OSeq):
            return BuiltinClass("list")
        if isinstance(v, ExcInst):
            return v.cls if isinstance(v.cls, ClassVal) else BuiltinClass(v.cls.__name__)
        if isinstance(v, Ref):
            o = st.o(v)
            if o.cls is not None:
                return o.cls
            return BuiltinClass("object")
        if isinstance(v, (FuncVal, Builtin)):
            return BuiltinClass("function")
        if isinstance(v, (BoundMethod, BoundBuiltin)):
            return BuiltinClass("method")
        if isinstance(v, (ClassVal, BuiltinClass)):
            return BuiltinClass("type")
        return None

    def is_subclass(self, t, c):
        """t, c class values -> True/False/None"""
        if t is None:
            return None
        if isinstance(c, Tup):
            rs = [self.is_subclass(t, x) for x in c.items]
            if True in rs:
                return True
            return None if None in rs else False
        if isinstance(c, ClassVal):
            if isinstance(t, ClassVal):
                return c in t.mro
            return False
        if isinstance(c, BuiltinClass):
            r = self.M.builtin_subclass(self, t, c)
            return r
        return None

    def isinstance_(self, st, v, c):
        if isinstance(v, Num) and v.k == "n":
            if isinstance(c, Tup):
                rs = [self.isinstance_(st, v, x) for x in c.items]
                if True in rs:
                    return True
                a = {x.name for x in c.items if isinstance(x, BuiltinClass)}
                if {"int", "float"} <= a:
                    return True
                return None if None in rs else False
            if isinstance(c, BuiltinClass) and c.name in ("int", "float"):
                return None
        t = self.type_of(st, v)
        if t is None and isinstance(v, Opaque):
            return None
        return self.is_subclass(t, c)

    # ---------------------------------------------------------------- attributes
    def bind(self, st, v, owner, recv, cls):
        """descriptor protocol for a class attribute found on recv's class"""
        if isinstance(v, FuncVal):
            return [(st, BoundMethod(v, recv))]
        if isinstance(v, StaticM):
            return [(st, v.fn)]
        if isinstance(v, ClassM):
            return [(st, BoundMethod(v.fn, cls))]
        if isinstance(v, Prop):
            if v.fget is None:
                return self.throws(st, "AttributeError", "unreadable property")
            return self.call(st, v.fget, [recv], {})
        if isinstance(v, Builtin) and isinstance(owner, BuiltinClass):
            nm = v.name.split(".")[-1]
            return [(st, BoundBuiltin(recv, nm))]
        if isinstance(v, Builtin) and isinstance(owner, ClassVal):
            return [(st, v)]
        if isinstance(v, Partial):
            return [(st, v)]
        return [(st, v)]

    def get_attr(self, st, v, name):
        v = self.resolve(st, v)
        if isinstance(v, Ref):
            o = st.o(v)
            if isinstance(o.cls, ClassVal):
                g, owner = self.find(o.cls, "__getattribute__")
                if isinstance(g, FuncVal):
                    return self.getattr_fallback(st, v, o.cls, name, self.call(st, g, [v, Const(name)], {}))
                return self.getattr_fallback(st, v, o.cls, name, self.generic_getattr(st, v, name))
            return self.M.builtin_getattr(self, st, v, name)
        if isinstance(v, Num) and isinstance(v.k, ClassVal):
            return self.generic_getattr(st, v, name)
        if isinstance(v, ClassVal):
            k = (v.qual, name)
            for c in v.mro:
                if isinstance(c, ClassVal) and (c.qual, name) in st.over:
                    return [(st, st.over[(c.qual, name)])]
            x, owner = self.find(v, name)
            if x is None:
                if name == "__name__":
                    return [(st, Const(v.name))]
                if name == "__dict__":
                    return [(st, st.dict([(Const(a), b) for a, b in v.dict.items()]))]
                if name == "__mro__":
                    return [(st, Tup(tuple(v.mro)))]
                if name in ("__qualname__", "__module__", "__doc__"):
                    return [(st, Const(v.name))]
                return self.throws(st, "AttributeError", "class %s has no attribute %s" % (v.name, name))
            if isinstance(x, StaticM):
                return [(st, x.fn)]
            if isinstance(x, ClassM):
                return [(st, BoundMethod(x.fn, v))]
            if isinstance(x, Builtin) and isinstance(owner, BuiltinClass):
                return [(st, Builtin("%s.%s" % (owner.name, x.name.split(".")[-1])))]
            return [(st, x)]
        if isinstance(v, SuperV):
            return self.super_attr(st, v, name)
        if isinstance(v, ModuleV):
            if v.name.startswith("%repo."):
                m = st.o(self.modules[v.name[6:]]).fields
                if name in m:
                    return [(st, m[name])]
                return self.throws(st, "AttributeError", "module %s has no attribute %s" % (v.name[6:], name))
            a = self.M.module_attr(self, st, v, name)
            if a is None:
                if self.find_std(v.name + "." + name):
                    return [(st, ModuleV(v.name + "." + name))]
                return self.throws(st, "AttributeError", "module %s has no attribute %s" % (v.name, name))
            return [(st, a)]
        if isinstance(v, Prop):
            if name in ("setter", "getter", "deleter"):
                return [(st, PropPart(v, name))]
            if name == "fget":
                return [(st, v.fget)]
            if name == "fset":
                return [(st, v.fset or NONE)]
        return self.M.builtin_getattr(self, st, v, name)

    def getattr_fallback(self, st0, v, cls, name, rs):
        f, owner = self.find(cls, "__getattr__")
        if not isinstance(f, FuncVal):
            return rs
        out = []
        for s, r in rs:
            if isinstance(r, Raise) and r.name == "AttributeError":
                out.extend(self.call(s, f, [v, Const(name)], {}))
            else:
                out.append((s, r))
        return out

    def generic_getattr(self, st, v, name):
        """object.__getattribute__"""
        cls = self.type_of(st, v)
        k = None
        for c in cls.mro:
            if isinstance(c, ClassVal) and (c.qual, name) in st.over:
                k = st.over[(c.qual, name)]
                break
        x, owner = self.find(cls, name)
        if k is not None:
            x = k
        if isinstance(x, Prop):
            return self.bind(st, x, owner, v, cls)
        if isinstance(v, Ref):
            f = st.o(v).fields
            if name in f:
                return [(st, self.resolve(st, f[name]))]
            if name == "__dict__":
                return [(st, st.dict([(Const(a), b) for a, b in f.items()]))]
        if name == "__class__":
            return [(st, cls)]
        if x is not None:
            return self.bind(st, x, owner, v, cls)
        if isinstance(v, Ref) and st.o(v).meta == "opaque-extra":
            return [(st, self.fresh("attr"))]
        return [(st, self.exc("AttributeError", "'%s' object has no attribute '%s'" % (cls.name, name)))]

    def super_attr(self, st, v, name):
        recv = v.recv
        if isinstance(recv, ClassVal):
            cls = recv
        else:
            cls = self.type_of(st, recv)
        if v.cls is None or cls is None:
            return [(st, self.fresh("super"))]
        x, owner = self.find(cls, name, after=v.cls)
        if x is None:
            return self.throws(st, "AttributeError", "'super' object has no attribute '%s'" % name)
        if isinstance(recv, ClassVal):
            if isinstance(x, ClassM):
                return [(st, BoundMethod(x.fn, recv))]
            if isinstance(x, StaticM):
                return [(st, x.fn)]
            if isinstance(x, FuncVal):
                return [(st, x)]
            return [(st, x)]
        if isinstance(x, Builtin) and isinstance(owner, BuiltinClass):
            return [(st, BoundBuiltin(recv, "%s.%s" % (owner.name, x.name.split(".")[-1])))]
        return self.bind(st, x, owner, recv, cls)

    def set_attr(self, st, o, name, v):
        """-> [(state, None|Raise)]"""
        o = self.resolve(st, o)
        if isinstance(o, Ref):
            ob = st.o(o)
            if isinstance(ob.cls, ClassVal):
                f, owner = self.find(ob.cls, "__setattr__")
                if isinstance(f, FuncVal):
                    return [(s, r if isinstance(r, Raise) else None) for s, r in self.call(st, f, [o, Const(name), v], {})]
                return self.generic_setattr(st, o, name, v)
            if ob.kind in ("list", "dict", "set", "iter"):
                return [(st, self.exc("AttributeError", "'%s' object has no attribute '%s'" % (ob.kind, name)))]
            st.w(o).fields[name] = v
            return [(st, None)]
        if isinstance(o, ClassVal):
            st.over[(o.qual, name)] = v
            return [(st, None)]
        if isinstance(o, ModuleV) and o.name.startswith("%repo."):
            st.w(self.modules[o.name[6:]]).fields[name] = v
            return [(st, None)]
        if isinstance(o, Num) and isinstance(o.k, ClassVal):
            x, owner = self.find(o.k, name)
            if isinstance(x, Prop):
                if x.fset is None:
                    return self.throws(st, "AttributeError", "property '%s' has no setter" % name)
                return [(s, r if isinstance(r, Raise) else None) for s, r in self.call(st, x.fset, [o, v], {})]
            self.note("attribute store on number")
            return [(st, None)]
        if isinstance(o, (Const, Num, Tup, Text, Cx)):
            return [(st, self.exc("AttributeError", "'%s' object has no attribute '%s'" % (getattr(self.type_of(st, o), "name", "?"), name)))]
        self.note("attribute store on unknown")
        return [(st, None)]

    def generic_setattr(self, st, o, name, v):
        x, owner = self.find(st.o(o).cls, name)
        if isinstance(x, Prop):
            if x.fset is None:
                return [(st, self.exc("AttributeError", "property '%s' of '%s' object has no setter" % (name, st.o(o).cls.name)))]
            return [(s, r if isinstance(r, Raise) else None) for s, r in self.call(st, x.fset, [o, v], {})]
        st.w(o).fields[name] = v
        return [(st, None)]

    def del_attr(self, st, o, name):
        if isinstance(o, Ref):
            f = st.w(o).fields
            if name in f:
                del f[name]
                return [(st, None)]
            return self.throws(st, "AttributeError", name)
        return [(st, None)]

    # ---------------------------------------------------------------- calls
    def call_method(self, st, recv, name, args, kw=None):
        out = []
        for s, f in self.get_attr(st, recv, name):
            out.extend([(s, f)] if isinstance(f, Raise) else self.call(s, f, list(args), dict(kw or {})))
        return out

    def call_type_method(self, st, recv, name, args):
        """implicit dunder call (looked up on the type); None if not defined"""
        cls = self.type_of(st, recv)
        if not isinstance(cls, ClassVal):
            return None
        x, owner = self.find(cls, name)
        if x is None or (isinstance(owner, BuiltinClass) and not isinstance(x, FuncVal)):
            return None
        out = []
        for s, f in self.bind(st, x, owner, recv, cls):
            out.extend([(s, f)] if isinstance(f, Raise) else self.call(s, f, list(args), {}))
        return out

    def call(self, st, f, args, kw):
        f = self.resolve(st, f)
        if isinstance(f, FuncVal):
            return self.call_function(st, f, args, kw)
        if isinstance(f, BoundMethod):
            return self.call(st, f.fn, [f.recv] + list(args), kw)
        if isinstance(f, StaticM):
            return self.call(st, f.fn, args, kw)
        if isinstance(f, ClassVal):
            return self.construct_obj(st, f, args, kw)
        if isinstance(f, Partial):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(st, f.fn, list(f.args) + list(args), k)
        if isinstance(f, BuiltinClass):
            return self.M.call_class(self, st, f, args, kw)
        if isinstance(f, Builtin):
            return self.M.call_builtin(self, st, f.name, args, kw)
        if isinstance(f, BoundBuiltin):
            return self.M.call_bound(self, st, f.recv, f.name, args, kw)
        if isinstance(f, PropPart):
            return self.decorate(st, f, args[0])
        if isinstance(f, Ref):
            o = st.o(f)
            if isinstance(o.cls, ClassVal):
                c, owner = self.find(o.cls, "__call__")
                if isinstance(c, FuncVal):
                    return self.call(st, c, [f] + list(args), kw)
                return self.throws(st, "TypeError", "'%s' object is not callable" % o.cls.name)
            return self.throws(st, "TypeError", "object is not callable")
        if isinstance(f, (Const, Num, Tup, Text, Cx, ModuleV)):
            return self.throws(st, "TypeError", "'%s' object is not callable" % getattr(self.type_of(st, f), "name", f))
        if isinstance(f, Opaque):
            return self.M.call_opaque(self, st, f, args, kw)
        return [(st, self.fresh("call"))]

    def construct_obj(self, st, cls, args, kw):
        h = self.hooks.get(cls.qual)
        if h is not None:
            r = h(self, st, args, kw)
            if r is not None:
                return r
        nw, nowner = self.find(cls, "__new__")
        if isinstance(nw, (FuncVal, StaticM)):
            out = []
            for s, o in self.call(st, nw, [cls] + list(args), kw):
                if isinstance(o, Raise):
                    out.append((s, o))
                elif isinstance(self.type_of(s, o), ClassVal) and cls in self.type_of(s, o).mro:
                    out.extend(self.init_obj(s, cls, o, args, kw))
                else:
                    out.append((s, o))
            return out
        return self.new_obj(st, cls, args, kw)

    def base_kind(self, cls):
        for c in cls.mro:
            if isinstance(c, BuiltinClass) and c.name in ("float", "int", "list", "dict", "str", "tuple", "set", "complex"):
                return c.name
            if isinstance(c, BuiltinClass) and c.name in EXC:
                return "exc"
        return "object"

    def new_obj(self, st, cls, args, kw, init=True):
        k = self.base_kind(cls)
        if k in ("float", "int"):
            out = []
            init_f, io = self.find(cls, "__init__")
            for s, v in self.M.call_class(self, st, BuiltinClass("float"), args[:1], {}):
                if isinstance(v, Raise):
                    out.append((s, v))
                elif isinstance(v, Num):
                    o = Num(v.r, cls)
                    if isinstance(init_f, FuncVal) and init:
                        out.extend(self.init_obj(s, cls, o, args, kw))
                    else:
                        out.append((s, o))
                else:
                    out.append((s, self.fresh("float")))
            return out
        if k == "exc":
            return [(st, ExcInst(cls, tuple(args)))]
        o = Obj("inst", cls, {}, None)
        if k == "list":
            o.items = []
        elif k in ("dict", "set"):
            o.items = {}
        ref = st.alloc(o)
        if not init:
            return [(st, ref)]
        return self.init_obj(st, cls, ref, args, kw)

    def init_obj(self, st, cls, o, args, kw):
        init, owner = self.find(cls, "__init__")
        if isinstance(init, FuncVal):
            return [(s, r if isinstance(r, Raise) else o) for s, r in self.call(st, init, [o] + list(args), kw)]
        if isinstance(owner, BuiltinClass) and owner.name == "list":
            return [(s, r if isinstance(r, Raise) else o) for s, r in self.M.call_bound(self, st, o, "list.__init__", args, kw)]
        if (args or kw) and not isinstance(self.find(cls, "__new__")[0], (FuncVal, StaticM)) and self.base_kind(cls) == "object":
            return self.throws(st, "TypeError", "%s() takes no arguments" % cls.name)
        return [(st, o)]

    def bind_args(self, st, f, args, kw):
        """-> (dict | Raise)"""
        info = f.info
        a = info.node.args
        pos = a.posonlyargs + a.args
        d = {}
        args = list(args)
        kw = dict(kw)
        extra_kw = kw.pop("**", None)
        star = None
        if any(isinstance(x, Opaque) and x.t == "star" for x in args):
            i = next(i for i, x in enumerate(args) if isinstance(x, Opaque) and x.t == "star")
            star = args[i]
            if not a.vararg or len(pos) > i:
                # unknown number of positional arguments: bind unknowns
                self.note("unknown number of positional arguments")
                seq = star.key
                rest = args[i + 1:]
                args = args[:i]
                for p in pos[i:]:
                    args.append(Opaque("any", ("starred", seq.key, len(args))))
                star = None
        if len(args) > len(pos):
            if not a.vararg:
                return self.exc("TypeError", "%s() takes %d positional arguments but %d were given" % (info.qual, len(pos), len(args)))
            rest = args[len(pos):]
            if star is not None:
                if len(rest) == 1:
                    d[a.vararg.arg] = OSeq(star.key.key, star.key.elem)
                else:
                    self.note("mixed star arguments")
                    d[a.vararg.arg] = OSeq(("mixed",) + (star.key.key,), "any")
            else:
                d[a.vararg.arg] = Tup(tuple(rest))
            args = args[: len(pos)]
        elif a.vararg:
            d[a.vararg.arg] = Tup(())
        for p, v in zip(pos, args):
            d[p.arg] = v
        pn = [p.arg for p in a.args]
        kwn = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in pn or k in kwn:
                if k in d:
                    return self.exc("TypeError", "%s() got multiple values for argument '%s'" % (info.qual, k))
                d[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return self.exc("TypeError", "%s() got an unexpected keyword argument '%s'" % (info.qual, k))
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p.arg not in d:
                j = i - (len(pos) - nd)
                if j < 0:
                    if extra_kw is not None:
                        d[p.arg] = self.fresh("kwarg")
                        continue
                    return self.exc("TypeError", "%s() missing required argument '%s'" % (info.qual, p.arg))
                d[p.arg] = f.defaults[j]
        for i, p in enumerate(a.kwonlyargs):
            if p.arg not in d:
                if f.kwdefaults[i] is None:
                    return self.exc("TypeError", "%s() missing keyword argument '%s'" % (info.qual, p.arg))
                d[p.arg] = f.kwdefaults[i]
        if a.kwarg:
            dd = st.dict([(Const(k), v) for k, v in extra.items()])
            if extra_kw is not None:
                op = extra_kw
                st.o(dd).fields["open"] = st.o(op).fields.get("open") if isinstance(op, Ref) else op.key
            d[a.kwarg.arg] = dd
        if info.cls:
            d = {mangle(info.cls, k): v for k, v in d.items()}
        return d

    def call_function(self, st, f, args, kw):
        info = f.info
        h = self.hooks.get(info.qual)
        if h is not None:
            r = h(self, st, args, kw)
            if r is not None:
                return r
        if self.depth > self.max_depth:
            raise AnalysisLimit("call depth")
        rec = sum(1 for x in self.callstack if x is info)
        if rec > 8:
            self.note("recursion bound in " + info.qual)
            raise AnalysisLimit("recursion in " + info.qual)
        d = self.bind_args(st, f, args, kw)
        if isinstance(d, Raise):
            return [(st, d)]
        self.visited_fns.add(info.qual)
        if self.on_call:
            self.on_call(info, args)
        amark, tmark = self.next_addr, self.tick
        ref = st.alloc(Obj("frame", None, d, None, f.closure))
        fr = Fr(ref.addr, info, self.modules[info.module].addr if info.module in self.modules else self.nonrepo[info.module].addr, info.cls)
        self.depth += 1
        self.callstack.append(info)
        try:
            if isinstance(info.node, ast.Lambda):
                res = [(s, v if isinstance(v, Raise) else Ret(v)) for s, v in self.ev(info.node.body, st, fr)]
            else:
                res = self.exec_block(info.node.body, st, fr)
        finally:
            self.depth -= 1
            self.callstack.pop()
        out = []
        for s, sig in res:
            fobj = s.heap.get(ref.addr)
            if info.isgen and not isinstance(sig, Raise):
                items = fobj.fields.get("%yield", Tup(())).items if fobj else ()
                v = s.alloc(Obj("iter", BuiltinClass("generator"), {"pos": num(0)}, list(items)))
            elif isinstance(sig, Raise):
                v = sig
            elif isinstance(sig, Ret):
                v = sig.v
            else:
                v = NONE
            if fobj is not None and "%captured" not in fobj.fields:
                s.heap.pop(ref.addr, None)
            out.append((s, v))
        return self.merge(out, amark, tmark)

    # ---------------------------------------------------------------- operators (delegated)
    def unary(self, st, op, v):
        return self.M.unary(self, st, op, v)

    def binop(self, st, op, l, r):
        return self.M.binop(self, st, op, l, r)

    def inplace(self, st, op, l, r):
        return self.M.inplace(self, st, op, l, r)

    def compare(self, st, op, l, r):
        return self.M.compare(self, st, op, l, r)

    def iterate(self, st, v, need=None):
        return self.M.iterate(self, st, v, need)

    def get_item(self, st, o, k):
        return self.M.get_item(self, st, o, k)

    def set_item(self, st, o, k, v):
        return self.M.set_item(self, st, o, k, v)

    def del_item(self, st, o, k):
        return self.M.del_item(self, st, o, k)

    # ---------------------------------------------------------------- entry helpers
    def wrap(self, v):
        """plain Python constants as abstract values"""
        if isinstance(v, (V, ClassVal)):
            return v
        if v is None or isinstance(v, (bool, str, bytes)):
            return Const(v)
        if isinstance(v, (int, float, Fraction)):
            return num(v)
        return v

    def run(self, st, f, *args, **kw):
        args = [self.wrap(a) for a in args]
        kw = {k: self.wrap(v) for k, v in kw.items()}
        """call with top-level error shielding; list of (state, value|Raise)"""
        self.handlers = []
        self.depth = 0
        self.callstack = []
        self.steps = 0
        return self.call(st.fork(), f, list(args), kw)

    def new(self, st, module, cls, *args, **kw):
        """construct and expect exactly one normal outcome"""
        c = self.get(st, module, cls)
        rs = self.run(st, c, *args, **kw)
        ok = [(s, v) for s, v in rs if not isinstance(v, Raise)]
        if len(ok) != 1:
            raise AnalysisLimit("constructing %s.%s gave %d outcomes" % (module, cls, len(ok)))
        return ok[0]
