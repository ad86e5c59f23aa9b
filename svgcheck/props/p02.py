"""P02: resolution of every name and member over the syntax trees: scopes (with star imports and
built-ins), definitely unassigned locals, members of self per concrete class (bases linearised),
members of receivers whose class is evident, members that nothing defines, and assignments to
properties without a setter."""
import importlib
import re

from ..names import *
from ..objects import *
from ..names import Mod, Fn, May


def found(rep, rule, f, problems):
    where = "%s.%s" % (f.mod.name, f.qual) if hasattr(f, "qual") else f
    if not problems:
        rep.each(rule, where, lambda: True)
    for name, msg, line in problems:
        rep.each(rule, "%s|%s" % (where, name), lambda m=msg, l=line: (False, m, "%s line %d" % (where, l)))


def once(problems):
    out = {}
    for name, msg, line in problems:
        out.setdefault(name, (name, msg, line))
    return list(out.values())


OWN = re.compile(r"'(\w+)' object has no attribute|class (\w+) has no attribute|property '\w+' of '(\w+)' object|(module|'super') .*has no attribute")


class Spy:
    """a report that interprets the obligations of another property and only asks which exceptions
    about unresolved references leave the package"""

    def __init__(self, rep, prog, name):
        self.rep, self.name = rep, name
        self.own = {c.name for c in prog.classes}
        self.escaped = []

    def __getattr__(self, n):
        return getattr(self.rep, n)

    def rule(self, *a):
        pass

    def interp(self, **kw):
        I = self.rep.interp(**kw)
        run, get = I.run, I.get_attr
        busy = [False]

        def spied(fn):
            def call(*a, **k):
                if busy[0]:
                    return fn(*a, **k)
                busy[0] = True
                try:
                    out = fn(*a, **k)
                finally:
                    busy[0] = False
                for s, r in out:
                    if isinstance(r, Raise) and self.dangling(r):
                        self.escaped.append((s, r))
                return out
            return call

        I.run, I.get_attr = spied(run), spied(get)
        return I

    def dangling(self, r):
        if not r.where or str(r.where[0]).startswith("_"):
            return False
        if r.name in ("NameError", "UnboundLocalError"):
            return True
        if r.name != "AttributeError" or not r.exc.args:
            return False
        a = r.exc.args[0]
        m = OWN.match(str(getattr(a, "v", a)))
        return bool(m) and (bool(m.group(4)) or any(g in self.own for g in m.groups()[:3] if g))

    def each(self, rule, inst, fn, *a):
        if re.match(r"Matrix (mul|matmul) (Point|Line|Path)$", inst):
            return  # not an operation: the operand is no matrix

        def go():
            del self.escaped[:]
            limit = None
            try:
                fn(*a)
            except Anchor:
                raise
            except (AnalysisLimit, RecursionError) as e:
                limit = str(e)
            for s, r in self.escaped:
                if feasible(s):
                    return False, "ends in %s: %s%s" % (r.name, getattr(r.exc.args[0], "v", "") if r.exc.args else "", facts_note(s)), r.where
            return (True, "") if limit is None else (None, limit)
        self.rep.each("runs", "%s %s %s" % (self.name, rule, inst), go)


def runs(rep, prog, names):
    for n in names:
        importlib.import_module("svgcheck.props." + n).check(Spy(rep, prog, n.upper()))


def check(rep):
    rep.rule("names", "every name a function reads as a global is defined in its module, imported into it, or built in", 300)
    rep.rule("locals", "no local variable is read where no path has assigned it", 300)
    rep.rule("self", "every member a method reads from its own object exists on every concrete class that runs the method; none it assigns is a read-only property", 200)
    rep.rule("members", "every member read from a module, a class, or an object of evident class exists there; every other member name is defined by something", 300)
    rep.rule("runs", "no operation of the obligations of the other properties, interpreted on all its paths, ends in a NameError, an UnboundLocalError or an AttributeError about a member of the package's own objects", 400)
    rep.rule("imports", "every name imported from the package or from the standard library exists there", 20)
    prog = Program()
    for m in prog.mods.values():
        link(m.tree)
    uni = universe(prog)
    for m in prog.mods.values():
        un = {}
        for q, name, line in unresolved_names(prog, m):
            un.setdefault(q, []).append((name, "%s refers to %s, which is defined nowhere" % (q, name), line))
        seen = set()
        for f in prog.fns:
            if f.mod is m:
                found(rep, "names", f, once(un.pop(f.qual, []) if f.qual not in seen else []))
                seen.add(f.qual)
        for q, ps in sorted(un.items()):
            found(rep, "names", "%s.%s" % (m.name, q), once(ps))
        for node, src, mod, name in imports_of(prog, m):
            inst = "%s imports %s" % (m.name, mod or "%s from %s" % (name, ".".join(str(x) for x in src)))
            rep.each("imports", inst, import_exists, prog, m, node, src, mod, name)
    for f in prog.fns:
        found(rep, "locals", f, [(k, "%s reads %s before anything assigned it" % (f.qual, k), l) for k, l in unbound_locals(f).items()])
        if f.outer is None:
            found(rep, "self", f, once(self_members(prog, f)))
            found(rep, "members", f, once(other_members(prog, f, uni)))


    runs(rep, prog, QUICK + (DEEP if rep.thorough else ()))


QUICK = ("p03", "p16", "p17", "p18", "p19", "p24", "p25", "p12")
DEEP = ("p04", "p05", "p06", "p07", "p09", "p10", "p11", "p13", "p15", "p14")


def import_exists(prog, m, node, src, mod, name):
    """imports that are guarded (an alternative follows) may fail"""
    if caught(node, ("ImportError", "ModuleNotFoundError", "Exception", "BaseException")):
        return True
    h = getattr(node, "_parent", None)
    if isinstance(h, ast.ExceptHandler) and caught(h._parent.body[0], ("ImportError", "ModuleNotFoundError", "Exception", "BaseException")):
        first = [n for n in h._parent.body if isinstance(n, (ast.Import, ast.ImportFrom))]
        if all(std_value(x.name, None) is not None if isinstance(n, ast.Import) else std_value(n.module or "", x.name) is not None for n in first for x in n.names):
            return True  # the alternative is never needed here
    line = "%s.py line %d" % (m.name, node.lineno)
    if mod is not None:
        if src[0] == "std" and std_value(mod, None) is None:
            return False, "module %s does not exist in this Python" % mod, line
        if src[0] == "mod" and src[1] is None:
            return False, "module %s does not exist in the package" % mod, line
        return True
    if src[0] == "std":
        if name != "*" and std_value(src[1], name) is None:
            return False, "%s has no %s in this Python" % (src[1], name), line
        if name == "*" and std_value(src[1], None) is None:
            return False, "module %s does not exist" % src[1], line
        return True
    if src[0] == "third":
        return True
    if name == "*":
        ok = src[0] == "mod" and src[1] in prog.mods
        return ok, "module %s does not exist" % (src[1:],), line
    ok = prog.deref(("from", src, name)) is not None
    return ok, "%s is not defined in %s" % (name, src[-1]), line
