"""P21: the links of the document tree.  Abstract event streams are loaded and histories of loading,
building and adding are interpreted; after each of them every reachable node has to be linked exactly
as the tree says (identity of nodes, so look-alike siblings are told apart)."""
import itertools

from ..dom import *


def q(n):
    return "{%s}%s" % (SVG, n)


LEAF = ("rect", {"x": "1"})
DOCS = {
    "empty": (q("svg"), {}),
    "nested": (q("svg"), {"id": "top"}, None, [
        (q("g"), {"id": "a"}, None, [(q("rect"), {"id": "b"}), (q("g"), {}, None, [(q("path"), {"id": "c"})])]),
        (q("defs"), {}, None, [(q("linearGradient"), {"id": "lg"}, None, [(q("stop"), {"id": "st"})])]),
        (q("circle"), {"id": "d"}),
    ]),
    "alike": (q("svg"), {}, None, [(q("rect"), {"x": "1"}), (q("rect"), {"x": "1"}), (q("g"), {}), (q("g"), {}), (q("g"), {}), (q("rect"), {"x": "1"})]),
    "chain": (q("svg"), {"id": "1"}, None, [(q("g"), {"id": "2"}, None, [(q("g"), {"id": "3"}, None, [(q("g"), {"id": "4"}, None, [(q("use"), {"id": "5"})])])])]),
    "others": ("no-namespace", {"id": "z"}, None, [(q("filter"), {"id": "f"}, None, [(q("feBlend"), {"id": "fe"})]), ("{urn:other}thing", {"id": "t"}, None, [("{urn:other}part", {})]), (q("text"), {"id": "tx"}, "words", [(q("tspan"), {"id": "ts"})])]),
}
WIDE = (q("svg"), {}, None, [(q(n), {"id": n}, None, [(q("rect"), {"id": "in-" + n})]) for n in KNOWN])


def picture(spec):
    """element names in the order of the document, nested"""
    n = spec[0]
    n = n[len(SVG) + 2:] if n.startswith("{%s}" % SVG) else n
    return (n, spec[1] if len(spec) > 1 else {}, None, [picture(k) for k in (spec[3] if len(spec) > 3 else [])], None)


def whole(I, s, d):
    """all statements about the links of a document"""
    return both(
        walk(I, s, "links", d, d),
        walk(I, s, "elements", d),
        walk(I, s, "all_ancestors", d, d),
        walk(I, s, "ids", d, d),
    )


def normal(rs, what):
    ok = [(s, v) for s, v in rs if not isinstance(v, Raise)]
    for s, v in rs:
        if isinstance(v, Raise) and feasible(s):
            return [], (False, "%s raises %s %s" % (what, v.name, [a for a in v.exc.args][:1]), v.where)
    return ok, None


def check(rep):
    rep.rule("nest", "loading nests the nodes exactly as the elements nest", 5)
    rep.rule("load", "after loading, every node knows its parent, document, siblings, children and ancestors and is found by its id", 6)
    rep.rule("history", "the same after every sequence of loading, building and adding", 60)
    rep.rule("moved", "an added node leaves the place it was at", 3)
    rep.rule("missing", "an id no node carries is not found", 2)
    I = dom(rep)
    docs = dict(DOCS, wide=WIDE)
    for name, spec in docs.items():
        def nest(spec=spec):
            res = True, ""
            for s, d in load(I, I.start(), spec):
                if isinstance(d, Raise):
                    return False, "raises %s" % d.name, d.where
                t = tree(s, ("root", {}, None, [picture(spec)], None))
                for s1, got in dcall(I, s, "shape", d):
                    if isinstance(got, Raise):
                        return False, "raises %s" % got.name, got.where
                    for s2, want in dcall(I, s1, "spec_shape", t):
                        a, b = plain(s2, got), plain(s2, want)
                        if a != b:
                            res = False, "the nodes nest as %s" % (a,)
            return res
        rep.each("nest", name, nest)

        def links(spec=spec):
            res = True, ""
            for s, d in load(I, I.start(), spec):
                if isinstance(d, Raise):
                    return False, "raises %s" % d.name, d.where
                res = both(res, whole(I, s, d))
            return res
        rep.each("load", name, links)

    # histories -----------------------------------------------------------------
    def at(I, s, d, *path):
        return dcall(I, s, "child", d, *[num(k) for k in path])

    def step_load(s, env, k, spec):
        rs = load(I, s, spec, env["doc"])
        return normal(rs, "load")

    def step_build(s, env, k, path, name, kws):
        out = []
        for s1, host in at(I, s, env["doc"], *path):
            if isinstance(host, Raise):
                return [], None  # nothing there yet
            ok, bad = normal(method(I, s1, host, name, **kws), name + "()")
            if bad:
                return [], bad
            out += ok
        return out, None

    def step_add(s, env, k, how):
        out = []
        d = env["doc"]
        if how == "bare":
            ok, bad = normal(I.run(s, I.get(s, "nodes", "Group")), "Group()")
        elif how == "new":
            ok, bad = normal(I.run(s, I.get(s, "nodes", "Rect"), id="n%d" % k), "Rect()")
        elif how == "tree":
            ok, bad = normal(I.run(s, I.get(s, "nodes", "Group"), id="t%d" % k), "Group()")
            if not bad:
                ok2 = []
                for s1, g in ok:
                    o2, bad = normal(method(I, s1, g, "rect", id="tr%d" % k), "rect()")
                    if bad:
                        return [], bad
                    for s2, _ in o2:
                        o3, bad = normal(method(I, s2, g, "circle"), "circle()")
                        ok2 += [(s3, g) for s3, _ in o3]
                ok = ok2
        elif how == "inner":
            ok, bad = normal(at(I, s, d, 0, 0), "child"), None
            ok = ok[0]
        elif how == "last":
            ok, bad = normal(at(I, s, d, 0, -1), "child")[0], None
        elif how == "own":
            ok, bad = normal(at(I, s, d, 0), "child")[0], None
        else:  # a node of another document
            ok, bad = [], None
            for s1, other in load(I, s, DOCS["alike"]):
                if isinstance(other, Raise):
                    return [], (False, "raises %s" % other.name)
                ok += [(s2, n) for s2, n in at(I, s1, other, 0, 1)]
                env["other"] = other
        if bad:
            return [], bad
        for s1, n in ok:
            if isinstance(n, Raise):
                continue
            o, bad = normal(method(I, s1, d, "add", n), "add()")
            if bad:
                return [], bad
            out += [(s2, n) for s2, _ in o]
        return out, None

    steps = {
        "load nested": (step_load, DOCS["nested"]),
        "load alike": (step_load, DOCS["alike"]),
        "load chain": (step_load, DOCS["chain"]),
        "build on document": (step_build, (), "g", {"id": "bd"}),
        "build inside": (step_build, (0,), "rect", {"id": "bi"}),
        "build deep": (step_build, (0, 0), "linear_gradient", {"id": "bg"}),
        "build alike": (step_build, (0,), "rect", {"x": "1"}),
        "add new": (step_add, "new"),
        "add bare": (step_add, "bare"),
        "add tree": (step_add, "tree"),
        "add inner": (step_add, "inner"),
        "add last": (step_add, "last"),
        "add own": (step_add, "own"),
        "add foreign": (step_add, "foreign"),
    }

    def history(seq):
        states = [(s, {"doc": d}) for s, d in I.run(I.start(), I.get(I.start(), "nodes", "Document"))]
        for s, env in states:
            if isinstance(env["doc"], Raise):
                return False, "Document() raises %s" % env["doc"].name, env["doc"].where
        for k, name in enumerate(seq):
            fn, *args = steps[name]
            nxt = []
            for s, env in states:
                ok, bad = fn(s, env, k, *args)
                if bad:
                    return bad
                for s1, made in ok:
                    if fn is not step_load and isinstance(made, Ref):
                        for s2, c in dcall(I, s1, "count", env["doc"], made):
                            if isinstance(c, Num) and c.const() is not None and c.const() != 1:
                                return False, "after %s the node is in the document %s times" % (name, c.const())
                nxt += [(s1, dict(env)) for s1, _ in ok] or [(s, env)]
            states = nxt
        res = True, ""
        for s, env in states:
            res = both(res, whole_once(s, env["doc"]))
            if "other" in env:
                res = both(res, walk(I, s, "links", env["other"], env["other"]))
            if res[0] is False:
                return res
        return res

    def whole_once(s, d):
        # ids given twice are found as the node that got them last; only links are compared then
        return both(walk(I, s, "links", d, d), walk(I, s, "elements", d), walk(I, s, "all_ancestors", d, d), walk(I, s, "lost", d))

    names = list(steps)
    seqs = [(a,) for a in names] + list(itertools.product(names, names))
    firsts = ("load nested", "load alike", "build on document", "add tree")
    triples = [t for t in itertools.product(names, names, names) if rep.thorough or (t[0] in firsts and names.index(t[1]) % 3 == names.index(t[2]) % 3)]
    for seq in seqs + triples:
        rep.each("history", ", ".join(seq), history, seq)

    for how in ("inner", "last", "own", "foreign", "new"):
        def moved(how=how):
            res = True, ""
            for s, d in load(I, I.start(), DOCS["nested"]):
                env = {"doc": d}
                ok, bad = step_add(s, env, 7, how)
                if bad:
                    return bad
                for s1, n in ok:
                    for r in [d] + ([env["other"]] if "other" in env else []):
                        for s2, c in dcall(I, s1, "count", r, n):
                            if isinstance(c, Raise):
                                return None, "raises"
                            want = 1 if r == d else 0
                            if c.const() != want:
                                return False, "the node is %s times in %s" % (c.const(), "the document" if r == d else "the document it came from")
                    res = both(res, walk(I, s1, "placed", d, n))
            return res
        rep.each("moved", how, moved)
    for arg, meth in (("nobody", "get_element_by_id"), ("url(#nobody)", "get_element_by_url")):
        def missing(arg=arg, meth=meth):
            res = True, ""
            for s, d in load(I, I.start(), DOCS["nested"]):
                for s1, r in method(I, s, d, meth, arg):
                    if isinstance(r, Raise):
                        return False, "raises %s" % r.name, r.where
                    if r != NONE:
                        return False, "finds %r" % (r,)
            return res
        rep.each("missing", meth, missing)


def plain(s, v):
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Tup):
        return tuple(plain(s, x) for x in v.items)
    if isinstance(v, Ref) and isinstance(s.o(v).items, list):
        return [plain(s, x) for x in s.o(v).items]
    return show(v)
