"""Abstract document trees: a model of the XML library (event streams read, element trees written),
walks over node trees written in the interpreted language, and the SVG tables they are judged by."""
from .objects import *
from .values import OpPiece, hkey


def show(v):
    """a value in a message"""
    return repr(v.v if isinstance(v, Const) else v)[:90]


SRC = '''
class Elem:
    """an element as the XML library presents it"""

    def __init__(self, tag, attrib=None, **extra):
        self.tag = tag
        self.attrib = dict(attrib) if attrib is not None else {}
        self.attrib.update(extra)
        self.text = None
        self.tail = None
        self.kids = []

    def __iter__(self):
        return iter(list(self.kids))

    def __len__(self):
        return len(self.kids)

    def __getitem__(self, k):
        return self.kids[k]

    def __bool__(self):
        return len(self.kids) != 0

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def set(self, key, value):
        self.attrib[key] = value

    def items(self):
        return self.attrib.items()

    def keys(self):
        return self.attrib.keys()

    def append(self, kid):
        self.kids.append(kid)

    def extend(self, kids):
        for k in kids:
            self.kids.append(k)

    def insert(self, at, kid):
        self.kids.insert(at, kid)

    def clear(self):
        self.kids = []
        self.attrib = {}
        self.text = None
        self.tail = None

    def iter(self, tag=None):
        out = [self]
        for k in self.kids:
            out.extend(k.iter())
        return iter([e for e in out if tag is None or e.tag == tag])

    def makeelement(self, tag, attrib):
        return Elem(tag, attrib)


def make_element(tag, attrib=None, **extra):
    return Elem(tag, attrib, **extra)


def make_sub(parent, tag, attrib=None, **extra):
    e = Elem(tag, attrib, **extra)
    parent.append(e)
    return e


class Written(list):
    """what the XML library makes of an element: kept as the tree itself"""


class Source:
    def __init__(self, tree):
        self.tree = tree


class Events:
    def __init__(self, tree, wanted):
        self.todo = []
        self.wanted = wanted
        self.root = None
        self.plan(tree, None)

    def plan(self, t, parent):
        """t: (tag, attributes, text, children, tail)"""
        e = Elem(t[0], t[1])
        self.todo.append(("start-ns", ("", "http://www.w3.org/2000/svg"), None, None, None)) if parent is None else None
        self.todo.append(("start", e, parent, None, None))
        first = True
        last = None
        for k in t[3]:
            if first:
                self.todo.append(("text", e, None, t[2], None))
                first = False
            if last is not None:
                self.todo.append(("tail", last[0], None, last[1], None))
            last = (self.plan(k, e), k[4])
        if first:
            self.todo.append(("text", e, None, t[2], None))
        if last is not None:
            self.todo.append(("tail", last[0], None, last[1], None))
        self.todo.append(("end", e, None, None, None))
        self.todo.append(("end-ns", None, None, None, None)) if parent is None else None
        return e

    def __iter__(self):
        return self

    def __next__(self):
        while len(self.todo):
            what, e, parent, value, _ = self.todo.pop(0)
            if what == "text":
                e.text = value
                continue
            if what == "tail":
                e.tail = value
                continue
            if what == "start":
                if parent is not None:
                    parent.kids.append(e)
                else:
                    self.root = e
            if what in self.wanted:
                return (what, e)
        raise StopIteration

    def close(self):
        self.todo = []


def iterparse(source, events=None, parser=None):
    return Events(source.tree, ("end",) if events is None else tuple(events))


class TextSource:
    pass


def outline(e):
    """the element tree that would be written"""
    return (e.tag, e.attrib, e.text, [outline(k) for k in e.kids], e.tail)


class File:
    def __init__(self, log, name):
        self.log = log
        self.name = name

    def write(self, data):
        self.log.append((self.name, data))
        return 1

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        pass

    def close(self):
        self.log.append((self.name, None))

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.log.append((self.name, None))
        return False


LOG = []


def open_file(file, mode="r", *args, **kwargs):
    if "w" not in mode:
        return Source(None)
    return File(LOG, file)


# ------------------------------------------------------------ walks


def members(node):
    """(class name, element name, attributes, text before the children, children, tail)"""
    return (type(node).__name__, node.tag(), node.attributes, node.character_data, [members(c) for c in node], node.tail)


def differences(node, want, where="", tail=True):
    """how a node differs from (element name, attributes, text, children, tail)"""
    out = []
    here = where + "/" + want[0]
    if node.tag() != want[0]:
        out.append((here, "is called", node.tag()))
    for k in want[1]:
        if k not in node.attributes:
            out.append((here, "lost the attribute", k))
        elif node.attributes[k] != want[1][k]:
            out.append((here, "has another value of", k))
    for k in node.attributes:
        if k not in want[1]:
            out.append((here, "has the additional attribute", k))
    if len(node) != len(want[3]):
        out.append((here, "has children:", len(node)))
        return out
    for c, w in zip(node, want[3]):
        out.extend(differences(c, w, here))
    return out


def texts(node, want, where=""):
    out = []
    here = where + "/" + want[0]
    if node.character_data != want[2]:
        out.append((here, "text", node.character_data))
    for c, w in zip(node, want[3]):
        out.extend(texts(c, w, here))
        if c.tail != w[4]:
            out.append((here, "tail of child", c.tail))
    return out


def links(node, document, where="", top=True):
    """what is wrong with the links of a tree"""
    out = []
    if node.document is not document:
        out.append((where, "does not know its document"))
    if node.owner_document is not document:
        out.append((where, "owner_document is not its document"))
    kids = [c for c in node]
    if top and node.parent is not None:
        out.append((where, "has a parent"))
    for k in range(len(kids)):
        c = kids[k]
        here = where + "/" + str(k)
        if c.parent is not node:
            out.append((here, "does not know its parent"))
        if c.parent_node is not node:
            out.append((here, "parent_node is not its parent"))
        same = 0
        for d in kids:
            if d is c:
                same += 1
        if same != 1:
            out.append((here, "is more than once among its parent's children"))
        before = kids[k - 1] if k > 0 else None
        after = kids[k + 1] if k + 1 < len(kids) else None
        if c.previous_sibling is not before:
            out.append((here, "previous_sibling is another node"))
        if c.next_sibling is not after:
            out.append((here, "next_sibling is another node"))
        if not c.is_connected:
            out.append((here, "is not connected"))
        out.extend(links(c, document, here, False))
    if node.first_child is not (kids[0] if kids else None):
        out.append((where, "first_child is another node"))
    if node.last_child is not (kids[-1] if kids else None):
        out.append((where, "last_child is another node"))
    if node.has_child_nodes() != (len(kids) != 0):
        out.append((where, "has_child_nodes is wrong"))
    return out


def elements(node, where=""):
    """links only elements have"""
    out = []
    kids = [c for c in node]
    for k in range(len(kids)):
        c = kids[k]
        here = where + "/" + str(k)
        if hasattr(c, "next_element_sibling"):
            if c.next_element_sibling is not (kids[k + 1] if k + 1 < len(kids) else None):
                out.append((here, "next_element_sibling is another node"))
            if c.previous_element_sibling is not (kids[k - 1] if k > 0 else None):
                out.append((here, "previous_element_sibling is another node"))
        if hasattr(c, "first_element_child"):
            if c.first_element_child is not (c[0] if len(c) else None):
                out.append((here, "first_element_child is another node"))
            if c.last_element_child is not (c[-1] if len(c) else None):
                out.append((here, "last_element_child is another node"))
            if c.child_element_count != len(c):
                out.append((here, "child_element_count is wrong"))
        out.extend(elements(c, here))
    return out


def ancestors(doc, node, way):
    got = [n for n in doc.get_ancestors(node)]
    out = []
    if len(got) != len(way):
        out.append(("ancestors", "number of ancestors", len(got)))
        return out
    for a, b in zip(got, way):
        if a is not b:
            out.append(("ancestors", "another node"))
    return out


def all_ancestors(doc, node, way=()):
    mine = [node] + list(way)
    out = ancestors(doc, node, mine)
    for c in node:
        out.extend(all_ancestors(doc, c, mine))
    return out


def under(root, node):
    if node is root:
        return True
    for c in root:
        if under(c, node):
            return True
    return False


def ids(doc, node):
    """nodes with an id that the document does not find"""
    out = []
    if "id" in node.attributes:
        found = doc.get_element_by_id(node.attributes["id"])
        if found is not node:
            out.append((node.attributes["id"], "is not found by its id"))
        by_url = doc.get_element_by_url("url(#" + node.attributes["id"] + ")")
        if by_url is not node:
            out.append((node.attributes["id"], "is not found by url()"))
    for c in node:
        out.extend(ids(doc, c))
    return out


def usable(node, name, attributes, parent, document, fresh=True):
    """what is missing from a node to be a full member of the tree"""
    out = []
    if node.tag() != name:
        out.append((name, "is called", node.tag()))
    for k in attributes:
        if k not in node.attributes:
            out.append((name, "lost the attribute", k))
        elif node.attributes[k] != attributes[k]:
            out.append((name, "has another value of", k))
    for k in node.attributes:
        if k not in attributes:
            out.append((name, "has the additional attribute", k))
    if node.parent is not parent:
        out.append((name, "does not know its parent"))
    if node.document is not document:
        out.append((name, "does not know its document"))
    if parent is not None:
        same = 0
        for c in parent:
            if c is node:
                same += 1
        if same != 1:
            out.append((name, "is not once among its parent's children"))
    if fresh and len(node) != 0:
        out.append((name, "is born with children"))
    before = len(node)
    kid = node.metadata(x="1")
    if len(node) != before + 1 or node[before] is not kid or kid.parent is not node:
        out.append((name, "takes no children"))
    elif kid.document is not document:
        out.append((name, "does not hand its document on"))
    if node.first_child is None or node.last_child is not kid:
        out.append((name, "does not report its children"))
    node.attributes["data-x"] = "y"
    if node.attributes["data-x"] != "y" or "data-x" in attributes or "data-x" in kid.attributes:
        out.append((name, "shares its attributes"))
    return out


def twins(a, b):
    """two nodes made alike share nothing"""
    out = []
    a.attributes["data-y"] = "z"
    if "data-y" in b.attributes:
        out.append(("two nodes", "share their attributes"))
    a.metadata()
    if len(b) != 0:
        out.append(("two nodes", "share their children"))
    return out


def shape(node, top=True):
    return ("root" if top else node.tag(), [shape(c, False) for c in node])


def spec_shape(t):
    return (t[0], [spec_shape(k) for k in t[3]])


def count(root, node):
    n = 0
    for c in root:
        if c is node:
            n += 1
        n += count(c, node)
    return n


def placed(doc, node):
    out = []
    if node.parent is not doc:
        out.append(("the added node", "does not know its parent"))
    if node.document is not doc:
        out.append(("the added node", "does not know its document"))
    if doc[-1] is not node:
        out.append(("the added node", "is not the last child"))
    return out


def all_nodes(node):
    out = []
    for c in node:
        out.append(c)
        out.extend(all_nodes(c))
    return out


def lost(doc):
    """ids found as a node that does not carry them or is not in the document"""
    out = []
    nodes = all_nodes(doc)
    for n in nodes:
        if "id" in n.attributes:
            found = doc.get_element_by_id(n.attributes["id"])
            if found is None:
                out.append((n.attributes["id"], "is not found by its id"))
            elif found.attributes["id"] != n.attributes["id"]:
                out.append((n.attributes["id"], "is found as another node"))
            else:
                here = False
                alone = True
                for m in nodes:
                    if m is found:
                        here = True
                    elif m.attributes.get("id") == n.attributes["id"]:
                        alone = False
                if not here:
                    out.append((n.attributes["id"], "is found as a node that is not in the document"))
                elif alone and found is not n:
                    out.append((n.attributes["id"], "is found as another node"))
    return out


def member(node, name):
    return getattr(node, name)


def has(node, name):
    return hasattr(node, name)


def keep(node, kid):
    """the parent link of a new node, to make children by hand"""
    return len(node)


def call(f, args, kwargs):
    return f(*args, **kwargs)


def get(node, name):
    return getattr(node, name)


def child(node, *at):
    for k in at:
        node = node[k]
    return node


def source(tree):
    return Source(tree)


def whole(a):
    return [x for x in a]
'''

SVG = "http://www.w3.org/2000/svg"
XLINK = "{http://www.w3.org/1999/xlink}"

# element names of SVG 1.1 and SVG 2
SPEC = set("""a animate animateMotion animateTransform animateColor circle clipPath color-profile cursor defs desc ellipse
feBlend feColorMatrix feComponentTransfer feComposite feConvolveMatrix feDiffuseLighting feDisplacementMap feDistantLight
feDropShadow feFlood feFuncA feFuncB feFuncG feFuncR feGaussianBlur feImage feMerge feMergeNode feMorphology feOffset
fePointLight feSpecularLighting feSpotLight feTile feTurbulence filter font font-face font-face-format font-face-name
font-face-src font-face-uri foreignObject g glyph glyphRef hatch hatchpath hkern image line linearGradient marker mask
mesh meshgradient meshpatch meshrow metadata missing-glyph mpath path pattern polygon polyline radialGradient rect script
set solidcolor stop style svg switch symbol text textPath title tref tspan unknown use view vkern""".split())

# those the library has classes for
KNOWN = """svg g defs symbol marker use switch style script a text tspan path line rect circle ellipse polyline polygon image
title desc metadata clipPath mask linearGradient radialGradient pattern""".split()


def dom(rep, **kw):
    I = ops(rep.interp(**kw))
    I.add_module("_dom", SRC)

    def to(name):
        return lambda I, st, args, kw: I.call(st, I.get(st, "_dom", name), args, kw)
    for lib in ("xml.etree.ElementTree", "xml.etree.cElementTree"):
        I.hooks["builtin:%s.iterparse" % lib] = to("iterparse")
        I.hooks["builtin:%s.Element" % lib] = to("make_element")
        I.hooks["builtin:%s.SubElement" % lib] = to("make_sub")
        I.hooks["builtin:%s.tostring" % lib] = lambda I, st, args, kw: written(I, st, args[0])
        I.hooks["builtin:%s.tostringlist" % lib] = lambda I, st, args, kw: written(I, st, args[0])
        I.hooks["builtin:%s.register_namespace" % lib] = lambda I, st, args, kw: [(st, NONE)]
    for f in ("io.open", "open", "codecs.open"):
        I.hooks["builtin:" + f] = to("open_file")
    return I


def frozen(I, s, e):
    """a hashable picture of the written tree"""
    o = s.o(e)

    def f(n):
        return o.fields.get(n)
    at = s.o(f("attrib"))
    return ("elem", f("tag"), tuple((k, v) for k, v in at.items.values()), f("text"), tuple(frozen(I, s, k) for k in s.o(f("kids")).items), f("tail"))


def is_text(I, s, v):
    return isinstance(v, Text) or isinstance(v, Const) and isinstance(v.v, str) or isinstance(v, Opaque) and v.t in ("str", "numstr", "any")


def unwritable(I, s, t):
    """the library refuses names, values and character data that are no text"""
    for v in [t[1]] + [x for kv in t[2] for x in kv]:
        if not is_text(I, s, v):
            return v
    for v in (t[3], t[5]):
        if v != NONE and not is_text(I, s, v):
            return v
    for k in t[4]:
        v = unwritable(I, s, k)
        if v is not None:
            return v
    return None


def written(I, s, e):
    if not isinstance(e, Ref):
        return I.throws(s, "AttributeError", "no element")
    v = unwritable(I, s, frozen(I, s, e))
    if v is not None:
        return I.throws(s, "TypeError", "cannot serialize %s" % show(v))
    return [(s, Text((OpPiece(("xml", frozen(I, s, e))),)))]


def tree(s, spec):
    """an abstract source tree from (tag, {name: value}, text, [children], tail); short forms allowed"""
    tag, attrs, text, kids, tail = (tuple(spec) + ({}, None, (), None)[len(spec) - 1:])[:5]
    d = s.dict()
    for k, v in attrs.items():
        d_set(s, d, Const(k), v if not isinstance(v, str) else Const(v))
    w = lambda x: x if not isinstance(x, str) and x is not None else Const(x)
    return Tup((Const(tag), d, w(text), s.list([tree(s, k) for k in kids]), w(tail)))


def d_set(s, d, k, v):
    s.w(d).items[hkey(k)] = (k, v)


def free(name):
    """an unknown piece of text"""
    return Opaque("str", ("given", name))


def dcall(I, s, name, *args, **kw):
    return I.run(s, I.get(s, "_dom", name), *args, **kw)


def load(I, s, spec, into=None):
    """a document loaded from a tree -> outcomes"""
    t = tree(s, spec)
    out = []
    for s1, src in dcall(I, s, "source", t):
        if into is None:
            out += I.run(s1, I.get(s1, "nodes", "Document"), src)
        else:
            out += [(s2, r if isinstance(r, Raise) else into) for s2, r in method(I, s1, into, "parse", src)]
    return out


def problems(I, s, v, what=""):
    """verdict for a list of complaints made by a walk"""
    xs = items(I, s, v)
    if xs is None:
        return None, "unknown list"
    if not xs:
        return True, ""
    def word(x):
        if isinstance(x, Tup):
            return " ".join(word(y) for y in x.items)
        return str(x.v) if isinstance(x, Const) else show(x)
    return False, what + word(xs[0]) + facts_note(s)


def walk(I, s, name, *args):
    """run a walk that returns complaints"""
    return all_outcomes(dcall(I, s, name, *args), lambda s2, v: problems(I, s2, v))


def both(*vs):
    und = None
    for v in vs:
        v = v if isinstance(v, tuple) else (v, "")
        if v[0] is False:
            return v
        if v[0] is None:
            und = v
    return und or (True, "")
