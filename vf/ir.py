"""Independent interpreter of the supported XSD subset: schema files -> intermediate representation.

Nothing here is derived from /repo's code; it follows the XML Schema recommendation for the constructs the library
supports (see DESIGN.md for the exact subset)."""
import os
from xml.dom import minidom

XSD = "http://www.w3.org/2001/XMLSchema"
LITERAL = {}
for n in "string time date dateTime duration base64Binary hexBinary any anyType".split(): LITERAL[n] = "str"
LITERAL["boolean"] = "bool"
for n in "integer long".split(): LITERAL[n] = "i64"
for n in "nonNegativeInteger positiveInteger".split(): LITERAL[n] = "u64"
LITERAL["int"] = "i32"; LITERAL["decimal"] = "dec"; LITERAL["float"] = "f32"
# names a run-time parse error may use for a built-in type
CANON = {"integer": "long", "positiveInteger": "nonNegativeInteger", "anyType": "any"}
UNB = None

class Lit:
    def __init__(s, xsd): s.xsd = xsd; s.kind = LITERAL[xsd]
class Fixed:
    def __init__(s, text, xsd): s.text = text; s.xsd = xsd
class Enum:
    def __init__(s, values, tname=None): s.values = values; s.tname = tname
class Ref:
    """reference to a named type"""
    def __init__(s, schema, qn): s.schema = schema; s.qn = qn
class Attr:
    def __init__(s, name, type, optional, default=None): s.name = name; s.type = type; s.optional = optional; s.default = default
class Elem:
    """element particle"""
    def __init__(s, qn, type, mn=1, mx=1): s.qn = qn; s.type = type; s.mn = mn; s.mx = mx
class Group:
    """nested sequence or choice particle"""
    def __init__(s, kind, items, mn=1, mx=1): s.kind = kind; s.items = items; s.mn = mn; s.mx = mx
class Complex:
    # content: None | ('seq', items) | ('all', items) | ('choice', Group) | ('rep', Group)
    #        | ('simple', type) | ('ext', base Ref, Group|None)
    def __init__(s, attrs, content): s.attrs = attrs; s.content = content

class Unsupported(Exception): pass

def kids(n, *names):
    return [c for c in n.childNodes if c.nodeType == 1 and c.namespaceURI == XSD and (not names or c.localName in names)]

class Schema:
    def __init__(self, path=None, text=None, parent=None):
        self.types = parent.types if parent else {}
        self.elements = parent.elements if parent else {}
        self.path = path
        self.files = parent.files if parent else set()
        if path: self.files.add(os.path.realpath(path))
        doc = minidom.parse(path) if text is None else minidom.parseString(text.encode())
        root = doc.documentElement
        self.tns = root.getAttribute("targetNamespace") or None
        self.qualified = root.getAttribute("elementFormDefault") == "qualified"
        self.ns = {}
        for i in range(root.attributes.length):
            a = root.attributes.item(i)
            if a.name == "xmlns": self.ns[None] = a.value
            elif a.prefix == "xmlns": self.ns[a.localName] = a.value
        self.order = []          # own + included top-level components in file order
        for c in kids(root):
            if c.localName in ("include", "import"):
                if os.path.realpath(os.path.join(os.path.dirname(path), c.getAttribute("schemaLocation"))) in self.files: continue
                sub = Schema(os.path.join(os.path.dirname(path), c.getAttribute("schemaLocation")), parent=self)
                self.order += sub.order
            elif c.localName == "element":
                qn = (self.tns, c.getAttribute("name"))
                self.elements[qn] = self.elem_type(c); self.order.append(("element", qn))
            elif c.localName == "complexType":
                qn = (self.tns, c.getAttribute("name"))
                self.types[qn] = self.complex(c); self.order.append(("complexType", qn))
            elif c.localName == "simpleType":
                qn = (self.tns, c.getAttribute("name"))
                self.types[qn] = self.simple(c, qn[1]); self.order.append(("simpleType", qn))
            else: raise Unsupported(c.localName)

    def qname(self, s):
        if ":" in s:
            p, l = s.split(":", 1)
            return (self.ns[p], l)
        return (self.ns.get(None), s)
    def typeref(self, s):
        ns, l = self.qname(s)
        if ns == XSD: return Lit(l)
        return Ref(self, (ns, l))
    def elem_type(self, c):
        if c.hasAttribute("type"):
            t = self.typeref(c.getAttribute("type"))
            if isinstance(t, Lit) and c.hasAttribute("fixed"): return Fixed(c.getAttribute("fixed"), t.xsd)
            return t
        for k in kids(c):
            if k.localName == "complexType": return self.complex(k)
            if k.localName == "simpleType": return self.simple(k)
        return Lit("any")
    def simple(self, c, tname=None):
        r = kids(c, "restriction")[0]
        vals = [e.getAttribute("value") for e in kids(r, "enumeration")]
        if vals: return Enum(vals, tname)
        return self.typeref(r.getAttribute("base"))
    def occ(self, c):
        mn = int(c.getAttribute("minOccurs") or "1")
        mx = c.getAttribute("maxOccurs") or "1"
        return mn, (UNB if mx == "unbounded" else int(mx))
    def element(self, c):
        mn, mx = self.occ(c)
        if c.hasAttribute("ref"):
            qn = self.qname(c.getAttribute("ref"))
            return Elem(qn, ElemRef(self, qn), mn, mx)
        return Elem((self.tns if self.qualified else None, c.getAttribute("name")), self.elem_type(c), mn, mx)
    def items(self, c):
        out = []
        for k in kids(c):
            if k.localName == "element": out.append(self.element(k))
            elif k.localName in ("sequence", "choice"):
                mn, mx = self.occ(k)
                out.append(Group({"sequence": "seq", "choice": "choice"}[k.localName], self.items(k), mn, mx))
            elif k.localName == "annotation": pass
            else: raise Unsupported(k.localName)
        return out
    def attrs(self, c):
        out = []
        for k in kids(c, "attribute"):
            use = k.getAttribute("use")
            if use == "prohibited": continue
            st = kids(k, "simpleType")
            t = self.simple(st[0]) if st else self.typeref(k.getAttribute("type"))
            if isinstance(t, Lit) and not st and k.hasAttribute("fixed"): t = Fixed(k.getAttribute("fixed"), t.xsd)
            out.append(Attr(k.getAttribute("name"), t, use != "required"))
        return out
    def complex(self, c):
        for sc in kids(c, "simpleContent"):
            e = kids(sc, "extension")[0]
            return Complex(self.attrs(e), ("simple", self.typeref(e.getAttribute("base"))))
        for cc in kids(c, "complexContent"):
            e = kids(cc, "extension")[0]
            g = None
            for s in kids(e, "sequence"):
                g = Group("seq", self.items(s), *self.occ(s))
            return Complex(self.attrs(e), ("ext", self.typeref(e.getAttribute("base")), g))
        content = None
        for k in kids(c):
            if k.localName == "sequence":
                mn, mx = self.occ(k)
                content = ("seq", self.items(k)) if (mn, mx) == (1, 1) or mn == 1 and mx == 0 else ("rep", Group("seq", self.items(k), mn, mx))
            elif k.localName == "all":
                mn, mx = self.occ(k)
                content = ("all", self.items(k)) if mn == 1 else ("repall", Group("all", self.items(k), mn, mx))
            elif k.localName == "choice":
                content = ("choice", Group("choice", self.items(k), 1, 1))
        return Complex(self.attrs(c), content)

class ElemRef:
    """type of a global element, by reference"""
    def __init__(s, schema, qn): s.schema = schema; s.qn = qn

def resolve(t):
    while True:
        if isinstance(t, Ref): t = t.schema.types[t.qn]
        elif isinstance(t, ElemRef): t = t.schema.elements[t.qn]
        else: return t

def is_opt(p): return p.mn == 0
def is_vec(p): return p.mx is UNB or p.mx > 1

def is_text(t):
    """does the (resolved) type consist of text only, without attributes?"""
    t = resolve(t)
    return isinstance(t, (Lit, Fixed, Enum))

def nullable(p):
    """can the particle match nothing?"""
    if p.mn == 0: return True
    if isinstance(p, Elem): return False
    if p.kind == "choice": return any(nullable(i) for i in p.items)
    return all(nullable(i) for i in p.items)
