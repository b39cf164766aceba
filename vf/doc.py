"""XML documents as trees: E(ns, local, attrs, children), children are E or str."""
from xml.parsers import expat
import random
class E:
    __slots__ = ("ns", "name", "attrs", "kids")
    def __init__(s, ns, name, attrs=None, kids=None): s.ns = ns; s.name = name; s.attrs = dict(attrs or {}); s.kids = list(kids or [])
    def elems(s): return [k for k in s.kids if isinstance(k, E)]
    def text(s): return "".join(k for k in s.kids if isinstance(k, str))
    def copy(s): return E(s.ns, s.name, s.attrs, [k.copy() if isinstance(k, E) else k for k in s.kids])
    def walk(s):
        yield s
        for k in s.elems(): yield from k.walk()

def esc(t, attr=False):
    t = t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")
    if attr: t = t.replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")
    return t

def render(e, style=0, rnd=None):
    """style 0: one prefix per namespace declared on the root; style 1: default namespaces declared where they change;
    style 3: as 0, with comments, processing instructions and CDATA sections in text; style 2: as 0, with insignificant whitespace, comments and processing instructions between elements"""
    nss = []
    for x in e.walk():
        for n in [x.ns] + [k[0] for k in x.attrs]:
            if n and n not in nss: nss.append(n)
    pref = {n: "p%d" % i for i, n in enumerate(nss)}
    def go(x, dflt, depth):
        a = []
        if style == 1:
            tag = x.name
            if x.ns != dflt: a.append('xmlns="%s"' % esc(x.ns or "", True))
            d = x.ns
        else:
            tag = (pref[x.ns] + ":" if x.ns else "") + x.name; d = dflt
        if depth == 0:
            for n in nss: a.append('xmlns:%s="%s"' % (pref[n], esc(n, True)))
        for (n, l), v in x.attrs.items():
            a.append('%s="%s"' % ((pref[n] + ":" if n else "") + l, esc(v, True)))
        s = "<" + " ".join([tag] + a)
        if not x.kids: return s + ("/>" if style != 2 else "></%s>" % tag)
        s += ">"
        els = x.elems()
        for k in x.kids:
            if isinstance(k, str):
                if style == 3 and k: s += "<!--x-->" * (len(k) % 2) + esc(k[:len(k) // 2]) + "<?p y?>" + ("<![CDATA[%s]]>" % k[len(k) // 2:] if "]]>" not in k else esc(k[len(k) // 2:])) + "<!-- z -->"
                else: s += esc(k)
            else:
                if style == 2 and len(els) == len(x.kids): s += "\n" + "  " * (depth + 1) + ("<!-- c -->\n " if depth == 0 else "") + ("<?pi x?>" if depth == 1 else "")
                s += go(k, d, depth + 1)
        if style == 2 and len(els) == len(x.kids): s += "\n"
        return s + "</%s>" % tag
    return '<?xml version="1.0" encoding="UTF-8"?>\n' * (style != 1) + go(e, None, 0)

class BadXml(Exception): pass
def parse(text):
    p = expat.ParserCreate(namespace_separator="\x01"); p.buffer_text = True; p.ordered_attributes = True
    root = []; st = []
    def split(n):
        return tuple(n.split("\x01", 1)) if "\x01" in n else (None, n)
    def start(n, a):
        ns, l = split(n); e = E(ns, l, {split(a[i]): a[i+1] for i in range(0, len(a), 2)})
        if st: st[-1].kids.append(e)
        else: root.append(e)
        st.append(e)
    def end(n): st.pop()
    def chars(c): st[-1].kids.append(c)
    p.StartElementHandler = start; p.EndElementHandler = end; p.CharacterDataHandler = chars
    try: p.Parse(text.encode(), True)
    except expat.ExpatError as ex: raise BadXml(str(ex))
    return root[0]

def norm(e):
    """drop insignificant whitespace (in elements that have child elements), merge text"""
    if e.elems(): kids = [norm(k) for k in e.elems()] + ([e.text().strip()] if e.text().strip() else [])
    else: kids = [e.text()] if e.text() else []
    return (e.ns, e.name, tuple(sorted(e.attrs.items(), key=lambda kv: (kv[0][0] or "", kv[0][1]))), tuple(kids))
