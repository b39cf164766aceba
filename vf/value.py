"""Abstract values of schema types: generation, encoding to XML trees, decoding (the reading oracle), mutation."""
from .ir import *
from .doc import E

POOL = {  # (text, canonical display)
 "str": [("hello", None), ("", None), ("a & b <c> \"d\" 'e'", None), (" lead and trail ", None), ("   ", None), ("Grüße 漢字 😀", None), ("line1\nline2", None), ("]]>", None), ("true", None), ("0", None)],
 "bool": [("true", None), ("false", None)],
 "i64": [("0", None), ("-1", None), ("9223372036854775807", None), ("-9223372036854775808", None), ("42", None), ("+7", "7"), ("007", "7")],
 "u64": [("0", None), ("18446744073709551615", None), ("42", None), ("+7", "7"), ("0012", "12")],
 "i32": [("0", None), ("-2147483648", None), ("2147483647", None), ("+13", "13")],
 "dec": [("0", None), ("1.50", None), ("-12345.6789", None), ("79228162514264337593543950335", None), ("+2.5", "2.5")],
 "f32": [("1.5", None), ("-0.25", None), ("0", None), ("16777216", None), ("1e3", "1000"), ("0.1", None)],
}
BAD = {"bool": ["yes", "TRUE", "", " true"], "i64": ["x", "1.5", "", "9223372036854775808", " 1"], "u64": ["-1", "x", "", "18446744073709551616"],
       "i32": ["2147483648", "abc", ""], "dec": ["1,5", "x", ""], "f32": ["abc", "", "1.2.3"]}

def ikey(i, n): return ("e", i.qn) if isinstance(i, Elem) else ("g", n)

class Err(Exception):
    def __init__(s, kind, **kw): s.kind = kind; s.kw = kw
    def __repr__(s): return "%s%r" % (s.kind, s.kw)

# ---------------------------------------------------------------- generation
class Gen:
    def __init__(s, rnd, mode="rand"): s.r = rnd; s.mode = mode
    def lit(s, k):
        t, c = s.r.choice(POOL[k]) if s.mode == "rand" else POOL[k][0]
        return ("lit", c or t, k)
    def type(s, t, depth=0):
        t = resolve(t)
        if isinstance(t, Lit): return s.lit(t.kind)
        if isinstance(t, Fixed): return ("unit",)
        if isinstance(t, Enum): return ("enum", s.r.choice(t.values))
        m = []
        c = t.content
        if c is None: pass
        elif c[0] in ("seq", "all"): m += s.items(c[1], depth)
        elif c[0] == "choice": m.append((("c",), s.alt(c[1], depth)))
        elif c[0] in ("rep", "repall"): m.append((("g", 0), s.occ(c[1], depth)))
        elif c[0] == "simple": m.append((("t",), s.type(c[1], depth)))
        elif c[0] == "ext":
            m.append((("b",), s.type(c[1], depth)))
            if c[2] is not None: m.append((("g", 0), s.occ(c[2], depth)))
        for a in t.attrs:
            v = s.type(a.type, depth)
            if a.optional: v = ("opt", v if s.present(depth) else None)
            m.append((("a", a.name), v))
        return ("rec", m)
    def present(s, depth):
        if s.mode == "min": return False
        if s.mode == "max" and depth < 6: return True
        return s.r.random() < (0.6 if depth < 4 else 0.2)
    def items(s, its, depth):
        return [(ikey(i, n), s.occ(i, depth)) for n, i in enumerate(its)]
    def one(s, i, depth):
        if isinstance(i, Elem): return s.type(i.type, depth + 1)
        if i.kind == "choice": return s.alt(i, depth)
        return ("rec", s.items(i.items, depth))
    def nonempty(s, i, depth):
        for _ in range(30):
            v = s.one(i, depth)
            if isinstance(i, Elem) or enc_group(i, v): return v
            if s.mode == "min": g = Gen(s.r); return g.nonempty(i, depth)
        return None
    def occ(s, i, depth):
        if is_opt(i) and (not s.present(depth) or i.mx == 0): return ("opt", None)
        if is_vec(i):
            lo = max(1, i.mn); hi = lo + 2 if i.mx is UNB else min(i.mx, lo + 2)
            n = lo if s.mode == "min" or depth > 4 else s.r.randint(lo, hi) if s.mode == "rand" else hi
            l = [s.nonempty(i, depth) for _ in range(n)]
            if None in l: return ("opt", None) if is_opt(i) else ("list", [])
            v = ("list", l)
        elif is_opt(i):
            v = s.nonempty(i, depth)
            if v is None: return ("opt", None)
        else: v = s.one(i, depth)
        return ("opt", v) if is_opt(i) else v
    def alt(s, g, depth):
        ks = list(range(len(g.items)))
        k = s.r.choice(ks) if s.mode != "min" else 0
        for k in [k] + ks:
            i = g.items[k]
            if is_vec(i):
                lo = max(1, i.mn); hi = lo + 2 if i.mx is UNB else min(i.mx, lo + 2)
                v = ("list", [s.nonempty(i, depth) for _ in range(s.r.randint(lo, hi))])
                if None in v[1]: continue
            else:
                v = s.nonempty(i, depth)
                if v is None: continue
            return ("alt", k, ikey(i, k), v, tuple(ikey(j, n) for n, j in enumerate(g.items)))
        raise ValueError("empty choice")

# ---------------------------------------------------------------- encoding
def enc_elem(qn, t, v):
    at, kids = enc_type(t, v)
    return E(qn[0], qn[1], at, kids)
def enc_type(t, v):
    t = resolve(t)
    if isinstance(t, Fixed): return {}, [t.text] if t.text else []
    if isinstance(t, (Lit, Enum)): return {}, [v[1]] if v[1] else []
    at = {}; kids = []
    for (key, x) in v[1]:
        if key[0] == "a":
            a = [a for a in t.attrs if a.name == key[1]][0]
            if x[0] == "opt": x = x[1]
            if x is not None: at[(None, a.name)] = attr_text(a.type, x)
    c = t.content
    cm = [x for (k, x) in v[1] if k[0] != "a"]
    if c is None: pass
    elif c[0] in ("seq", "all"):
        for i, x in zip(c[1], cm): kids += enc_occ(i, x)
    elif c[0] == "choice": kids += enc_group(c[1], cm[0])
    elif c[0] in ("rep", "repall"): kids += enc_occ(c[1], cm[0])
    elif c[0] == "simple":
        a2, kids = enc_type(c[1], cm[0]); at = {**a2, **at}
    elif c[0] == "ext":
        a2, k2 = enc_type(c[1], cm[0]); at = {**a2, **at}; kids += k2
        if c[2] is not None: kids += enc_occ(c[2], cm[1])
    return at, kids
def attr_text(t, x):
    t = resolve(t)
    return t.text if isinstance(t, Fixed) else x[1]
def enc_occ(i, x):
    if x[0] == "opt" and is_opt(i):
        if x[1] is None: return []
        x = x[1]
    l = x[1] if is_vec(i) else [x]
    out = []
    for y in l:
        if isinstance(i, Elem): out.append(enc_elem(i.qn, i.type, y))
        else: out += enc_group(i, y)
    return out
def enc_group(g, v):
    if g.kind == "choice":
        i = g.items[v[1]]
        l = v[3][1] if is_vec(i) else [v[3]]
        out = []
        for y in l: out += [enc_elem(i.qn, i.type, y)] if isinstance(i, Elem) else enc_group(i, y)
        return out
    out = []
    for i, (k, x) in zip(g.items, v[1]): out += enc_occ(i, x)
    return out

# ---------------------------------------------------------------- decoding (in-order reading; unread content is ignored)
import re
from decimal import Decimal
import struct
def lit_parse(kind, text):
    """canonical text, or None if it is not in the lexical space"""
    if kind == "str": return text
    if kind == "bool": return text if text in ("true", "false") else None
    if kind in ("i64", "u64", "i32"):
        if not re.fullmatch(r"[+-]?[0-9]+" if kind != "u64" else r"\+?[0-9]+", text): return None
        n = int(text); lo, hi = {"i64": (-2**63, 2**63-1), "u64": (0, 2**64-1), "i32": (-2**31, 2**31-1)}[kind]
        return str(n) if lo <= n <= hi else None
    for t, c in POOL[kind]:
        if text in (t, c): return c or t
    if text in BAD[kind]: return None
    raise KeyError(text)
def first_text(e):
    if not e.kids: return ""
    if isinstance(e.kids[0], str): return e.kids[0]
    raise Err("TextExpected", name=e.name)

def dec_type(t, e, cur=None):
    """e: element; cur: list of its unread child elements (shared with the caller for extension bases)"""
    t = resolve(t)
    if isinstance(t, Lit):
        x = first_text(e); c = lit_parse(t.kind, x)
        if c is None: raise Err("ParseType", type=t.xsd, value=x)
        return ("lit", c, t.kind)
    if isinstance(t, Fixed):
        x = first_text(e)
        if x != t.text: raise Err("FixedMismatch", expected=t.text, received=x)
        return ("unit",)
    if isinstance(t, Enum):
        x = first_text(e)
        if x not in t.values: raise Err("InvalidVariant", name=x)
        return ("enum", x)
    if cur is None: cur = e.elems()
    m = []; c = t.content
    if c is None: pass
    elif c[0] == "seq": m += dec_items(c[1], cur)
    elif c[0] == "all": m += dec_all(c[1], cur)
    elif c[0] == "choice": m.append((("c",), dec_group(c[1], cur)))
    elif c[0] in ("rep", "repall"): m.append((("g", 0), dec_occ(c[1], cur)))
    elif c[0] == "simple": m.append((("t",), dec_type(c[1], e, cur)))
    elif c[0] == "ext":
        m.append((("b",), dec_type(c[1], e, cur)))
        if c[2] is not None: m.append((("g", 0), dec_occ(c[2], cur)))
    for a in t.attrs:
        x = e.attrs.get((None, a.name))
        if x is None:
            if not a.optional: raise Err("MissingAttribute", name=a.name)
            v = ("opt", None)
        else:
            at = resolve(a.type)
            if isinstance(at, Lit):
                cc = lit_parse(at.kind, x)
                if cc is None: raise Err("ParseType", type=at.xsd, value=x)
                v = ("lit", cc, at.kind)
            elif isinstance(at, Fixed):
                if x != at.text: raise Err("FixedMismatch", expected=at.text, received=x)
                v = ("unit",)
            else:
                if x not in at.values: raise Err("InvalidVariant", name=x)
                v = ("enum", x)
            if a.optional: v = ("opt", v)
        m.append((("a", a.name), v))
    return ("rec", m)
def hit(i, e): return (e.ns, e.name) == i.qn
def first(i, cur):
    """does the unread content start with this particle?"""
    if not cur: return False
    if isinstance(i, Elem): return hit(i, cur[0])
    if i.kind in ("choice", "all"): return any(first(j, cur) for j in i.items)
    for j in i.items:
        if first(j, cur): return True
        if not nullable(j): return False
    return False
def dec_items(its, cur): return [(ikey(i, n), dec_occ(i, cur)) for n, i in enumerate(its)]
def dec_all(its, cur):
    m = []
    for i in its:
        j = next((k for k, e in enumerate(cur) if hit(i, e)), None)
        if j is None:
            if not is_opt(i): raise Err("MissingElement", name=i.qn[1], namespace=i.qn[0])
            v = ("opt", None)
        else:
            v = dec_type(i.type, cur.pop(j))
            if is_opt(i): v = ("opt", v)
        m.append((("e", i.qn), v))
    return m
def dec_one(i, cur):
    if isinstance(i, Elem):
        if not cur or not hit(i, cur[0]): raise Err("MissingElement", name=i.qn[1], namespace=i.qn[0])
        return dec_type(i.type, cur.pop(0))
    return dec_group(i, cur)
def dec_occ(i, cur):
    if is_vec(i):
        l = []
        while first(i, cur): l.append(dec_one(i, cur))
        if is_opt(i): return ("opt", ("list", l) if l else None)
        return ("list", l)
    if is_opt(i): return ("opt", dec_one(i, cur) if first(i, cur) else None)
    return dec_one(i, cur)
def dec_group(g, cur):
    if g.kind == "seq": return ("rec", dec_items(g.items, cur))
    if g.kind == "all": return ("rec", dec_all(g.items, cur))
    for k, i in enumerate(g.items):
        if first(i, cur):
            key = ikey(i, k); keys = tuple(ikey(j, n) for n, j in enumerate(g.items))
            if is_vec(i):
                l = []
                while first(i, cur): l.append(dec_one(i, cur))
                return ("alt", k, key, ("list", l), keys)
            return ("alt", k, key, dec_one(i, cur), keys)
    raise Err("MissingVariant")
