"""Binds abstract values to the Rust types the generator emitted, by XML name where a name exists and by position
otherwise; identifiers chosen by the generator for anonymous parts are never assumed."""
import re
from .ir import *
class Mismatch(Exception):
    """kind: occ (plain/Option/Vec), lit (Rust type of a literal), enum, shape"""
    def __init__(self, kind, msg): Exception.__init__(self, msg); self.kind = kind
PRIM = {"str": {"String"}, "bool": {"bool"}, "i64": {"i64"}, "u64": {"u64"}, "i32": {"i32"}, "dec": {"Decimal"}, "f32": {"f32"}}
def n(s):
    s = s[2:] if s.startswith("r#") else s
    return re.sub(r"[^0-9a-z\u0080-\U0010ffff]", "", s.lower())
class Binder:
    def __init__(self, types, enumtables=None):
        self.t = {x["name"]: x for x in types}
        self.enums = enumtables or {}      # type name -> {string: ident}
    def strip(self, ty):
        """through newtype structs; returns (list of wrappers, inner type)"""
        w = 0
        while isinstance(ty, str) and ty in self.t and self.t[ty]["kind"] == "tuple" and len(self.t[ty]["fields"]) == 1:
            ty = self.t[ty]["fields"][0]; w += 1
        return w, ty
    def fields(self, ty, members):
        d = self.t.get(ty)
        if d is None or d["kind"] != "struct": raise Mismatch("shape", "struct expected for %r, got %r" % ([k for k, _ in members], ty))
        fs = list(d["fields"])
        if len(fs) != len(members): raise Mismatch("shape", "type %s has fields %r for members %r" % (ty, [f[0] for f in fs], [k for k, _ in members]))
        out = {}; rest = []
        used = set()
        names = [n(k[1][1]) if k[0] == "e" else n(k[1]) if k[0] == "a" else None for k, _ in members]
        for (k, _), nm in zip(members, names):
            f = None
            if nm is not None:
                c = [f for f in fs if n(f[0]) == nm and f[0] not in used]
                if c and (len(c) == 1 or True): f = c[0]
            if f: out[k] = f; used.add(f[0])
            else: rest.append(k)
        left = [f for f in fs if f[0] not in used]
        for k, f in zip(rest, left): out[k] = f
        return out
    def variants(self, ty, keys):
        d = self.t.get(ty)
        if d is None or d["kind"] != "enum": raise Mismatch("shape", "enum expected, got %r" % (ty,))
        vs = list(d["variants"])
        if len(vs) != len(keys): raise Mismatch("shape", "choice type %s has variants %r for alternatives %r" % (ty, [v[0] for v in vs], keys))
        out = {}; used = set(); rest = []
        for k in keys:
            c = [v for v in vs if k[0] == "e" and n(v[0]) == n(k[1][1]) and v[0] not in used]
            if c: out[k] = c[0]; used.add(c[0][0])
            else: rest.append(k)
        for k, v in zip(rest, [v for v in vs if v[0] not in used]): out[k] = v
        return out
    # -------- value -> JSON of the Rust value
    def put(self, v, ty):
        k = v[0]
        if k == "opt":
            if not (isinstance(ty, list) and ty[0] == "Option"): raise Mismatch("occ", "Option expected, got %r" % (ty,))
            return None if v[1] is None else {"Some": self.put(v[1], ty[1])}
        if k == "list":
            if not (isinstance(ty, list) and ty[0] == "Vec"): raise Mismatch("occ", "Vec expected, got %r" % (ty,))
            return [self.put(x, ty[1]) for x in v[1]]
        if isinstance(ty, list):
            if ty[0] == "Box": return self.put(v, ty[1])
            raise Mismatch("occ", "%s where a plain value is expected" % ty[0])
        w, inner = self.strip(ty)
        if k == "lit":
            if inner not in PRIM[v[2]]: raise Mismatch("lit", "literal %s has Rust type %r" % (v[2], inner))
            r = v[1]
        elif k == "unit":
            if inner != "()": raise Mismatch("lit", "fixed value has Rust type %r" % (inner,))
            r = "()"
        elif k == "enum":
            t = self.enums.get(inner)
            if t is None: raise Mismatch("enum", "enumeration has Rust type %r" % (inner,))
            if v[1] not in t: raise Mismatch("enum", "enumeration value %r has no variant in %s" % (v[1], inner))
            r = t[v[1]]
        elif k == "rec":
            if isinstance(inner, list): raise Mismatch("occ", "record expected, got %r" % (inner,))
            fm = self.fields(inner, v[1])
            r = {fm[key][0]: self.put(x, fm[key][1]) for key, x in v[1]}
        elif k == "alt":
            if isinstance(inner, list): raise Mismatch("occ", "choice expected, got %r" % (inner,))
            vm = self.variants(inner, v[4])[v[2]]
            if len(vm[1]) != 1: raise Mismatch("shape", "variant %s of %s" % (vm[0], inner))
            r = {vm[0]: self.put(v[3], vm[1][0])}
        for _ in range(w): r = {"0": r}
        return r
    def rust_type_name(self, local):
        c = [t for t in self.t if n(t) == n(local)]
        if len(c) != 1: raise Mismatch("shape", "no (unique) type for %s: %r" % (local, c))
        return c[0]
