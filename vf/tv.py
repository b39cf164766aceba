"""Translation validation by contracts: for a schema, the code the generator emits for it is put under contracts derived
from the independent interpretation of the schema (ir.py), and every function of it is proved with Verus."""
import copy, re, json
from . import ir, bind, vx, corpus
from .ir import Lit, Fixed, Enum, Elem, Group, Complex, resolve, is_opt, is_vec, nullable
from .units import decode as udecode, runtime as uruntime
class Unsup(Exception): pass
class Broken(Exception): pass

VT = {"String": "XStr", "Decimal": "XDec", "f32": "XF32", "bool": "bool", "i64": "i64", "u64": "u64", "i32": "i32", "()": "()"}
def vt(ty):
    if isinstance(ty, list):
        if ty[0] == "Box": raise Unsup("recursive type")
        return "%s<%s>" % (ty[0], vt(ty[1]))
    return VT.get(ty, ty)
def lit(s): return 'xlit_s(%s)' % json.dumps(s, ensure_ascii=False)
def nsl(ns): return "Some(&%s)" % lit(ns) if ns else "None::<&'a XStr>"
def nso(ns): return "Some(%s)" % lit(ns) if ns else "None"
def qk(i, n): return ("e", i.qn) if isinstance(i, Elem) else ("g", n)

class MB:
    """binding by name, on the names before mangling"""
    def __init__(s, types, mtypes, ren): s.b = bind.Binder(types); s.t = {x["name"]: x for x in mtypes}; s.ren = ren; s.un = {v: k for k, v in ren.items()}
    def ty(s, x): return [x[0]] + [s.ty(y) for y in x[1:]] if isinstance(x, list) else s.ren.get(x, x)
    def fields(s, ty, mem): return {k: (s.ren.get(f[0], f[0]), s.ty(f[1])) for k, f in s.b.fields(s.un.get(ty, ty), mem).items()}
    def variants(s, ty, keys): return {k: (s.ren.get(v[0], v[0]), [s.ty(f) for f in v[1]]) for k, v in s.b.variants(s.un.get(ty, ty), keys).items()}
    def rust_type_name(s, l): x = s.b.rust_type_name(l); return s.ren.get(x, x)
class Gen:
    def __init__(s, m0, on=None):
        s.on = on
        m, ren = mangle(m0)
        s.m = m; s.b = MB(m0.types, m.types, ren); s.un = s.b.un; s.spec = []; s.items = {}; s.done = {}; s.stack = []; s.extra = {}; s.skip = set(); s.k = 0; s.lemmas = []; s.roots = []
        s.bodies = {}; s.strs = {}; s.rev = {}; s.cvar = set()
        ex = vx.extract([dict(text=m.code)])[0]
        if "error" in ex: raise Unsup("generated code does not parse")
        s.impls = {it["owner"] for it in ex["items"] if it.get("trait") and "FromStr" in it["trait"]}
        for it in ex["items"]:
            for f in it.get("fns", []):
                if f["name"] == "to_xml_writer": s.bodies[it["owner"]] = f["src"]
                if f["path"].endswith("::as_str"): s.strs[it["owner"]] = f["src"]
        ns = {}
        for r, b in s.bodies.items():
            mine = {"": u for u in re.findall(r'set_default_ns\s*\(\s*"((?:[^"\\]|\\.)*)"', b)}
            for p, u in re.findall(r'set_ns\s*\(\s*"((?:[^"\\]|\\.)*)"\s*,\s*"((?:[^"\\]|\\.)*)"', b): mine.setdefault(p, u)
            ns.setdefault(tuple(sorted(mine.items())), []).append(r)
        if len(ns) != 1: raise Unsup("the types do not all declare the same namespaces: %s" % sorted(ns))
        s.order = [("", u) for u in re.findall(r'set_default_ns\s*\(\s*"((?:[^"\\]|\\.)*)"', b)] + re.findall(r'set_ns\s*\(\s*"((?:[^"\\]|\\.)*)"\s*,\s*"((?:[^"\\]|\\.)*)"', b)
        s.ns = dict(next(iter(ns)))
        if len(set(s.ns.values())) != len(s.ns): raise Unsup("two prefixes for one namespace")
        s.pref = {u: p for p, u in s.ns.items()}
        s.spec.append("pub open spec fn nsm(m: Map<XStr, XStr>) -> Map<XStr, XStr> { %s }" % s.nsm("m"))
        for kind, qn in m.ir.order:
            t = m.ir.elements[qn] if kind == "element" else m.ir.types[qn]
            r = s.b.rust_type_name(qn[1]); s.named(r, t); s.root(r, qn)
        for r in s.b.t:
            if r not in s.done: s.skip.add(r + "::*"); s.skip.add("<%s as XFromStr>" % r); s.skip.add("<%s as XDisplay>" % r)
    def nsm(s, e):
        for p, u in s.order: e = "put_s(%s, %s, %s)" % (e, lit(p), lit(u))
        return e
    def name(s, qn):
        if not qn[0]:
            if "" in s.pref.values(): raise Unsup("unqualified element under a default namespace")
            return qn[1]
        p = s.pref.get(qn[0])
        if p is None: raise Unsup("no prefix for %s" % qn[0])
        return (p + ":" if p else "") + qn[1]
    def fresh(s, p): s.k += 1; return "%s%d" % (p, s.k)

    # ---- one Rust type against one part of the schema
    def named(s, r, t):
        """r: element-like type"""
        if r in s.done:
            if s.done[r] is not resolve(t): raise Unsup("type %s stands for two parts of the schema" % r)
            return
        if r in s.stack: raise Unsup("recursive type %s" % r)
        d = s.b.t.get(r)
        if d is None: raise Unsup("no type %s" % r)
        if not re.fullmatch(r"\w+", r, re.A): raise Unsup("name %s" % r)
        t = resolve(t); s.stack.append(r)
        if d["kind"] == "tuple" and len(d["fields"]) == 1: s.newtype(r, t, d["fields"][0])
        elif d["kind"] == "struct" and isinstance(t, Complex): s.complex(r, t)
        elif d["kind"] == "enum" and isinstance(t, Enum): s.enum(r, t, d)
        else: raise Unsup("type %s has an unexpected shape" % r)
        s.stack.pop(); s.done[r] = t
        s.skip.add(r + "::lookahead"); s.skip.add(r + "::to_xml"); s.skip.add(r + "::from_xml")
    def group(s, r, g, celem=False):
        if r in s.done:
            if s.done[r] is not g: raise Unsup("type %s stands for two groups" % r)
            return
        if r in s.stack: raise Unsup("recursive type %s" % r)
        if not re.fullmatch(r"\w+", r, re.A): raise Unsup("name %s" % r)
        s.stack.append(r)
        if g.kind == "choice": s.choice(r, g, celem)
        else:
            fm = s.b.fields(r, [(qk(i, n), None) for n, i in enumerate(g.items)])
            fs = [(i, fm[qk(i, n)]) for n, i in enumerate(g.items)]
            st = [s.step(r, i, f, g.kind == "all") for i, f in fs]
            s.emit(r, st, [], group=True)
            if g.kind == "seq": la = s.first_seq(g.items, [f[1] for _, f in fs])
            else: la = " || ".join(s.first(i, f[1]) for i, f in fs) or "false"
            s.look(r, la)
        s.stack.pop(); s.done[r] = g
        s.skip.add(r + "::to_xml"); s.skip.add(r + "::from_xml")
    def inner(s, ty):
        """the type under Option and Vec"""
        while isinstance(ty, list):
            if ty[0] == "Box": raise Unsup("recursive type")
            ty = ty[1]
        return ty
    def check_occ(s, i, ty, where):
        o = isinstance(ty, list) and ty[0] == "Option"; x = ty[1] if o else ty
        v = isinstance(x, list) and x[0] == "Vec"
        if o != is_opt(i) or v != is_vec(i): raise Broken("C07", "%s: declared as %s for minimum %s, maximum %s" % (where, vt(ty), i.mn, i.mx))

    # ---- text
    def ptext(s, t, ty, txt):
        """parsing the text `txt` as type t with Rust type ty"""
        t = resolve(t)
        if isinstance(t, Lit): return "litp::<%s>(%s, %s)" % (vt(ty), txt, lit(ir.CANON.get(t.xsd, t.xsd)))
        if isinstance(t, Fixed): return "fixp(%s, %s)" % (txt, lit(t.text))
        s.named(ty, t)
        return "%s::from_str_s(%s)" % (ty, txt)
    def wtext(s, t, ty, v):
        t = resolve(t)
        return lit(t.text) if isinstance(t, Fixed) else "%s.x_to_string_s()" % v
    def prim(s, ty): return isinstance(ty, str) and ty in VT
    def check_prim(s, t, ty):
        t = resolve(t)
        if isinstance(t, Lit):
            if ty not in bind.PRIM[t.kind]: raise Broken("C08", "%s: declared as %s" % (t.xsd, ty))
        elif isinstance(t, Fixed):
            if ty != "()": raise Unsup("fixed value as %s" % (ty,))
        else: raise Unsup("%s as %s" % (type(t).__name__, ty))
    # ---- an element with its content
    def pe(s, t, ty, c):
        if s.prim(ty): s.check_prim(t, ty); return "match txt(%s) { Ok(t) => %s, Err(e) => Err(e) }" % (c, s.ptext(t, ty, "t"))
        s.named(ty, t)
        return "drop_rest(p_%s(%s, elems(%s.children_s())))" % (ty, c, c)
    def we(s, qn, t, ty, pre, v):
        n = lit(s.name(qn))
        if s.prim(ty):
            s.check_prim(t, ty); rt = resolve(t)
            return ("leaf_fixed" if isinstance(rt, Fixed) else "leaf") + "(%s, %s, %s)" % (pre, n, s.wtext(t, ty, v))
        s.named(ty, t)
        return "w_%s(%s.push(Ev::Start { name: xml::name::name_of(%s), attributes: at_%s(Seq::empty(), %s), namespace: nsm(Map::empty()) }), %s).push(Ev::End)" % (ty, pre, n, ty, v, v)
    def hit(s, i, e="s[0]"): return "tmatch(%s, %s, %s)" % (e, lit(i.qn[1]), nsl(i.qn[0]))
    def first(s, i, ty):
        if isinstance(i, Elem): return "(s.len() > 0 && %s)" % s.hit(i)
        return "la_%s(s)" % s.inner(ty)
    def first_seq(s, its, tys):
        o = []
        for i, ty in zip(its, tys):
            o.append(s.first(i, ty))
            if not nullable(i): break
        return " || ".join(o) or "false"
    # ---- one field: reading function, writing expression
    def step(s, r, i, f, unordered=False, celem=False):
        fname, ty = f; s.check_occ(i, ty, "%s.%s" % (r, fname)); it = s.inner(ty); T = vt(it)
        x = dict(f=fname, ty=vt(ty), loop=None, la=None, vec=is_vec(i), grp=None)
        elem = isinstance(i, Elem)
        if not elem: s.group(it, i); x["grp"] = it
        st = s.fresh("st")
        sig = "pub open spec fn %s<'a>(n: RNode<'a>, s: Seq<RNode<'a>>) -> Result<(%s, Seq<RNode<'a>>), FromXmlError> " % (st, vt(ty))
        one = "s.remove(0)"
        if is_vec(i):
            if unordered: raise Unsup("repeated element in an all group")
            q = s.qv(i, it, elem); x["loop"] = q; x["q"] = q
            if is_opt(i): body = "match %s(Seq::empty(), n, s) { Ok(x) => Ok((if x.0.len() == 0 { None } else { Some(vof(x.0)) }, x.1)), Err(e) => Err(e) }" % q["name"]
            else: body = "match %s(Seq::empty(), n, s) { Ok(x) => Ok((vof(x.0), x.1)), Err(e) => Err(e) }" % q["name"]
        elif elem:
            c = "s[0]"; cond = "s.len() > 0 && " + s.hit(i)
            if unordered:
                k = "first_match(s, %s, %s)" % (lit(i.qn[1]), nsl(i.qn[0])); c = "s[%s]" % k; cond = k + " < s.len()"; one = "s.remove(%s)" % k
            got = "Some(x)" if is_opt(i) else "x"
            miss = "Ok((None, s))" if is_opt(i) else "Err(FromXmlError::MissingElement { name: %s, namespace: %s })" % (lit(i.qn[1]), nso(i.qn[0]))
            body = "if %s { match { %s } { Ok(x) => Ok((%s, %s)), Err(e) => Err(e) } } else { %s }" % (cond, s.pe(i.type, it, c), got, one, miss)
        else:
            if unordered: raise Unsup("group in an all group")
            body = "if la_%s(s) { match p_%s(n, s) { Ok(x) => Ok((Some(x.0), x.1)), Err(e) => Err(e) } } else { Ok((None, s)) }" % (it, it) if is_opt(i) else "p_%s(n, s)" % it
        s.spec.append(sig + "{ %s }" % body); x["st"] = st
        # writing
        wone = (lambda pre, v: s.we(i.qn, i.type, it, pre, v)) if elem else (lambda pre, v: "w_%s(%s, %s)" % (it, pre, v))
        if is_vec(i):
            w = s.fresh("wv"); x["wv"] = w
            s.spec.append("pub open spec fn %s(pre: Seq<Ev>, s: Seq<&%s>) -> Seq<Ev> decreases s.len() { if s.len() == 0 { pre } else { %s(%s, s.skip(1)) } }" % (w, T, w, wone("pre", "(*s[0])")))
            one_ = lambda pre, v: "%s(%s, refs(%s@))" % (w, pre, v)
        else: one_ = wone
        x["w"] = (lambda pre, v: "(match %s { Some(x) => %s, None => %s })" % (v, one_(pre, "x"), pre)) if is_opt(i) else one_
        x["w1"] = one_
        return x
    def qv(s, i, it, elem):
        q = s.fresh("qv"); T = vt(it)
        if elem: body = "if s.len() > 0 && %s { match { %s } { Ok(x) => %s(acc.push(x), n, s.remove(0)), Err(e) => Err(e) } } else { Ok((acc, s)) }" % (s.hit(i), s.pe(i.type, it, "s[0]"), q)
        else: body = "if la_%s(s) { match p_%s(n, s) { Ok(x) => if x.1.len() < s.len() { %s(acc.push(x.0), n, x.1) } else { Ok((acc, x.1)) }, Err(e) => Err(e) } } else { Ok((acc, s)) }" % (it, it, q)
        s.spec.append("pub open spec fn %s<'a>(acc: Seq<%s>, n: RNode<'a>, s: Seq<RNode<'a>>) -> Result<(Seq<%s>, Seq<RNode<'a>>), FromXmlError> decreases s.len() { %s }" % (q, T, T, body))
        s.spec.append("pub broadcast proof fn m_%s(acc: Seq<%s>, n: RNode, s: Seq<RNode>) ensures (#[trigger] %s(acc, n, s)) is Ok ==> %s(acc, n, s)->Ok_0.1.len() <= s.len() && (%s ==> %s(acc, n, s)->Ok_0.1.len() < s.len()) decreases s.len() { %s }" % (q, T, q, q, "s.len() > 0 && " + s.hit(i).replace("'a", "'_") if elem else "la_%s(s)" % it, q,
            ("if s.len() > 0 && %s { match { %s } { Ok(x) => { m_%s(acc.push(x), n, s.remove(0)); } Err(e) => {} } }" % (s.hit(i).replace("'a", "'_"), s.pe(i.type, it, "s[0]"), q)) if elem else
            "broadcast use {mono_%s, shrink_%s}; match p_%s(n, s) { Ok(x) => { if x.1.len() < s.len() { m_%s(acc.push(x.0), n, x.1); } } Err(e) => {} }" % (it, it, it, q)))
        return dict(name=q, elem=elem, grp=None if elem else it)
    # ---- the functions of one struct
    def emit(s, r, steps, attrs, head=None, group=False, mk=None):
        """steps: content fields in order; attrs: (attribute, field); head: ("base", field, type) or ("text", ...)"""
        use = []
        # reading
        n = 0; code = ""; close = ""; cur = "s"; flds = []
        if head:
            k, f, e = head["p"]; code += "match %s { Err(e) => Err(e), Ok(x%d) => " % (e("n", cur), n); close = "}" + close; flds.append((f, "x%d.0" % n)); cur = "x%d.1" % n; n += 1
        for x in steps:
            code += "match %s(n, %s) { Err(e) => Err(e), Ok(x%d) => " % (x["st"], cur, n); close = "}" + close; flds.append((x["f"], "x%d.0" % n)); cur = "x%d.1" % n; n += 1
            if x["grp"]: use.append(x["grp"])
        for a, (f, ty) in attrs:
            code += "match %s { Err(e) => Err(e), Ok(a%d) => " % (s.pattr(a, ty), n); close = "}" + close; flds.append((f, "a%d" % n)); n += 1
        val = "%s { %s }" % (r, ", ".join("%s: %s" % x for x in flds))
        code += "Ok((%s, %s))" % (val, cur) + close
        s.spec.append("#[verifier::opaque] pub open spec fn p_%s<'a>(n: RNode<'a>, s: Seq<RNode<'a>>) -> Result<(%s, Seq<RNode<'a>>), FromXmlError> { %s }" % (r, r, code))
        # writing
        e = "pre"
        if head: e = head["w"](e)
        for x in steps: e = x["w"](e, "v." + x["f"]) if e == "pre" else "{ let p = %s; %s }" % (e, x["w"]("p", "v." + x["f"]))
        s.spec.append("#[verifier::opaque] pub open spec fn w_%s(pre: Seq<Ev>, v: %s) -> Seq<Ev> { %s }" % (r, r, e))
        s.fns(r, [x for x in steps], group, any(x["grp"] for x in steps))
        if group: s.mono(r, steps)
        return r
    def lemmas_for(s, xs):
        u = ["lemma_first"]
        for x in xs:
            if x.get("grp") and x["vec"]: u.append("shrink_" + x["grp"])
        return "broadcast use {%s};" % ", ".join(dict.fromkeys(u))
    def fns(s, r, xs, group, celem=False):
        loops = {}; pre = {}; k = 0
        for x in xs:
            if not x["vec"]: continue
            loops[k] = "invariant %s(writer@, __it%d@) == %s(__w%d, __s%d), same_kind(ctx, __c%d)," % (x["wv"], k, x["wv"], k, k, k)
            pre[k] = "let ghost __s%d = __it%d@; let ghost __w%d = writer@; let ghost __c%d = ctx;" % (k, k, k, k); k += 1
        # a group writes no start tag; one that is not the alternative of a choice only ever gets a wrapped context
        if group: c = "ensures r is Ok%s ==> final(writer)@ == w_%s(old(writer)@, *self)," % ("" if r in s.cvar else " && ctx is Virtual", r)
        else: c = "ensures r is Ok ==> (match ctx { Context::Virtual(_) => final(writer)@ == w_%s(old(writer)@, *self), Context::Context(i) => final(writer)@ == w_%s(old(writer)@.push(Ev::Start { name: stat(i.name), attributes: at_%s(attrs_s(i.attributes@), *self), namespace: nsm(i.namespace@) }), *self).push(Ev::End) })," % (r, r, r)
        rev = "reveal(w_%s); " % r + ("" if group else "".join("reveal(at_%s); " % x for x in [r] + s.rev.get(r, [])))
        s.items[r + "::to_xml_writer"] = dict(c=c, loops=loops, pre=pre, entry="broadcast use {lemma_atpush, lemma_at0}; proof { %s }" % rev, nloops=k)
        loops = {}; pre = {}; k = 0
        for x in xs:
            if not x["vec"]: continue
            q = x["q"]["name"]
            loops[k] = "invariant %s(Seq::empty(), __d%d, __n%d) is Ok || fl_err() ==> %s(vec@, __d%d, node.rest()) == %s(Seq::empty(), __d%d, __n%d), node.node == __d%d, " % (q, k, k, q, k, q, k, k, k) + ("decreases node.rest().len()," if s.on is None else "")
            pre[k] = "let ghost __n%d = node.rest(); let ghost __d%d = node.node;" % (k, k); k += 1
        s.items[r + "::from_xml_node"] = dict(c="ensures final(node).node == old(node).node, match p_%s(old(node).node, old(node).rest()) { Ok(x) => r == Ok::<%s, FromXmlError>(x.0) && final(node).rest() == x.1, Err(e) => fl_err() ==> r == Err::<%s, FromXmlError>(e) }," % (r, r, r),
            loops=loops, pre=pre, entry="%s proof { reveal(p_%s); }" % (s.lemmas_for(xs), r), nloops=k)
    def look(s, r, la):
        s.spec.append("#[verifier::opaque] pub open spec fn la_%s<'a>(s: Seq<RNode<'a>>) -> bool { %s }" % (r, la))
        s.items[r + "::lookahead"] = dict(c="ensures final(node).node == old(node).node, final(node).rest() == old(node).rest(), r == la_%s(old(node).rest())," % r, entry="proof { reveal(la_%s); }" % r, nloops=0)
    def mono(s, r, xs):
        gs = list(dict.fromkeys(x["grp"] for x in xs if x["grp"])); qs = [x["q"]["name"] for x in xs if x["vec"]]
        u = ["mono_" + g for g in gs] + ["m_" + q for q in qs] + ["lemma_first"]
        s.spec.append("pub broadcast proof fn mono_%s(n: RNode, s: Seq<RNode>) ensures (#[trigger] p_%s(n, s)) is Ok ==> p_%s(n, s)->Ok_0.1.len() <= s.len() { broadcast use {%s}; reveal(p_%s); }" % (r, r, r, ", ".join(u), r))
        u += ["shrink_" + g for g in gs]
        s.spec.append("pub broadcast proof fn shrink_%s(n: RNode, s: Seq<RNode>) requires #[trigger] la_%s(s) ensures (#[trigger] p_%s(n, s)) is Ok ==> p_%s(n, s)->Ok_0.1.len() < s.len() { broadcast use {%s}; reveal(p_%s); reveal(la_%s); }" % (r, r, r, r, ", ".join(u), r, r))
    def pattr(s, a, ty):
        it = s.inner(ty)
        if (isinstance(ty, list) and ty[0] == "Option") != a.optional or (isinstance(ty, list) and isinstance(ty[1], list)): raise Unsup("attribute %s" % a.name)
        if s.prim(it): s.check_prim(a.type, it)
        p = s.ptext(a.type, it, "*t"); n = lit(a.name)
        if a.optional: return "(match n.attribute_s(&%s) { Some(t) => match { %s } { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }, None => Ok(None) })" % (n, p)
        return "(match n.attribute_s(&%s) { Some(t) => %s, None => Err(FromXmlError::MissingAttribute { name: %s }) })" % (n, p, n)
    def complex(s, r, t):
        c = t.content; mem = []
        if c is None: pass
        elif c[0] in ("seq", "all"): mem += [(qk(i, n), i) for n, i in enumerate(c[1])]
        elif c[0] == "choice": mem.append((("c",), None))
        elif c[0] in ("rep", "repall"): mem.append((("g", 0), c[1]))
        elif c[0] == "simple": mem.append((("t",), None))
        elif c[0] == "ext":
            mem.append((("b",), None))
            if c[2] is not None: mem.append((("g", 0), c[2]))
        mem += [(("a", a.name), a) for a in t.attrs]
        fm = s.b.fields(r, mem); steps = []; head = None; at = []
        attrs = [(a, fm[("a", a.name)]) for a in t.attrs]
        for a, (f, ty) in attrs: at.append((a, "v." + f, ty))
        own = base = None
        for k, i in mem:
            if k[0] in ("e", "g"): steps.append(s.step(r, i, fm[k], unordered=bool(c) and c[0] == "all"))
            elif k[0] == "c":
                f, ty = fm[k]
                if isinstance(ty, list): raise Unsup("choice content %s" % ty)
                s.group(ty, c[1], celem=True); own = (ty, f)
                head = dict(p=("c", f, lambda n, cur, ty=ty: "p_%s(%s, %s)" % (ty, n, cur)), w=lambda e, ty=ty, f=f: "w_%s(%s, v.%s)" % (ty, e, f))
            elif k[0] == "t":
                f, ty = fm[k]
                if s.prim(ty):
                    s.check_prim(c[1], ty)
                    head = dict(p=("t", f, lambda n, cur, ty=ty: "(match txt(%s) { Ok(t) => match { %s } { Ok(x) => Ok((x, %s)), Err(e) => Err(e) }, Err(e) => Err(e) })" % (n, s.ptext(c[1], ty, "t"), cur)),
                        w=lambda e, ty=ty, f=f: "text%s(%s, %s)" % ("_fixed" if isinstance(resolve(c[1]), Fixed) else "", e, s.wtext(c[1], ty, "v." + f)))
                else:
                    s.named(ty, c[1]); own = (ty, f)
                    head = dict(p=("t", f, lambda n, cur, ty=ty: "p_%s(%s, %s)" % (ty, n, cur)), w=lambda e, ty=ty, f=f: "w_%s(%s, v.%s)" % (ty, e, f))
            elif k[0] == "b":
                f, ty = fm[k]
                if isinstance(ty, list): raise Unsup("base %s" % ty)
                s.named(ty, c[1]); base = (ty, f); s.rev[r] = [ty] + s.rev.get(ty, []); at += s.base_attrs(ty, resolve(c[1]), "v." + f)
                head = dict(p=("b", f, lambda n, cur, ty=ty: "p_%s(%s, %s)" % (ty, n, cur)), w=lambda e, ty=ty, f=f: "w_%s(%s, v.%s)" % (ty, e, f))
        s.attrs_fn(r, at, own, base)
        s.emit(r, steps, attrs, head)
    def base_attrs(s, ty, t, v):
        if not isinstance(t, Complex): raise Unsup("extension of a text type")
        if t.content and t.content[0] in ("simple",): raise Unsup("extension of simple content")
        mem = []; c = t.content
        if c is None: pass
        elif c[0] in ("seq", "all"): mem += [(qk(i, n), i) for n, i in enumerate(c[1])]
        elif c[0] == "choice": mem.append((("c",), None))
        elif c[0] in ("rep", "repall"): mem.append((("g", 0), None))
        elif c[0] == "ext": mem += [(("b",), None)] + ([(("g", 0), None)] if c[2] is not None else [])
        fm = s.b.fields(ty, mem + [(("a", a.name), a) for a in t.attrs])
        r = [(a, v + "." + fm[("a", a.name)][0], fm[("a", a.name)][1]) for a in t.attrs]
        if c and c[0] == "ext": r += s.base_attrs(fm[("b",)][1], resolve(c[1]), v + "." + fm[("b",)][0])
        return r
    def attrs_fn(s, r, at, own=None, base=None):
        # the order of attributes in a tag means nothing: the specification takes the order of the code, if it is one of these attributes
        names = re.findall(r'set_attr\s*\(\s*"((?:[^"\\]|\\.)*)"', s.bodies.get(r, ""))
        if sorted(names) == sorted(a.name for a, _, _ in at) and len(set(names)) == len(names): at = sorted(at, key=lambda x: names.index(x[0].name))
        elif base and sorted(names) == sorted(a.name for a, v, _ in at if v.count(".") == 1) and len(set(names)) == len(names):
            at = sorted([x for x in at if x[1].count(".") == 1], key=lambda x: names.index(x[0].name)); own = base
        e = "pre"
        for a, v, ty in at:
            one = lambda x: "pre.push((xml::name::name_of(%s), %s))" % (lit(a.name), s.wtext(a.type, ty, x))
            e0 = "match %s { Some(x) => %s, None => pre }" % (v, one("x")) if a.optional else one(v)
            e = "{ let pre = %s; %s }" % (e, e0) if e != "pre" else e0
        if own: e = "at_%s(%s, v.%s)" % (own[0], e, own[1])
        s.spec.append("#[verifier::opaque] pub open spec fn at_%s(pre: Seq<(Name<'static>, XStr)>, v: %s) -> Seq<(Name<'static>, XStr)> { %s }" % (r, r, e))
    def newtype(s, r, t, ty):
        key = "<%s as XFromStr>" % r
        s.attrs_fn(r, [], None if s.prim(ty) else (ty, "0")) if not s.prim(ty) and s.named(ty, t) is None else s.attrs_fn(r, [])
        if s.prim(ty):
            s.check_prim(t, ty)
            p = "match txt(n) { Ok(t) => match { %s } { Ok(x) => Ok((%s(x), s)), Err(e) => Err(e) }, Err(e) => Err(e) }" % (s.ptext(t, ty, "t"), r)
            w = "text%s(pre, %s)" % ("_fixed" if isinstance(t, Fixed) else "", s.wtext(t, ty, "v.0"))
            if isinstance(t, Lit) and r in s.impls:
                s.extra[key] = "type Err = FromXmlError; open spec fn from_str_s(s: XStr) -> Result<%s, FromXmlError> { match <%s as XFromStr>::from_str_s(s) { Ok(x) => Ok(%s(x)), Err(e) => Err(FromXmlError::ParseType { type_: %s, value: s, err: boxed(e) }) } }" % (r, vt(ty), r, lit(s.un.get(r, r)))
                s.extra["<%s as XDisplay>" % r] = "open spec fn x_to_string_s(&self) -> XStr { self.0.x_to_string_s() }"
                s.items[key + "::from_str"] = dict(c="", nloops=0); s.items["<%s as XDisplay>::fmt" % r] = dict(c="", nloops=0)
            else: s.skip |= {key, "<%s as XDisplay>" % r}
        else:
            p = "match p_%s(n, s) { Ok(x) => Ok((%s(x.0), x.1)), Err(e) => Err(e) }" % (ty, r); w = "w_%s(pre, v.0)" % ty
            s.skip |= {key, "<%s as XDisplay>" % r}
        s.spec.append("#[verifier::opaque] pub open spec fn p_%s<'a>(n: RNode<'a>, s: Seq<RNode<'a>>) -> Result<(%s, Seq<RNode<'a>>), FromXmlError> { %s }" % (r, r, p))
        s.spec.append("#[verifier::opaque] pub open spec fn w_%s(pre: Seq<Ev>, v: %s) -> Seq<Ev> { %s }" % (r, r, w))
        s.fns(r, [], False)
    def enum(s, r, t, d):
        tab = {json.loads('"%s"' % b): a for a, b in re.findall(r'%s\s*::\s*(\w+)\s*=>\s*"((?:[^"\\]|\\.)*)"' % r, s.strs.get(r, ""))}
        if len(tab) == len(d["variants"]) == len(set(tab.values())) and sorted(tab) != sorted(set(t.values)): raise Broken("C09", "%s::as_str: the strings %s for the values %s" % (r, sorted(tab), sorted(t.values)))
        if sorted(tab) != sorted(set(t.values)) or len(set(tab.values())) != len(tab) or len(tab) != len(d["variants"]): raise Unsup("variants of %s: %s for %s" % (r, tab, t.values))
        key = "<%s as XFromStr>" % r
        s.extra[key] = "type Err = FromXmlError; open spec fn from_str_s(s: XStr) -> Result<%s, FromXmlError> { %s { Err(FromXmlError::InvalidVariant { name: s }) } }" % (r, "".join("if s == %s { Ok(%s::%s) } else " % (lit(v), r, tab[v]) for v in tab))
        s.extra["<%s as XDisplay>" % r] = "open spec fn x_to_string_s(&self) -> XStr { match *self { %s } }" % ", ".join("%s::%s => %s" % (r, tab[v], lit(v)) for v in tab)
        s.items[r + "::as_str"] = dict(c="ensures *r == self.x_to_string_s(),", nloops=0); s.items[key + "::from_str"] = dict(c="", nloops=0); s.items["<%s as XDisplay>::fmt" % r] = dict(c="", nloops=0)
        s.attrs_fn(r, [])
        s.spec.append("#[verifier::opaque] pub open spec fn p_%s<'a>(n: RNode<'a>, s: Seq<RNode<'a>>) -> Result<(%s, Seq<RNode<'a>>), FromXmlError> { match txt(n) { Ok(t) => match %s::from_str_s(t) { Ok(x) => Ok((x, s)), Err(e) => Err(e) }, Err(e) => Err(e) } }" % (r, r, r))
        s.spec.append("#[verifier::opaque] pub open spec fn w_%s(pre: Seq<Ev>, v: %s) -> Seq<Ev> { text(pre, v.x_to_string_s()) }" % (r, r))
        s.fns(r, [], False)
    def choice(s, r, g, celem):
        vm = s.b.variants(r, [qk(i, n) for n, i in enumerate(g.items)])
        p = ""; w = []; las = []; xs = []
        for n, i in enumerate(g.items):
            v, fs = vm[qk(i, n)]
            if len(fs) != 1: raise Unsup("variant %s::%s" % (r, v))
            ty = fs[0]; i2 = i
            if is_opt(i): i2 = Elem(i.qn, i.type, 1, i.mx) if isinstance(i, Elem) else Group(i.kind, i.items, 1, i.mx); i2 = i2 if isinstance(i, Elem) else s.variant_group(i, i2)
            if not isinstance(i, Elem): s.cvar.add(s.inner(ty))
            x = s.step(r, i2, (v, ty)); xs.append(x)
            la = s.first(i2, ty); las.append(la)
            p += "if %s { match %s(n, s) { Ok(x) => Ok((%s::%s(x.0), x.1)), Err(e) => Err(e) } } else " % (la, x["st"], r, v)
            w.append("%s::%s(x) => %s" % (r, v, x["w1"]("pre", "x")))
        p += "{ Err(FromXmlError::MissingVariant { name: %s }) }" % lit(s.un.get(r, r))
        s.spec.append("#[verifier::opaque] pub open spec fn p_%s<'a>(n: RNode<'a>, s: Seq<RNode<'a>>) -> Result<(%s, Seq<RNode<'a>>), FromXmlError> { %s }" % (r, r, p))
        s.spec.append("#[verifier::opaque] pub open spec fn w_%s(pre: Seq<Ev>, v: %s) -> Seq<Ev> { match v { %s } }" % (r, r, ", ".join(w)))
        if celem: s.attrs_fn(r, [])
        s.fns(r, xs, not celem); s.look(r, " || ".join(las) or "false")
        s.mono(r, xs)
    def variant_group(s, i, i2): return i2
    def root(s, r, qn):
        s.skip.discard(r + "::to_xml"); s.skip.discard(r + "::from_xml")
        miss = "Err::<%s, FromXmlError>(FromXmlError::MissingElement { name: %s, namespace: %s })" % (r, lit(qn[1]), nso(qn[0]))
        s.items[r + "::from_xml"] = dict(generics="T: XAsRefStr", inputs="input: T", nloops=0, c="ensures match roxmltree::droot::<'static, 'static>(input.as_ref_s()) { None => fl_err() ==> r is Err && r->Err_0 is Xml, Some(d) => if tmatch(d, %s, %s) { p_%s(d, elems(d.children_s())) is Ok || fl_err() ==> r == drop_rest(p_%s(d, elems(d.children_s()))) } else { fl_err() ==> r == %s } }," % (lit(qn[1]), nsl(qn[0]).replace("'a", "'static"), r, r, miss))
        s.items[r + "::to_xml"] = dict(c="", nloops=0, sub=[("Ok (body)", "broadcast use lemma_at0; assert(writer@ == w_%s(Seq::<Ev>::empty().push(Ev::Doc).push(Ev::Start { name: xml::name::name_of(%s), attributes: at_%s(Seq::empty(), *self), namespace: nsm(Map::empty()) }), *self).push(Ev::End)); Ok(body)" % (r, lit(s.name(qn)), r))])
        s.roots.append(r)

TOK = re.compile(r'"(?:[^"\\\\]|\\\\.)*"|(?:r#)?[^\W\d]\w*')
def mangle(m):
    """a copy of the schema's generated code in which identifiers the verifier cannot print, or that mean something else in the preamble, have other names"""
    names = {t["name"] for t in m.types}; ren = {}
    for w in set(TOK.findall(m.code)):
        if w[0] == '"': continue
        if not w.isascii(): ren[w] = "".join(c if c.isascii() else "_u%x_" % ord(c) for c in w)
        elif w in names: ren[w] = w + "_g"
    if not ren: return m, ren
    out = []; last = 0; prev = ""
    for k in TOK.finditer(m.code):
        w = k.group(); gap = m.code[last:k.start()]; out.append(gap)
        out.append(w if w not in ren or (gap.strip() == "::" and prev[:1].islower()) else ren[w]); last = k.end(); prev = w
    def ty(x): return [x[0]] + [ty(y) for y in x[1:]] if isinstance(x, list) else ren.get(x, x)
    c = copy.copy(m); c.code = "".join(out) + m.code[last:]; c.types = json.loads(json.dumps(m.types))
    for t in c.types:
        t["name"] = ren.get(t["name"], t["name"])
        if t["kind"] == "tuple": t["fields"] = [ty(f) for f in t["fields"]]
        elif t["kind"] == "struct": t["fields"] = [[ren.get(f[0], f[0]), ty(f[1])] + f[2:] for f in t["fields"]]
        else: t["variants"] = [[ren.get(v[0], v[0]), [ty(f) for f in v[1]]] + v[2:] for v in t["variants"]]
    return c, ren

BASE = r"""
pub proof fn __canary(t: XStr, n: RNode) ensures false { lits(); broadcast use {lemma_atpush, lemma_at0, lemma_first}; let a = elems(n.children_s()); let b = txt(n); }
pub open spec fn litp<T: XFromStr>(t: XStr, ty: XStr) -> Result<T, FromXmlError> { match T::from_str_s(t) { Ok(x) => Ok(x), Err(e) => Err(FromXmlError::ParseType { type_: ty, value: t, err: boxed(e) }) } }
pub open spec fn fixp(t: XStr, f: XStr) -> Result<(), FromXmlError> { if t == f { Ok(()) } else { Err(FromXmlError::FixedMismatch { expected: &f, received: t }) } }
pub open spec fn drop_rest<T, S>(r: Result<(T, S), FromXmlError>) -> Result<T, FromXmlError> { match r { Ok(x) => Ok(x.0), Err(e) => Err(e) } }
pub open spec fn text(pre: Seq<Ev>, t: XStr) -> Seq<Ev> { if t@.len() == 0 { pre } else { pre.push(Ev::Text(t)) } }
pub open spec fn text_fixed(pre: Seq<Ev>, t: XStr) -> Seq<Ev> { pre.push(Ev::Text(t)) }
pub open spec fn start0(n: XStr) -> Ev { Ev::Start { name: xml::name::name_of(n), attributes: Seq::empty(), namespace: Map::empty() } }
pub open spec fn leaf(pre: Seq<Ev>, n: XStr, t: XStr) -> Seq<Ev> { text(pre.push(start0(n)), t).push(Ev::End) }
pub open spec fn leaf_fixed(pre: Seq<Ev>, n: XStr, t: XStr) -> Seq<Ev> { text_fixed(pre.push(start0(n)), t).push(Ev::End) }
pub broadcast proof fn lemma_atpush(a: Seq<(Name, XStr)>, x: (Name, XStr)) ensures #[trigger] attrs_s(a.push(x)) == attrs_s(a).push((stat(x.0), x.1)) { assert(attrs_s(a.push(x)) =~= attrs_s(a).push((stat(x.0), x.1))); }
pub broadcast proof fn lemma_at0(a: Seq<(Name, XStr)>) requires a.len() == 0 ensures #[trigger] attrs_s(a) == Seq::<(Name<'static>, XStr)>::empty() { assert(attrs_s(a) =~= Seq::empty()); }
impl XInto<FromXmlError> for FromXmlError { open spec fn into_s(self) -> FromXmlError { self } fn x_into(self) -> (r: FromXmlError) { self } }
impl<'a> Node<'a> { pub fn x_reb(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { self } }
"""
def unit(m, name=None, on=None):
    g = Gen(m, on)
    cut = lambda t, a: t[:t.index(a)]
    dpre = cut(udecode.PRE, "// ---- C05 over"); rpre = uruntime.POST[uruntime.POST.index("pub open spec fn attrs_s"):]
    items = {p: {**v, "trusted": True} for p, v in list(udecode.ITEMS.items()) + list(uruntime.ITEMS.items())}
    items.update(g.items)
    dc = dict(udecode.UNIT.sources[0][1]); rc = dict(uruntime.UNIT.sources[0][1]); rc.update(uruntime.UNIT.cfg)
    gc = dict(strip=["xsd", "decode"], mutref=["Node"], mutbind=["node"], reborrow=["node"], methods={"to_string": "x_to_string"}, keep_lits=True,
        rename={"str::FromStr::from_str": "XFromStr::x_from_str", "str::FromStr": "XFromStr", "fmt::Display": "XDisplay", "fmt::Formatter": "XFormatter", "fmt::Result": "XFmtResult", "Box::new": "x_boxerr", "io::Write": "XWrite"},
        types={"rust_decimal::Decimal": "XDec", "f32": "XF32"})
    u = vx.Unit(name or "tv_" + m.key, [("xsd/src/decode.rs", dc), ("xsd/src/lib.rs", rc)], pre=uruntime.PRE + dpre, post=rpre + BASE + "\n" + "\n".join(g.spec), items=items, prelude=("core", "roxml", "xmlw", "gen"), skip=g.skip, impl_extra=g.extra, text_sources=[(g.m.code, gc)], allow_new=True, rlimit=30, flags=["err"])
    u.gen = g
    return u

class Val:
    """one schema's verdict: functions -> (status, messages)"""
    def __init__(s, key): s.key = key; s.st = {}; s.reason = ""; s.obligations = s.discharged = s.ms = 0; s.output = ""; s.canary = None; s.trusted = []; s.broken = None
_memo = {}
def validate(m, on=None, threads=2):
    k = (m.key, None if on is None else tuple(on))
    if k in _memo: return _memo[k]
    v = Val(m.key)
    try: _validate(m, v, on, threads)
    except (Unsup, bind.Mismatch, KeyError, IndexError, TypeError, ValueError, AttributeError) as e: v.reason = "outside the specification generator: %s %s" % (type(e).__name__, str(e)[:200])
    except Broken as e: v.reason = e.args[1]; v.broken = e.args
    _memo[k] = v
    return v
def _validate(m, v, on, threads):
    from . import deduct
    u = unit(m, on=on); u.on = on
    text = u.assemble()
    if text is None: v.reason = "generated code does not parse: %s" % u.errors; return
    tag = "" if on is None else "_" + ("-".join(on) or "base")
    o = vx.run_verus(text, u.name + tag, u.rlimit, threads)
    if o["timeout"]: v.reason = "verifier timed out"; return
    hard = [e for e in o["errors"] if not vx.is_proof_err(e) and "rlimit" not in e["msg"] and "aborting due to" not in e["msg"]]
    if hard or o["vir"]: v.reason = "outside the verifier's dialect: " + "; ".join(e["msg"][:160] for e in hard[:3]); v.output = o["raw"]; return
    cl = text[:text.index("proof fn __canary")].count("\n") + 1
    v.canary = "ok" if any(cl in e["lines"] for e in o["errors"]) else "not reached"
    if v.canary != "ok": v.reason = "the assumptions could not be shown consistent"; return
    v.ms = o["smt_ms"]; v.obligations = o["verified"] + o["nerr"] - 1; v.discharged = o["verified"]; v.trusted = deduct.trusted_items(text)
    g = u.gen; lemma = []; mine = {p: f for p, f in u.fns.items() if not f.drop}
    def messages(o):
        st = {}
        for e in o["errors"]:
            if "aborting due to" in e["msg"] or cl in e["lines"]: continue
            f = deduct.fn_of(u, e)
            if f is None: lemma.append(e["msg"] + " " + str(e["lines"][:1])); continue
            if "rlimit" in e["msg"]: st[f] = ("OUT-OF-REACH", ["solver gave no answer within its resource limit"])
            elif st.get(f, ("",))[0] != "OUT-OF-REACH": st[f] = ("FAILED", st.get(f, ("", []))[1] + [deduct.explain(text, e)])
        return st
    st = messages(o)
    if lemma: v.reason = "a lemma does not hold: " + lemma[0]; return
    known = set(re.findall(r"\bfn (\w+)", text)) - {p.split("::")[-1] for p, f in mine.items() if not f.contract}
    for p, it in g.items.items():
        f = mine.get(p)
        if f is None: st[p] = ("OUT-OF-REACH", ["the function is not there"])
        elif f.item["loops"] != it["nloops"]: st[p] = ("OUT-OF-REACH", ["the loops are not the expected ones"])
        elif it.get("sub") and not all(x in f.item["body"] for x, _ in it["sub"]): st[p] = ("OUT-OF-REACH", ["the place of an assertion is not there"])
        elif st.get(p, ("",))[0] == "FAILED" and any(re.search(r"\b%s\s*\(" % q.split("::")[-1], f.item["body"]) for q, h in mine.items() if not h.contract): st[p] = ("OUT-OF-REACH", ["calls a function without a contract"] + st[p][1])
    for p in mine:
        if p not in g.items and p in st: st[p] = ("OUT-OF-REACH", ["function without a contract"] + st[p][1])
    bad = [p for p, (s, _) in st.items() if s == "FAILED"]
    if bad:
        o2 = vx.run_verus(text, u.name + tag + "_again", u.rlimit * 4, threads, extra=("--smt-option", "smt.random_seed=17"))
        st2 = messages(o2) if not o2["timeout"] else st; v.output = o["raw"]
        for p in bad:
            if p not in st2: st[p] = ("PROVED", [])
    for p in g.items:
        if p not in st: st[p] = ("PROVED", [])
    v.st = st

WRITE = ("to_xml_writer", "to_xml"); READ = ("from_xml_node", "lookahead", "from_xml"); CONV = ("from_str", "as_str", "fmt")
WANT = {"C07": READ + WRITE, "C08": READ[:1], "C01": READ + WRITE, "C02": WRITE + ("as_str", "fmt"), "C03": READ + ("from_str",), "C04": ("from_xml_node", "from_xml", "from_str"), "C09": CONV, "C15": WRITE + READ, "C16": ("from_xml_node",), "C17": WRITE[:1] + READ[:1]}
WHAT = {"C01": "writing and reading functions of generated code, proved against the events and the data the schema prescribes (the two halves of a round trip)", "C07": "the declared type of every generated field, and the functions that read and write it",
 "C08": "the declared type of every generated field of a built-in type, and the name its parse error gives", "C02": "writing functions of generated code: the exact sequence of events the schema prescribes for the value", "C03": "reading functions of generated code: every document the schema describes gives exactly its data",
 "C04": "reading functions of generated code: every other document gives exactly the error that applies; no panic", "C09": "conversions of generated enumerations, for every string", "C15": "generated code for names that need conversion: the names in documents are those of the schema",
 "C16": "reading functions generated for all groups: the earliest match among the children left, in any order", "C17": "generated code for attributes: read and written under their own name, as their use says"}
def run(pid, thorough, pool=4):
    from . import deduct, tvcorpus, work, bounded
    from concurrent.futures import ThreadPoolExecutor
    r = deduct.UnitResult("generated code"); r.what = WHAT[pid]
    try: ms, viol = bounded.load(work.Gen(), tvcorpus.schemas(pid, thorough))
    except work.BuildError as e: r.reason = str(e)[:300]; return r, 0
    on = [] if pid == "C03" else None
    with ThreadPoolExecutor(pool) as ex: vs = list(ex.map(lambda m: validate(m, on), ms.values()))
    fails = []
    for v in vs:
        r.obligations += v.obligations; r.discharged += v.discharged; r.ms += v.ms; r.trusted = sorted(set(r.trusted) | set(v.trusted))
        if v.broken and v.broken[0] == pid: fails.append((v, "", v.key + ": generated declaration", [v.reason])); continue
        if v.reason: r.oor[v.key] = [v.reason]; continue
        for p, (s, msg) in v.st.items():
            if p.split("::")[-1] not in WANT[pid]: continue
            q = v.key + ": " + p.replace("_g::", "::"); r.listed.append(q)
            if s == "PROVED": r.functions.append(q)
            elif s == "FAILED": fails.append((v, p, q, msg))
            else: r.oor[q] = msg
    if fails and pid == "C04":
        base = {v.key: validate(ms[v.key], []) for v, _, _, _ in fails}
        keep = [f for f in fails if base[f[0].key].st.get(f[1], ("",))[0] == "PROVED" or any("precondition" in x for x in f[3])]
        for f in fails:
            if f not in keep: r.oor[f[2]] = ["fails for documents the schema describes, which is another property: " + f[3][0]]
        fails = keep
    if pid in ("C01", "C07", "C08"):      # what these functions do belongs to C02, C03 and C04; here they only have to be proved
        for f in fails:
            if f[1]: r.oor[f[2]] = ["reported under C02, C03 or C04: " + f[3][0]]
        fails = [f for f in fails if not f[1]]
    if pid in ("C15", "C16", "C17"):
        ctl = {f[1].split("::")[-1] for f in fails if f[0].key in tvcorpus.CONTROL}
        for f in fails:
            if f[0].key in tvcorpus.CONTROL or f[1].split("::")[-1] in ctl: r.oor[f[2]] = ["fails also where this property says nothing: " + f[3][0]]
        fails = [f for f in fails if f[2] not in r.oor]
    r.failed = ["%s: %s" % (f[2], "; ".join(f[3][:2])) for f in fails]; r.output = "\n".join(f[0].output for f in fails[:2])
    r.canary = "ok" if all(v.canary == "ok" for v in vs if v.st) else "not reached in some"
    if fails: r.status = "FAILED"; r.reason = "obligation failed"
    elif r.oor: r.status = "OUT-OF-REACH"; r.reason = "; ".join("%s: %s" % (p, (x or ["?"])[0]) for p, x in list(r.oor.items())[:5])
    elif r.functions: r.status = "PROVED"
    return r, sum(1 for v in vs if v.st)
