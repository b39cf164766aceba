"""xsd-internal: the part of the generator that declares types and names (ast/*.rs, utils.rs), over token sequences."""
from ..vx import Unit
from . import namespaces as NS, parser as P
R = "xsd-internal/src/"
PRE = r"""
#[verifier::external_body] pub struct Decimal { d: u8 }
#[verifier::external_body] pub struct PathBuf { d: u8 }
impl XClone for Decimal { #[verifier::external_body] fn x_clone(&self) -> (r: Decimal) { unimplemented!() } }
impl XEq<Decimal> for Decimal { open spec fn eq_s(&self, o: &Decimal) -> bool { *self == *o } #[verifier::external_body] fn x_eq(&self, o: &Decimal) -> (r: bool) { unimplemented!() } }
/// the identifier a name becomes: some function of it (escape_ident has no state), see the contract of escape_ident
pub uninterp spec fn esc(s: XStr) -> XStr;
#[verifier::external_body] pub fn escape_ident_det(name: &XStr) -> (r: Ident) requires *name != xlit_s("_"), !name@.contains('#'), ensures r.text_s() == esc(*name) { unimplemented!() }
/// inflector: separators never make up the whole result
pub broadcast axiom fn axiom_snake(s: XStr) ensures (#[trigger] s.to_snake_case_s()) != xlit_s("_"), !s.to_snake_case_s()@.contains('#');
pub broadcast axiom fn axiom_pascal(s: XStr) ensures (#[trigger] s.to_pascal_case_s()) != xlit_s("_"), !s.to_pascal_case_s()@.contains('#');
pub open spec fn w(s: &str) -> Tok { Tok::W(xlit_s(s)) }
"""
KW = "as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen".split()
NORAW = ["crate", "self", "Self", "super"]
def ors(xs, v): return " || ".join("%s == xlit_s(\"%s\")" % (v, x) for x in xs)
DOC = dict(String="String", Boolean="bool", Int64="i64", Uint64="u64", Int32="i32", Decimal="rust_decimal : : Decimal", Float32="f32", DateTime="String", Time="String", Date="String", Duration="String", Base64Binary="String", HexBinary="String", Any="String")
from .. import ir
POST = r"""
/// Rust's strict and reserved keywords
pub open spec fn keyword(s: XStr) -> bool { %s }
#[verifier::spinoff_prover] #[verifier::rlimit(100)] pub broadcast proof fn lemma_kw(s: XStr) requires #[trigger] keyword(s) ensures s@.len() >= 2, s@[1] != '#', s@[0] != '_', s@.last() != '_' { %s }
pub broadcast proof fn lemma_raw(t: XStr) ensures (#[trigger] xraw(t))@.len() == t@.len() + 2, xraw(t)@[0] == 'r', xraw(t)@[1] == '#', xraw(t)@.skip(2) == t@ { reveal_strlit("r#"); assert(xraw(t)@.skip(2) =~= t@); }
/// usable as an identifier: raw, and allowed to be raw, or no keyword
pub open spec fn usable(s: XStr) -> bool { s@.len() > 0 && s != xlit_s("_") && !keyword(s) && (forall|t: XStr| #[trigger] xraw(t) == s ==> !(%s)) }
pub open spec fn xraw(t: XStr) -> XStr { xs(xlit_s("r#")@ + t@) }
pub open spec fn hash(s: Seq<char>) -> bool { s.contains('#') }
pub broadcast proof fn lemma_plain(s: XStr) requires !s@.contains('#'), s@.len() > 0, s != xlit_s("_"), !keyword(s) ensures #[trigger] usable(s)
{ broadcast use lemma_raw; assert forall|t: XStr| #[trigger] xraw(t) == s implies false by { assert(s@[1] == '#'); } }
pub broadcast proof fn lemma_under(s: XStr) requires s@.len() > 1, s@[0] == '_' || s@.last() == '_' && s@[1] != '#' ensures #[trigger] usable(s)
{ broadcast use {lemma_raw, lemma_kw}; reveal_strlit("_"); }
pub broadcast proof fn lemma_israw(t: XStr, s: XStr) requires s@ == xlit_s("r#")@ + t@, t@.len() > 0, !(%s) ensures #[trigger] usable(s), #[trigger] keyword(t) || true
{ broadcast use {lemma_raw, lemma_kw}; reveal_strlit("_"); reveal_strlit("r#"); assert(s@[1] == '#'); assert forall|u: XStr| #[trigger] xraw(u) == s implies u == t by { assert(s@.skip(2) =~= t@); assert(u@ == t@); } }
pub proof fn lemma_rawn(t: XStr) requires t@.len() > 0 ensures !(%s) ==> usable(xraw(t)) { if !(%s) { broadcast use {lemma_raw}; assert(xraw(t)@ =~= xlit_s("r#")@ + t@); lemma_israw(t, xraw(t)); } }
/// the ways to make a name usable
pub open spec fn shape(t: XStr, name: XStr) -> bool { (name@.len() > 1 && name@[1] != '#' && t@ == name@ + xlit_s("_")@) || (name@.len() > 0 && !noraw(name) && t@ == xlit_s("r#")@ + name@) || t@ == xlit_s("__")@ || (t@ == xlit_s("_")@ + name@ && name@.len() > 0) || (t == name && !keyword(name) && name@.len() > 0) }
pub open spec fn noraw(t: XStr) -> bool { %s }
pub proof fn lemma_shape(t: XStr, name: XStr) requires shape(t, name), name != xlit_s("_"), !name@.contains('#') ensures usable(t)
{ reveal_strlit("_"); reveal_strlit("__"); reveal_strlit("r#"); broadcast use {lemma_plain, lemma_under, lemma_kw};
  if name@.len() > 0 && !noraw(name) && t@ == xlit_s("r#")@ + name@ { lemma_israw(name, t); } else if t@ == xlit_s("_")@ + name@ { lemma_under(t); } else if t@ == xlit_s("__")@ { lemma_under(t); } else if t == name { lemma_plain(t); } else { lemma_under(t); } }
pub broadcast proof fn lemma_shapes(t: XStr, name: XStr) requires #[trigger] shape(t, name), name != xlit_s("_"), !name@.contains('#') ensures usable(t) { lemma_shape(t, name); }
/// the Rust type of a literal
pub open spec fn lit_ty(l: LiteralType) -> Seq<Tok> { match l { %s } }
""" % (ors(KW, "s"), " ".join('reveal_strlit("%s");' % k for k in KW), ors(NORAW, "t"), ors(NORAW, "t"), ors(NORAW, "t"), ors(NORAW, "t"), ors(NORAW, "t"), ", ".join("LiteralType::%s => seq![%s]" % (k, ", ".join('w("%s")' % x for x in v.split())) for k, v in DOC.items())) + r"""
pub type Els = Map<Name, Root>;
pub open spec fn type_tok(n: Name) -> Seq<Tok> { seq![Tok::W(esc(n.name.to_pascal_case_s()))] }
/// the type of a field: that of its literal, nothing for a fixed value, the named type, or what a named simple type stands for
pub uninterp spec fn content_ty(c: LeafContent, e: Els) -> Seq<Tok>;
pub broadcast axiom fn axiom_content_ty(c: LeafContent, e: Els) ensures #[trigger] content_ty(c, e) == (match c { LeafContent::Literal(l) => lit_ty(l), LeafContent::Fixed(_) => seq![w("("), w(")")], LeafContent::Named(n) => if e.dom().contains(n) && e[n] is Leaf { content_ty(e[n]->Leaf_0.content, e) } else { type_tok(n) } });
pub open spec fn wrap(k: &str, t: Seq<Tok>) -> Seq<Tok> { seq![w(k), w("<")] + t + seq![w(">")] }
pub open spec fn vec_if(b: bool, t: Seq<Tok>) -> Seq<Tok> { if b { wrap("Vec", t) } else { t } }
pub open spec fn opt_if(b: bool, t: Seq<Tok>) -> Seq<Tok> { if b { wrap("Option", t) } else { t } }
pub open spec fn many(m: MaxOccurs) -> bool { match m { MaxOccurs::Number(n) => n > 1, MaxOccurs::Unbounded => true } }
pub open spec fn none(m: MinOccurs) -> bool { m.0 == 0 }
pub open spec fn leaf_ty(l: Leaf, e: Els) -> Seq<Tok> { opt_if(none(l.min_occurs), vec_if(many(l.max_occurs), content_ty(l.definition.content, e))) }
/// a field: any attributes (documentation), then its name and its type
pub open spec fn ends(t: Seq<Tok>, e: Seq<Tok>) -> bool { t.len() >= e.len() && t.skip(t.len() - e.len()) =~= e }
pub open spec fn field(t: Seq<Tok>, n: Name, ty: Seq<Tok>, c: Seq<Tok>) -> bool { ends(t, seq![w("pub"), Tok::W(esc(n.name.to_snake_case_s())), w(":")] + ty + c) }
pub open spec fn attr_ty(a: AstAttribute, e: Els) -> Seq<Tok> { opt_if(a.is_optional, content_ty(a.content, e)) }
/// every value of an enumeration has a variant of its own, and there are no others
pub open spec fn each(s: Seq<Name>, m: Map<XStr, Name>) -> bool { m.dom().finite() && m.dom().len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> exists|k: XStr| #[trigger] m.dom().contains(k) && m[k] == #[trigger] s[i]) && (forall|k: XStr| #[trigger] m.dom().contains(k) ==> s.contains(m[k])) }
pub broadcast proof fn lemma_each(s: Seq<Name>, m: Map<XStr, Name>, k: XStr, n: Name) requires each(s, m), !m.dom().contains(k) ensures #[trigger] each(s.push(n), m.insert(k, n))
{ let t = s.push(n); let q = m.insert(k, n); assert(q.dom() =~= m.dom().insert(k)); assert(t.last() == n);
  assert forall|i: int| 0 <= i < t.len() implies exists|k2: XStr| #[trigger] q.dom().contains(k2) && q[k2] == #[trigger] t[i] by { if i < s.len() { assert(s[i] == t[i]); let k2 = choose|k2: XStr| #[trigger] m.dom().contains(k2) && m[k2] == s[i]; assert(q.dom().contains(k2) && q[k2] == t[i]); } else { assert(q.dom().contains(k) && q[k] == t[i]); } }
  assert forall|k2: XStr| #[trigger] q.dom().contains(k2) implies t.contains(q[k2]) by { if k2 == k { assert(t[s.len() as int] == n); } else { assert(m.dom().contains(k2)); let i = choose|i: int| 0 <= i < s.len() && s[i] == m[k2]; assert(t[i] == q[k2]); } } }
/// the fields of a sequence of leaves, in their order, each followed by a comma
pub open spec fn decl(t: Seq<Tok>, l: Seq<Leaf>, e: Els) -> bool decreases l.len() { if l.len() == 0 { t.len() == 0 } else { exists|k: int| 0 <= k <= t.len() && decl(#[trigger] t.take(k), l.drop_last(), e) && field(t.skip(k), l.last().name, leaf_ty(l.last(), e), comma()) } }
pub open spec fn adecl(t: Seq<Tok>, l: Seq<AstAttribute>, e: Els) -> bool decreases l.len() { if l.len() == 0 { t.len() == 0 } else { exists|k: int| 0 <= k <= t.len() && adecl(#[trigger] t.take(k), l.drop_last(), e) && field(t.skip(k), l.last().name, attr_ty(l.last(), e), comma()) } }
pub open spec fn leaf_decls(p: Seq<TokenStream>, l: Seq<Leaf>, e: Els) -> bool { p.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> field((#[trigger] p[i])@, l[i].name, leaf_ty(l[i], e), Seq::empty()) }
pub proof fn lemma_comma(t: Seq<Tok>, n: Name, ty: Seq<Tok>) requires field(t, n, ty, Seq::empty()) ensures field(t + comma(), n, ty, comma())
{ let x = seq![w("pub"), Tok::W(esc(n.name.to_snake_case_s())), w(":")] + ty; assert(x + Seq::<Tok>::empty() =~= x); let u = t + comma(); let y = x + comma(); assert(u.skip(u.len() - y.len()) =~= t.skip(t.len() - x.len()) + comma()); }
pub proof fn lemma_reps0(p: Seq<TokenStream>, l: Seq<Leaf>, e: Els) requires leaf_decls(p, l, e) ensures decl(reps(p, Seq::empty(), comma()), l, e) decreases l.len()
{ if l.len() > 0 { let q = p.drop_last(); let m = l.drop_last(); assert forall|i: int| 0 <= i < m.len() implies field((#[trigger] q[i])@, m[i].name, leaf_ty(m[i], e), Seq::empty()) by { assert(q[i] == p[i]); } lemma_reps0(q, m, e);
   let a = reps(q, Seq::empty(), comma()); let t = reps(p, Seq::empty(), comma()); let x = p.last()@ + comma(); lemma_comma(p.last()@, l.last().name, leaf_ty(l.last(), e)); assert(t =~= a + x); assert(t.take(a.len() as int) =~= a); assert(t.skip(a.len() as int) =~= x); assert(decl(t.take(a.len() as int), l.drop_last(), e) && field(t.skip(a.len() as int), l.last().name, leaf_ty(l.last(), e), comma())); } }
pub broadcast proof fn lemma_reps(p: Seq<TokenStream>, a: Seq<Tok>, b: Seq<Tok>, l: Seq<Leaf>, e: Els) requires leaf_decls(p, l, e), a.len() == 0, b.len() == 1, b[0] == w(",") ensures #[trigger] decl(reps(p, a, b), l, e)
{ assert(a =~= Seq::empty()); assert(b =~= comma()); lemma_reps0(p, l, e); }
pub open spec fn content_decl(t: Seq<Tok>, c: ElementContent, e: Els) -> bool { match c { ElementContent::Leaf(n, d) => field(t, n, content_ty(d.content, e), comma()), ElementContent::Leaves(l) => decl(t, l@, e) } }
pub open spec fn opt_decl(t: Seq<Tok>, c: Option<ElementContent>, e: Els) -> bool { match c { Some(c) => content_decl(t, c, e), None => t.len() == 0 } }
pub open spec fn tail_of(t: Seq<Tok>, c: Seq<Tok>, a: Seq<AstAttribute>, e: Els) -> bool { c.len() <= t.len() && t.take(c.len() as int) =~= c && adecl(t.skip(c.len() as int), a, e) }
pub broadcast proof fn lemma_tail(t: Seq<Tok>, c: Seq<Tok>, a: Seq<AstAttribute>, e: Els, x: Seq<Tok>, n: AstAttribute) requires tail_of(t, c, a, e), field(x, n.name, attr_ty(n, e), comma()) ensures #[trigger] tail_of(t + x, c, a.push(n), e)
{ let u = t + x; let b = a.push(n); assert(b.drop_last() =~= a); let v = u.skip(c.len() as int); let k = t.len() - c.len(); assert(v.take(k) =~= t.skip(c.len() as int)); assert(v.skip(k) =~= x); assert(u.take(c.len() as int) =~= c); assert(b.last() == n); assert(adecl(v.take(k), b.drop_last(), e) && field(v.skip(k), b.last().name, attr_ty(b.last(), e), comma())); assert(adecl(v, b, e)); }
/// the fields of a structure: its content, then its attributes
pub open spec fn def_decl(t: Seq<Tok>, d: ElementDefinition, e: Els) -> bool { exists|c: Seq<Tok>| opt_decl(c, d.content, e) && #[trigger] tail_of(t, c, d.attributes@, e) }
pub open spec fn comma() -> Seq<Tok> { seq![w(",")] }
"""
ITEMS = {}
def add(k, **kw): ITEMS[k] = kw
add("escape_ident", c="requires *name != xlit_s(\"_\"), !name@.contains('#'), ensures shape(r.text_s(), *name),",
  entry="""proof { reveal_strlit(""); if name@.len() == 0 { assert(name@ =~= xlit_s("")@); axiom_xstr_ext(*name, xlit_s("")); } }""")
add("LiteralType::to_impl", c="ensures r@ =~= lit_ty(*self),")
add("LiteralType::xsd_name", c="ensures true,")
add("Name::to_impl", c="ensures r@ == type_tok(*self),")
add("LeafContent::to_impl", c="ensures r@ == content_ty(*self, ctx.elements@),", entry="broadcast use axiom_content_ty;")
add("LeafDefinition::to_impl", c="ensures r@ == content_ty(self.content, ctx.elements@),")
add("MaxOccurs::is_vec", c="ensures r == many(*self),")
add("Leaf::is_vec", c="ensures r == many(self.max_occurs),")
add("Leaf::is_optional", c="ensures r == none(self.min_occurs),")
add("Leaf::to_impl", c="ensures field(r@, self.name, leaf_ty(*self, ctx.elements@), Seq::empty()),")
add("Attribute::to_impl", c="ensures field(r@, self.name, attr_ty(*self, ctx.elements@), comma()),")
PROG = "forall|k: XStr| #[trigger] enum_names@.dom().contains(k) ==> is_ident(k), each(__s0.take(__s0.len() - %s), enum_names@),"
add("escape_enum_names", c="ensures forall|k: XStr| #[trigger] r@.dom().contains(k) ==> is_ident(k), each(names@, r@),", entry="broadcast use lemma_each;",
  loops={0: "invariant __s0 == names@, __it0@.len() <= __s0.len(), __it0@ =~= __s0.skip(__s0.len() - __it0@.len()), " + PROG % "__it0@.len()"}, lbody={0: "proof { let k = __s0.len() - __it0@.len() - 1; assert(__s0.take(k + 1) =~= __s0.take(k).push(name)); }"}, pre={0: "let ghost __s0 = __it0@; proof { assert(__s0.take(__s0.len() as int) =~= __s0); assert(__s0.take(0) =~= Seq::empty()); }"})
LF = "field(__r@, $.name, leaf_ty(*$, ctx.elements@), Seq::empty())"
add("ElementContent::to_impl", c="ensures content_decl(r@, *self, ctx.elements@),", cl={"map": dict(ty="&Leaf", ret="TokenStream", ens=LF)}, entry="broadcast use lemma_reps;")
add("ElementDefinition::to_impl", c="ensures def_decl(r@, *self, ctx.elements@),", loops={0: "invariant __it0@.len() <= __s0.len(), __s0 == refs(self.attributes@), __it0@ =~= __s0.skip(__s0.len() - __it0@.len()), opt_decl(__c0, self.content, ctx.elements@), tail_of(ts@, __c0, self.attributes@.take(__s0.len() - __it0@.len()), ctx.elements@),"},
  lbody={0: "proof { let k = __s0.len() - __it0@.len() - 1; assert(self.attributes@.take(k + 1) =~= self.attributes@.take(k).push(*attr)); }"}, entry="broadcast use lemma_tail;",
  pre={0: "let ghost __s0 = __it0@; let ghost __c0 = ts@; proof { assert(self.attributes@.take(self.attributes@.len() as int) =~= self.attributes@); assert(self.attributes@.take(0) =~= Seq::empty()); assert(ts@.skip(ts@.len() as int) =~= Seq::empty()); assert(ts@.take(ts@.len() as int) =~= ts@); }"})
ESC = {"syn::parse_str::<Ident>": "x_parse_ident", "syn::parse_str": "x_parse_ident", "char::is_numeric": "XNum", "syn::Ident": "Ident"}
METH = dict(is_alphabetic="x_is_alphabetic", is_numeric="x_is_numeric")
SRC = [(R + "utils.rs", dict(rename=ESC))] + [(f, dict(c, rename=dict(c.get("rename", {}), escape_ident="escape_ident_det", **ESC))) for f, c in P.SRC[:10] + [(R + "xsd/context.rs", {})]]
for k in ITEMS: ITEMS[k]["entry"] = "broadcast use {axiom_snake, axiom_pascal}; " + ITEMS[k].get("entry", "")
KEEP = set(ITEMS)
SKIP = [x for x in P.SKIP if x not in KEEP] + ["Context::*", "Namespaces::*", "SharedContext::*", "literal_from_str", "Leaf::is_emptiable", "Root::*", "<Root as *", "<Context as Default>", "SchemaContext::*"] + ["%s::%s" % (t, m) for t in ("ElementContent", "ElementDefinition", "Attribute") for m in ("to_xml_impl", "from_xml_impl", "with_docs", "is_emptiable")]
CFG = dict(methods=METH, opaque=["escape_enum_names:collect"], mods=P.MODS + ["context", "ast"], quote=True)
UNIT = Unit("emit", SRC, pre=PRE, post=POST, items=ITEMS, prelude=("core", "maps", "disp", "toks"), skip=SKIP, cfg=CFG, impl_extra=P.EXTRA)
