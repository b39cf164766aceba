"""xsd-internal: the schema parser (xsd/parse/*.rs, xsd/context.rs, the data part of ast/*.rs)."""
from ..vx import Unit
from . import node as N, namespaces as NS
import os
R = "xsd-internal/src/"
SPEC = open(os.path.join(os.path.dirname(__file__), "parser_spec.rs")).read()
MODS = ["annotation", "attribute", "choice", "complex_content", "complex_type", "element", "root", "sequence", "simple_content", "simple_type"]
PRE = N.PRE + r"""
#[verifier::external_body] pub struct Decimal { d: u8 }
#[verifier::external_body] pub struct PathBuf { d: u8 }
#[verifier::external_body] pub struct XIntErr { d: u8 }
#[verifier::external_body] pub struct XDecErr { d: u8 }
pub trait XFromStr: Sized { type Err; spec fn parse_s(s: XStr) -> Option<Self>; fn x_from_str(s: &XStr) -> (r: Result<Self, Self::Err>) ensures match Self::parse_s(*s) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err }; }
impl XFromStr for u32 { type Err = XIntErr; uninterp spec fn parse_s(s: XStr) -> Option<u32>; #[verifier::external_body] fn x_from_str(s: &XStr) -> (r: Result<u32, XIntErr>) { unimplemented!() } }
impl XFromStr for usize { type Err = XIntErr; uninterp spec fn parse_s(s: XStr) -> Option<usize>; #[verifier::external_body] fn x_from_str(s: &XStr) -> (r: Result<usize, XIntErr>) { unimplemented!() } }
impl XFromStr for Decimal { type Err = XDecErr; uninterp spec fn parse_s(s: XStr) -> Option<Decimal>; #[verifier::external_body] fn x_from_str(s: &XStr) -> (r: Result<Decimal, XDecErr>) { unimplemented!() } }
impl XClone for Decimal { #[verifier::external_body] fn x_clone(&self) -> (r: Decimal) { unimplemented!() } }
impl XEq<Decimal> for Decimal { open spec fn eq_s(&self, o: &Decimal) -> bool { *self == *o } #[verifier::external_body] fn x_eq(&self, o: &Decimal) -> (r: bool) { unimplemented!() } }
pub open spec fn no_attr(n: RN) -> ISet<XStr> { ISet::new(|k: XStr| n.attribute_s(&k) is None) }
"""
# the node view, as the node unit proves it: only its contract is used here
NODE = r"""
impl<'a, 'input> Node<'a, 'input> {
    pub uninterp spec fn wf(self) -> bool;
    pub uninterp spec fn visited(self) -> ISet<XStr>;
    pub open spec fn fresh(self, n: RN<'a, 'input>) -> bool { self.wf() && self.inner == n && self.visited() == no_attr(n) }
}
impl<'a, 'input> Attribute<'a, 'input> { pub uninterp spec fn value_s(self) -> XStr; pub uninterp spec fn range_s(self) -> Range<usize>; }
"""
POST = NODE + NS.PRE + SPEC
LT = {"Node::attribute": dict(ret="Option<&'c Attribute<'a, 'input>>", generics="'c", inputs="&mut self, name: &XStr"),
 "Node::try_attribute": dict(ret="Result<&'c Attribute<'a, 'input>, NodeError>", generics="'c", inputs="&mut self, name: &XStr"),
 "Node::children": dict(generics="'b, 'c", inputs="&'c self", ret="ChildrenFilterBuilder<'a, 'input, 'b>"),
 "Node::name": dict(generics="'c", inputs="&'c self")}
ITEMS = {}
for k, v in N.C.items(): ITEMS[k] = dict(c=v.replace("r.node == self,", "r.node.inner == self.inner,") if k == "Node::children" else v, trusted=True, **LT.get(k, {}))
ITEMS["Node::try_attribute"].pop("trusted")
ITEMS["Namespaces::get_or_insert"] = dict(c=NS.ITEMS["ns::Namespaces::get_or_insert"]["c"], trusted=True)
ITEMS["Namespaces::get_by_id"] = dict(c=NS.ITEMS["ns::Namespaces::get_by_id"]["c"], trusted=True)
for k in ["derive_mutal_prefix", "derive_mutal_suffix"]: ITEMS[k] = dict(c="ensures r is Some ==> r->0@.len() > 0,", trusted=True)
for k in ["mutal_prefix", "mutal_suffix", "annotation::cleanup_docs"]: ITEMS[k] = dict(c="", trusted=True)

BC = "broadcast use {lemma_total23, lemma_wn, lemma_first_q, lemma_kids, lemma_kids_rm, lemma_fq, lemma_cext_refl, lemma_cext_trans, lemma_cext_file, lemma_cext_dep, lemma_cext_root, mono_tref, mono_typed, mono_simple, mono_decl, mono_attr, mono_attrs, mono_lv, mono_seq_root, mono_choice_root, mono_leaf, mono_el, mono_eroot, mono_complex, mono_cgroup, mono_cont, mono_cc, lemma_same, lemma_prog0, lemma_prog_push, lemma_prog_skip, lemma_prog_done, lemma_prog_kids, mono_prog};"
CF = "final(ctx)"
def parse_c(ok, parent=True, extra="", pre=""):
    return """requires node.wf(), well_named(node.inner), ctx_wf(*old(ctx)), %s
  ensures ctx_wf(*final(ctx)), cext(*old(ctx), *final(ctx)), %s
    r is Ok ==> %s, %s""" % (pre, "grew(*old(ctx), *final(ctx), *parent)," if parent else "final(ctx).roots == old(ctx).roots,", ok, extra)
NOATTR = "fl_strict() ==> forall|a: XStr| (#[trigger] node.inner.attribute_s(&a)) is Some ==> node.visited().contains(a)"
def add(k, **kw): ITEMS[k] = kw
add("Context::add_root", c="ensures final(self).roots@ == old(self).roots@.insert(name, root), same_file(*old(self), *final(self)), final(self).shared == old(self).shared, !old(self).roots@.dom().contains(name) ==> cext(*old(self), *final(self)),", entry="proof { reveal(cext); }")
add("Context::has_root", c="ensures r == self.roots@.dom().contains(*name),")
add("Context::discover_type", c="ensures cext(*old(self), *final(self)), final(self).roots == old(self).roots, final(self).shared.namespaces == old(self).shared.namespaces, parent is Some ==> dep(*final(self), *(parent->0), *name),", entry="proof { reveal(cext); }")
add("Context::get_node_name", c="ensures r == (Name { name: *name, namespace: node_ns(*self, is_top_level) }),")
add("Context::target_namespace", c="ensures r == self.target_namespace,")
add("Context::get_type_name", c="""requires ctx_wf(*old(self)), ensures ctx_wf(*final(self)), cext(*old(self), *final(self)), final(self).roots == old(self).roots,
   ({ let s = attr.value_s(); (fl_ref() && fl_lit() ==> (r is Ok) == (ref_ns(*old(self), s) is Some && (ref_ns(*old(self), s) == Some(Some(xns())) ==> lit_of(local(s)) is Some))) && (fl_ref() && r is Ok ==> ref_ns(*old(self), s) is Some) && (fl_lit() && r is Ok && ref_ns(*old(self), s) == Some(Some(xns())) ==> lit_of(local(s)) is Some) && (r is Ok ==> tref_ok(r->Ok_0, s, *final(self)))
     && (fl_ref() && ref_ns(*old(self), s) is None ==> r is Err && r->Err_0 is MissingNamespace && r->Err_0->MissingNamespace_prefix == split2(s, ':')[0])
     && (fl_lit() && r is Err && ref_ns(*old(self), s) is Some ==> r->Err_0 is UnsupportedType && r->Err_0->UnsupportedType_name == local(s)) }),""", entry="proof { reveal(cext); }")
add("literal_from_str", c="ensures fl_lit() ==> r == lit_of(*literal),")
add("MaxOccurs::is_vec", c="ensures fl_occ() ==> r == is_vec_s(*self),")
add("Leaf::is_vec", c="ensures fl_occ() ==> r == is_vec_s(self.max_occurs),")
add("Leaf::is_optional", c="ensures fl_occ() ==> r == (self.min_occurs == MinOccurs(0)),")
add("Name::new", c="ensures r == (Name { name: name.into_s(), namespace: namespace }),")
DOCS = "match (self, r) { (Root::Leaf(a), Root::Leaf(b)) => a.content == b.content && a.restrictions == b.restrictions, (Root::Enum(a), Root::Enum(b)) => a == b, (Root::Element(a), Root::Element(b)) => a.attributes == b.attributes && a.content == b.content && a.is_virtual == b.is_virtual, (Root::Choice(a), Root::Choice(b)) => a.variants == b.variants && a.is_virtual == b.is_virtual, _ => false }"
add("Root::with_docs", c="ensures %s," % DOCS)
add("ElementDefinition::with_docs", c="ensures self.attributes == r.attributes && self.content == r.content && self.is_virtual == r.is_virtual,")
add("element::parse_min_occurs", c="ensures fl_occ() ==> (r is Ok) == (match occurs { None => true, Some(a) => <u32 as XFromStr>::parse_s(a.value_s()) is Some }), fl_occ() && r is Ok ==> r->Ok_0 == (match occurs { None => MinOccurs(1), Some(a) => MinOccurs(<u32 as XFromStr>::parse_s(a.value_s())->0) }), r is Err ==> r->Err_0 is ParseInt,")
add("element::parse_max_occurs", c="""ensures fl_occ() ==> (r is Ok) == (match occurs { None => true, Some(a) => a.value_s() == xlit_s("unbounded") || <u32 as XFromStr>::parse_s(a.value_s()) is Some }), fl_occ() && r is Ok ==> r->Ok_0 == (match occurs { None => MaxOccurs::Number(1), Some(a) => if a.value_s() == xlit_s("unbounded") { MaxOccurs::Unbounded } else { MaxOccurs::Number(<u32 as XFromStr>::parse_s(a.value_s())->0) } }), r is Err ==> r->Err_0 is ParseInt,""")
add("derive_virtual_name", c="ensures r.name@.len() > 0, r.namespace == node_ns(*ctx, false), !shorten ==> !ctx.roots@.dom().contains(r) && r.name@.len() >= total(names.seq_s()),", entry="let ghost __nm = names.seq_s();",
  loops={0: """invariant __s0 == __nm, __it0@.len() <= __s0.len(), __it0@ =~= __s0.skip(__s0.len() - __it0@.len()), virtual_name@.len() >= total(__s0.take(__s0.len() - __it0@.len())),""",
    1: "invariant name.namespace == node_ns(*ctx, false), name.name@.len() >= virtual_name@.len(), "},
  lbody={0: "proof { let p = __s0.len() - __it0@.len() - 1; lemma_total(__s0, p, p + 1); assert(__s0[p] == name); }"}, pre={1: "proof { assert(__nm.take(__nm.len() as int) =~= __nm); }"})
add("deduplicate_virtual_names", c="ensures same_leaves(old(leaves)@, final(leaves)@), distinct_virtual(final(leaves)@), fl_uno() ==> forall|i: int| 0 <= i < old(leaves)@.len() ==> (#[trigger] final(leaves)@[i]).is_unordered == old(leaves)@[i].is_unordered,", entry="broadcast use {lemma_enumd_at, lemma_refs_at};", cl={"any": dict(ty="(usize, &Leaf)", gty="(usize, &Leaf)")},
  loops={0: """invariant __s0.len() == old(leaves)@.len(), forall|k: int| 0 <= k < __s0.len() ==> (#[trigger] __s0[k]) == k, __it0@.len() <= __s0.len(), __it0@ =~= __s0.skip(__s0.len() - __it0@.len()), same_leaves(old(leaves)@, leaves@),
     fl_uno() ==> forall|k: int| 0 <= k < leaves@.len() ==> (#[trigger] leaves@[k]).is_unordered == old(leaves)@[k].is_unordered,
     fl_name() ==> forall|a: int, b: int| 0 <= a < __s0.len() - __it0@.len() && 0 <= b < leaves@.len() && a != b && (#[trigger] leaves@[a]).is_virtual ==> leaves@[a].name.name.to_snake_case_s() != (#[trigger] leaves@[b]).name.name.to_snake_case_s(),""",
    1: """invariant !leaves@[i as int].is_virtual ==> name == leaves@[i as int].name.name,"""},
  lbody={0: "proof { let p = __s0.len() - __it0@.len() - 1; assert(__s0[p] == i); }"})
add("parse_annotation", c="requires node is Some ==> node->0.wf(),")
add("annotation::parse", c="requires node.wf(),", loops={0: "invariant allf(children.children@),"})
add("simple_type::parse", c=parse_c("simple_ok(r->Ok_0, node.inner, *final(ctx)) && (%s)" % NOATTR, parent=False), loops={0: """invariant __it0@.len() <= __s0.len(), __it0@ =~= __s0.skip(__s0.len() - __it0@.len()), all_fresh(__s0, xk(restriction.inner)), fl_enum() ==> enumerations@ == enums(restriction.inner, __s0.len() - __it0@.len()), enumerations@.len() == enums(restriction.inner, __s0.len() - __it0@.len()).len(), facets_ok(restriction.inner, __s0.len() - __it0@.len()),"""},
  entry="broadcast use {lemma_enums, lemma_enums0};", lbody={0: "proof { let p = __s0.len() - __it0@.len() - 1; assert(__s0[p] == child); assert(enums(restriction.inner, p) == enums(restriction.inner, p)); assert(enums(restriction.inner, p + 1) == enums(restriction.inner, p + 1)); }"})
add("attribute::parse", c=parse_c("attr_decl(node.inner, *final(ctx)) && (r->Ok_0 is None) == prohibited(node.inner) && (r->Ok_0 is Some ==> attr_ok(r->Ok_0->0, node.inner, *parent, *final(ctx)))", pre="node.fresh(node.inner),"))
# the loop over attribute declarations: those removed so far, or a leftover that is none
def attr_loop(k, own, hint=""):
    return dict(loops={k: """invariant allf(children.children@), ctx_wf(*ctx), cext(__c1, *ctx), grew(*old(ctx), *ctx, *parent), well_named(__own), attr_prog(attributes@, __k0, inners(children.children@), __own, *parent, *ctx),"""},
     pre={k: "let ghost __own = %s; let ghost __k0 = inners(children.children@); let ghost __c1 = *ctx; proof { assert(attributes@ =~= Seq::<AstAttribute>::empty()); }" % own + hint})
CCH = """proof { let ek = xk(extension.inner); if hasq(ek, xlit_s("sequence")) { let s = ek[fq(ek, xlit_s("sequence"))]; assert(virtual_leaves@.len() == 1); let l = virtual_leaves@[0]; assert(min_ok(l, s)); assert(occ_only(s, false));
    assert(virt(*ctx, *parent, l.definition.content->Named_0)); assert(seq_root(ctx.roots@[l.definition.content->Named_0], s, *parent, *ctx)); } else { assert(virtual_leaves@.len() == 0); } assert(base_ref(content, at(extension.inner, xlit_s("base"))->0, *parent, *ctx)); }"""
GROUP = lambda seq: dict(entry="broadcast use {lemma_parts, lemma_parts0}; reveal_with_fuel(leaf_ok, 3); let ghost __n = node.inner;", loops={0: """invariant __it0@.len() <= __s0.len(), __it0@ =~= __s0.skip(__s0.len() - __it0@.len()), all_fresh(__s0, xk(__n)), ctx_wf(*ctx), cext(*old(ctx), *ctx), grew(*old(ctx), *ctx, *parent), well_named(__n),
     uno(%s@, false), lv_ok(%s@, parts(__n, __s0.len() - __it0@.len()), __n.height_s(), *parent, *ctx, %s),""" % (("leaves", "leaves", "true") if seq else ("variants", "variants", "false"))},
  lbody={0: "proof { let p = __s0.len() - __it0@.len() - 1; assert(__s0[p] == child); assert(parts(__n, p) == parts(__n, p)); assert(parts(__n, p + 1) == parts(__n, p + 1)); assert(kid(xk(__n)[p], __n)); }"})
add("choice::parse", c=parse_c("group_ok(r->Ok_0@, node.inner, *parent, *final(ctx), false) && uno(r->Ok_0@, false) && distinct_virtual(r->Ok_0@) && (%s)" % NOATTR), **GROUP(False))
add("sequence::parse", c=parse_c("group_ok(r->Ok_0@, node.inner, *parent, *final(ctx), true) && uno(r->Ok_0@, false) && distinct_virtual(r->Ok_0@) && (%s)" % NOATTR), **GROUP(True))
add("simple_content::parse", c=parse_c("sc_ok(r->Ok_0, node.inner, *parent, *final(ctx)) && !r->Ok_0.is_virtual", pre="node.fresh(node.inner),"), **attr_loop(0, "extension.inner"))
add("complex_content::parse", c=parse_c("cc_ok(r->Ok_0, node.inner, *parent, *final(ctx)) && !r->Ok_0.is_virtual", pre="node.fresh(node.inner),"), entry="reveal_with_fuel(cc_ok, 3);", **attr_loop(0, "extension.inner", CCH))
CT = attr_loop(1, "node.inner", """proof { let k = rm(xk(node.inner), xlit_s("annotation")); if gname(k) is Some { let g = k[fq(k, gname(k)->0)]; assert(kid(g, node.inner)); assert(__k0 == rm(k, gname(k)->0)); if gname(k)->0 == xlit_s("choice") { assert(cont_ok(content, g, *parent, *ctx)); } else { let ls = content->0->Leaves_0@; assert(cg_own(ls, g, *parent, *ctx) || cg_direct(ls, g, *parent, *ctx)); assert(cgroup_ok(content, g, *parent, *ctx)); } } else { assert(content is None); assert(__k0 == k); } }""")
CT["loops"][0] = """invariant __ix0 <= leaves@.len(), same_leaves(__l0, leaves@), fl_uno() ==> forall|i: int| 0 <= i < leaves@.len() ==> (#[trigger] leaves@[i]).is_unordered == (i < __ix0), __l0.len() == leaves@.len(),"""
CT["pre"][0] = "let ghost __l0 = leaves@;"
add("complex_type::parse", c=parse_c("""complex_ok(r->Ok_0, node.inner, *parent, *final(ctx)) && (fl_strict() ==> forall|a: XStr| (#[trigger] node.inner.attribute_s(&a)) is Some ==> node.visited().contains(a) || a == xlit_s("mixed"))"""), bc="lemma_total23, lemma_first_q, lemma_kids, lemma_kids_rm, lemma_fq, lemma_cext_refl, lemma_cext_trans, lemma_cext_file, lemma_cext_dep, lemma_cext_root, mono_lv, mono_seq_root, mono_choice_root, mono_cgroup, mono_cont, lemma_same, lemma_prog0, lemma_prog_push, lemma_prog_skip, lemma_prog_done, lemma_prog_kids, mono_prog", **CT)
EA = """(fl_strict() ==> forall|a: XStr| (#[trigger] node.inner.attribute_s(&a)) is Some ==> node.visited().contains(a) || a == xlit_s("type") || (a == xlit_s("fixed") && at(node.inner, xlit_s("type")) is Some && !(r->Ok_0->Leaf_0.content is Named)))"""
add("element::parse_root", c=parse_c("eroot_ok(r->Ok_0, node.inner, *parent, *final(ctx)) && " + EA))
add("element::parse_child", c=parse_c("leaf_ok(r->Ok_0, node.inner, *parent, *final(ctx), true) && leaf_ok(r->Ok_0, node.inner, *parent, *final(ctx), false) && (fl_uno() ==> !r->Ok_0.is_unordered)", pre='node.fresh(node.inner), nm(node.inner) == xlit_s("element"),'))
add("root::parse", c=parse_c("root_ok(r->Ok_0, node.inner, *parent, *final(ctx)) && root_attrs(node.inner, node.visited(), r->Ok_0)"))
for k in ITEMS:
    if not ITEMS[k].get("trusted") and "parse" in k: ITEMS[k]["entry"] = (BC if "bc" not in ITEMS[k] else "broadcast use {" + ITEMS[k].pop("bc") + "};") + " " + ITEMS[k].get("entry", "")
add("Context::new", c="""requires shared.namespaces.wf(), ensures ctx_wf(r), r.roots@ == Map::<Name, Root>::empty(), r.default_namespace == schema.uri_s(None), r.is_qualified == (at(*schema, xlit_s("elementFormDefault")) == Some(xlit_s("qualified"))), doc_ns(r.document_namespaces@, schema.namespaces_s()),
   ns_ext(shared.namespaces, r.shared.namespaces), r.shared.dependencies == shared.dependencies, r.shared.files == shared.files, match target_namespace { None => r.target_namespace is None, Some(u) => ns_is(r.shared.namespaces, r.target_namespace, *u) },""", entry="broadcast use roxmltree::axiom_ns_unique;",
  loops={0: "invariant __s0 == schema.namespaces_s(), __it0@.len() <= __s0.len(), __it0@ =~= __s0.skip(__s0.len() - __it0@.len()), doc_ns(document_namespaces@, __s0.take(__s0.len() - __it0@.len())),"}, lbody={0: "proof { let p = __s0.len() - __it0@.len() - 1; assert(__s0[p] == ns); assert(__s0.take(p + 1) =~= __s0.take(p).push(ns)); }"})
add("Context::take_shared", c="requires old(self).shared.namespaces.wf(), ensures r == old(self).shared, final(self).roots == old(self).roots, final(self).target_namespace == old(self).target_namespace, final(self).document_namespaces == old(self).document_namespaces, final(self).default_namespace == old(self).default_namespace, final(self).is_qualified == old(self).is_qualified,")
add("Context::set_shared", c="ensures final(self).shared == shared, final(self).roots == old(self).roots, final(self).target_namespace == old(self).target_namespace, final(self).document_namespaces == old(self).document_namespaces, final(self).default_namespace == old(self).default_namespace, final(self).is_qualified == old(self).is_qualified,")
add("SchemaContext::get_xml_element_name", c="requires name.namespace is Id ==> self.namespaces.by_id@.dom().contains(name.namespace->Id_0), ensures r@ == (match name.namespace { Namespace::None => name.name@, Namespace::Id(i) => if self.is_qualified && name.namespace == self.target_namespace { name.name@ } else { self.namespaces.by_id@[i].prefix@ + xlit_s(\":\")@ + name.name@ } }),")
add("SchemaContext::resolve", c="ensures resolved(self.elements@, *name, orf(r)),", entry="let ghost __n = *name; let ghost mut __k: nat = 0; reveal_with_fuel(chase, 2);", loops={0: "invariant chase(self.elements@, __n, __k) == orf(next),"}, lbody={0: "proof { __k = __k + 1; }"})
add("SchemaContext::is_text", c="ensures text_content(*content, self.elements@, r),")
CFG = dict(mods=MODS + ["node", "error", "context", "ast"], mutbind=["node", "child", "restriction", "extension"], mutself=["Node::attribute", "Node::try_attribute"],
  types={"std::num::ParseIntError": "XIntErr", "rust_decimal::Error": "XDecErr", "ParseIntError": "XIntErr"})
AST = {"Attribute": "AstAttribute"}
QUOTE = ["to_impl", "to_xml_impl", "from_xml_impl", "from_str_impl", "to_declaration", "lookahead_impl", "quote_xml_namespace"]
OWNERS = ["Name", "Leaf", "LeafContent", "LeafDefinition", "Attribute", "ElementContent", "ElementDefinition", "Root", "LiteralType", "SchemaContext"]
SRC = [(R + "ast/name.rs", {}), (R + "ast/namespaces.rs", dict()), (R + "ast/literal_type.rs", {}), (R + "ast/leaf_content.rs", {}), (R + "ast/leaf_definition.rs", {}), (R + "ast/leaf.rs", {}),
  (R + "ast/attribute.rs", dict(rename=AST)), (R + "ast/element_content.rs", {}), (R + "ast/element_definition.rs", dict(rename=AST)), (R + "ast/root.rs", {}),
  (R + "xsd/error.rs", {}), (R + "xsd/node.rs", {}), (R + "xsd/context.rs", {}), (R + "xsd/parse/mod.rs", {})] + [(R + "xsd/parse/%s.rs" % m, dict(module=m, **(dict(rename=AST) if m == "attribute" else {}))) for m in MODS]
SKIP = [o + "::" + q for o in OWNERS for q in QUOTE] + ["LiteralType::xsd_name", "base_attributes_to_xml_impl", "attributes_to_xml_impl", "escape_enum_names", "Root::is_emptiable", "Leaf::is_emptiable", "Namespaces::iter", "Namespaces::get", "Root::docs", "<Node as From>", "<Node as From>::from", "<Node as Deref>", "<Node as Deref>::deref", "Node::try_namespace_prefix", "Node::try_namespace_uri", "Node::default_namespace", "ChildrenFilterBuilder::try_find", "Context::into_schema"]
EXTRA = {"<MinOccurs as Default>": "open spec fn default_s() -> Self { MinOccurs(1) }", "<MaxOccurs as Default>": "open spec fn default_s() -> Self { MaxOccurs::Number(1) }"}
FLAGS = ["occ", "lit", "ref", "strict", "dep", "uno", "attr", "enum", "name"]
UNIT = Unit("parser", SRC, pre=PRE, post=POST, items=ITEMS, prelude=("core", "maps", "disp", "roxml"), skip=SKIP, cfg=CFG, impl_extra=EXTRA, flags=FLAGS)
