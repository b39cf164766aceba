"""xsd-internal: xsd/schema.rs: which files are read, what they contribute, and which types are generated."""
from ..vx import Unit
from . import parser as P
import os
R = P.R
PRE = P.PRE.replace("#[verifier::external_body] pub struct PathBuf { d: u8 }\n", "") + r"""
pub type Path = XPath;
pub type PathBuf = XPath;
use roxmltree::{Document, TextPos};
#[verifier::external_body] pub struct TokenStream { t: u8 }
impl TokenStream {
    /// the types whose definitions are in the code
    pub uninterp spec fn view(&self) -> Seq<Name>;
    #[verifier::external_body] pub fn new() -> (r: TokenStream) ensures r@ == Seq::<Name>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn x_append_all(&mut self, o: TokenStream) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
}
"""
POST = r"""
pub type Deps = Map<Name, XSet<Name>>;
pub open spec fn edge(d: Deps, a: Name, b: Name) -> bool { d.dom().contains(a) && d[a]@.contains(b) }
pub open spec fn path(d: Deps, a: Name, b: Name, n: nat) -> bool decreases n { if n == 0 { a == b } else { exists|m: Name| path(d, a, m, (n - 1) as nat) && #[trigger] edge(d, m, b) } }
/// b is a itself or a type a refers to, directly or through other types
pub open spec fn reach(d: Deps, a: Name, b: Name) -> bool { exists|n: nat| path(d, a, b, n) }
pub broadcast proof fn lemma_add1(s: Seq<Name>, x: Name) ensures ({ let t = #[trigger] (s + seq![x]); (forall|y: Name| t.contains(y) <==> s.contains(y) || y == x) && (s.no_duplicates() && !s.contains(x) ==> t.no_duplicates()) })
{ let t = s + seq![x]; assert forall|y: Name| t.contains(y) <==> s.contains(y) || y == x by { if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(t[i] == y); } assert(t[s.len() as int] == x); if t.contains(y) && y != x { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; assert(s[i] == y); } } if s.no_duplicates() && !s.contains(x) { assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by { if j == s.len() { assert(s.contains(s[i])); } } } }
pub proof fn lemma_reach0(d: Deps, a: Name) ensures reach(d, a, a) { assert(path(d, a, a, 0)); }
pub broadcast proof fn lemma_reach1(d: Deps, a: Name, m: Name, b: Name) requires #[trigger] reach(d, a, m), #[trigger] edge(d, m, b) ensures reach(d, a, b) { let n = choose|n: nat| path(d, a, m, n); assert(path(d, a, b, n + 1)); }
/// a set that holds a and is closed under references holds everything reachable
pub proof fn lemma_closed(d: Deps, a: Name, s: Set<&Name>) requires s.contains(&a), forall|x: Name, y: Name| s.contains(&x) && #[trigger] edge(d, x, y) ==> s.contains(&y) ensures forall|b: Name| reach(d, a, b) ==> #[trigger] s.contains(&b)
{ assert forall|b: Name| reach(d, a, b) implies #[trigger] s.contains(&b) by { let n = choose|n: nat| path(d, a, b, n); lemma_closed_n(d, a, b, s, n); } }
pub proof fn lemma_closed_n(d: Deps, a: Name, b: Name, s: Set<&Name>, n: nat) requires path(d, a, b, n), s.contains(&a), forall|x: Name, y: Name| s.contains(&x) && #[trigger] edge(d, x, y) ==> s.contains(&y) ensures s.contains(&b) decreases n
{ if n > 0 { let m = choose|m: Name| path(d, a, m, (n - 1) as nat) && #[trigger] edge(d, m, b); lemma_closed_n(d, a, m, s, (n - 1) as nat); } }
"""
POST += r"""
impl XInto<XsdError> for NodeError { open spec fn into_s(self) -> XsdError { XsdError::Node(self) } fn x_into(self) -> (r: XsdError) { XsdError::Node(self) } }
impl XInto<ParseError> for XsdError { open spec fn into_s(self) -> ParseError { ParseError::Xsd(self) } fn x_into(self) -> (r: ParseError) { ParseError::Xsd(self) } }
pub uninterp spec fn node_of<'a, 'i>(n: RN<'a, 'i>) -> Node<'a, 'i>;
pub broadcast axiom fn axiom_node_of<'a, 'i>(n: RN<'a, 'i>) ensures (#[trigger] node_of(n)).fresh(n);
impl<'a, 'i> XInto<Node<'a, 'i>> for RN<'a, 'i> { open spec fn into_s(self) -> Node<'a, 'i> { node_of(self) } #[verifier::external_body] fn x_into(self) -> (r: Node<'a, 'i>) { unimplemented!() } }
impl<'a, 'i> Node<'a, 'i> { #[verifier::external_body] pub fn attribute_q<'c>(&self, name: &XStr) -> (r: Option<&'c Attribute<'a, 'i>>) ensures (r is Some) == (self.inner.attribute_s(name) is Some), r is Some ==> r->0.value_s() == *(self.inner.attribute_s(name)->0) { unimplemented!() } }
pub open spec fn canon(p: XPath) -> XPath { match canon_s(p) { Some(c) => c, None => p } }
pub open spec fn base_of(p: XPath) -> XPath { match parent_s(p) { Some(b) => b, None => p } }
/// every schema document that is read names its extension bases
pub open spec fn all_named() -> bool { forall|s: XStr| (#[trigger] roxmltree::droot(s)) is Some ==> well_named(roxmltree::droot(s)->0) }
pub open spec fn is_schema(n: RN) -> bool { in_ns(n, xns()) && nm(n) == xlit_s("schema") }
pub open spec fn file_ns(n: RN, k: Namespace, s: Namespaces) -> bool { match at(n, xlit_s("targetNamespace")) { None => k is None, Some(u) => ns_is(s, k, u) } }
/// the context belongs to that document
pub open spec fn ctx_of(c: Context, n: RN) -> bool { doc_ns(c.document_namespaces@, n.namespaces_s()) && c.default_namespace == n.uri_s(None) && c.is_qualified == (at(n, xlit_s("elementFormDefault")) == Some(xlit_s("qualified"))) && file_ns(n, c.target_namespace, c.shared.namespaces) }
pub type Els = Map<Name, Root>;
pub open spec fn sdep(s: SharedContext, p: Name, k: Name) -> bool { s.dependencies@.dom().contains(p) && s.dependencies@[p]@.contains(k) }
/// what the state holds stays in the larger one
#[verifier::opaque]
pub open spec fn sh_ext(a: SharedContext, b: SharedContext) -> bool { ns_ext(a.namespaces, b.namespaces) && (forall|p: Name, k: Name| #[trigger] sdep(a, p, k) ==> sdep(b, p, k)) && (forall|f: XPath| #[trigger] a.files@.contains(f) ==> b.files@.contains(f)) }
pub open spec fn el_ext(a: Els, b: Els) -> bool { forall|k: Name| #[trigger] a.dom().contains(k) ==> b.dom().contains(k) }
/// the definition is there, was parsed in a context of its document, and everything it refers to is kept
pub open spec fn def_by(k: Name, r: Root, c: Context, d: RN, n: RN, e: Els, s: SharedContext) -> bool {
    at(d, xlit_s("name")) == Some(k.name) && k.namespace == c.target_namespace && ctx_of(c, n) && e.dom().contains(k) && root_ok(r, d, k, c) && el_ext(c.roots@, e) && sh_ext(c.shared, s)
}
pub open spec fn defined(d: RN, n: RN, e: Els, s: SharedContext) -> bool { exists|k: Name, r: Root, c: Context| def_by(k, r, c, d, n, e, s) }
pub open spec fn is_inc(d: RN) -> bool { nm(d) == xlit_s("include") || nm(d) == xlit_s("import") }
pub open spec fn inc_ok(d: RN, base: XPath, s: SharedContext) -> bool { at(d, xlit_s("schemaLocation")) is Some && s.files@.contains(canon(join_s(base, at(d, xlit_s("schemaLocation"))->0))) }
pub open spec fn top_ok(d: RN, n: RN, base: XPath, e: Els, s: SharedContext) -> bool { if is_inc(d) { inc_ok(d, base, s) } else { defined(d, n, e, s) } }
/// the first p top-level components of a document are there
#[verifier::opaque]
pub open spec fn covered(n: RN, base: XPath, p: int, e: Els, s: SharedContext) -> bool { forall|i: int| 0 <= i < p ==> top_ok(#[trigger] xk(n)[i], n, base, e, s) }
pub open spec fn have_at(p: XPath, e: Els, s: SharedContext) -> bool { file_s(p) is Some && roxmltree::droot(file_s(p)->0) is Some && ({ let n = roxmltree::droot(file_s(p)->0)->0; is_schema(n) && covered(n, base_of(p), xk(n).len() as int, e, s) }) }
/// a file that was read: all its top-level components are there
pub open spec fn have(f: XPath, e: Els, s: SharedContext) -> bool { exists|p: XPath| #[trigger] have_at(p, e, s) && canon(p) == f }
#[verifier::opaque]
pub open spec fn files_ok(f0: Set<XPath>, e: Els, s: SharedContext) -> bool { forall|f: XPath| #[trigger] s.files@.contains(f) && !f0.contains(f) ==> have(f, e, s) }
pub proof fn mono_def(d: RN, n: RN, e: Els, s: SharedContext, e2: Els, s2: SharedContext) requires defined(d, n, e, s), el_ext(e, e2), sh_ext(s, s2) ensures defined(d, n, e2, s2)
{ reveal(sh_ext); let (k, r, c) = choose|k: Name, r: Root, c: Context| def_by(k, r, c, d, n, e, s); assert(def_by(k, r, c, d, n, e2, s2)); }
pub proof fn mono_cov(n: RN, base: XPath, p: int, e: Els, s: SharedContext, e2: Els, s2: SharedContext) requires covered(n, base, p, e, s), el_ext(e, e2), sh_ext(s, s2) ensures covered(n, base, p, e2, s2)
{ reveal(covered); reveal(sh_ext); assert forall|i: int| 0 <= i < p implies top_ok(#[trigger] xk(n)[i], n, base, e2, s2) by { if !is_inc(xk(n)[i]) { mono_def(xk(n)[i], n, e, s, e2, s2); } } }
pub proof fn mono_have(f: XPath, e: Els, s: SharedContext, e2: Els, s2: SharedContext) requires have(f, e, s), el_ext(e, e2), sh_ext(s, s2) ensures have(f, e2, s2)
{ let p = choose|p: XPath| #[trigger] have_at(p, e, s) && canon(p) == f; let n = roxmltree::droot(file_s(p)->0)->0; mono_cov(n, base_of(p), xk(n).len() as int, e, s, e2, s2); assert(have_at(p, e2, s2)); }
/// a component more
pub broadcast proof fn lemma_cov0(n: RN, base: XPath, e: Els, s: SharedContext) ensures #[trigger] covered(n, base, 0, e, s) { reveal(covered); }
pub broadcast proof fn lemma_step(n: RN, base: XPath, p: int, q: int, e: Els, s: SharedContext, e2: Els, s2: SharedContext) requires #[trigger] covered(n, base, p, e, s), q == p + 1, el_ext(e, e2), sh_ext(s, s2), top_ok(xk(n)[p], n, base, e2, s2) ensures #[trigger] covered(n, base, q, e2, s2) { mono_cov(n, base, p, e, s, e2, s2); reveal(covered); }
pub broadcast proof fn lemma_def(k: Name, r: Root, c: Context, d: RN, n: RN, e: Els, s: SharedContext) requires #[trigger] root_ok(r, d, k, c), def_by(k, r, c, d, n, e, s) ensures #[trigger] defined(d, n, e, s) {}
pub broadcast proof fn lemma_cext_sh(a: Context, b: Context) requires #[trigger] cext(a, b) ensures sh_ext(a.shared, b.shared), el_ext(a.roots@, b.roots@) { reveal(cext); reveal(sh_ext); assert forall|p: Name, k: Name| #[trigger] sdep(a.shared, p, k) implies sdep(b.shared, p, k) by { assert(dep(a, p, k)); } }
pub broadcast proof fn lemma_sh_ns(a: SharedContext, b: SharedContext) requires #[trigger] sh_ext(a, b) ensures ns_ext(a.namespaces, b.namespaces) { reveal(sh_ext); }
/// nothing but the elements grew
pub broadcast proof fn lemma_files_more(f0: Set<XPath>, e: Els, s: SharedContext, e2: Els, s2: SharedContext) requires #[trigger] files_ok(f0, e, s), el_ext(e, e2), sh_ext(s, s2), s.files@ == s2.files@ ensures #[trigger] files_ok(f0, e2, s2)
{ reveal(files_ok); assert forall|f: XPath| #[trigger] s2.files@.contains(f) && !f0.contains(f) implies have(f, e2, s2) by { assert(s.files@.contains(f)); mono_have(f, e, s, e2, s2); } }
pub broadcast proof fn lemma_files0(e: Els, s: SharedContext, f0: Set<XPath>) requires f0 == s.files@ ensures #[trigger] files_ok(f0, e, s) { reveal(files_ok); }
pub broadcast proof fn lemma_sh_refl(a: SharedContext, b: SharedContext) requires ns_ext(a.namespaces, b.namespaces), a.dependencies == b.dependencies, a.files == b.files ensures #[trigger] sh_ext(a, b) { reveal(sh_ext); }
pub broadcast proof fn lemma_sh_file(a: SharedContext, b: SharedContext, f: XPath) requires #[trigger] sh_ext(a, b), a.files@.contains(f) ensures #[trigger] b.files@.contains(f) { reveal(sh_ext); }
pub broadcast proof fn lemma_sh_sub(o: Option<SharedContext>, b: SharedContext, c: SharedContext) requires sh_ext(b, c), sh0(o).namespaces == b.namespaces, sh0(o).dependencies == b.dependencies, (forall|f: XPath| #[trigger] sh0(o).files@.contains(f) ==> b.files@.contains(f)) ensures #![trigger sh0(o), sh_ext(b, c)] sh_ext(sh0(o), c) { reveal(sh_ext); let a = sh0(o); assert forall|p: Name, k: Name| #[trigger] sdep(a, p, k) implies sdep(c, p, k) by { assert(sdep(b, p, k)); } }
pub broadcast proof fn lemma_sh_trans(a: SharedContext, b: SharedContext, c: SharedContext) requires #[trigger] sh_ext(a, b), #[trigger] sh_ext(b, c) ensures sh_ext(a, c) { reveal(sh_ext); }
/// the files of a nested document come on top: s grew to s2, whose new files are all there
pub broadcast proof fn lemma_merge(f0: Set<XPath>, e: Els, s: SharedContext, e1: Els, e2: Els, s2: SharedContext) requires #[trigger] files_ok(f0, e, s), #[trigger] files_ok(s.files@, e1, s2), sh_ext(s, s2), el_ext(e, e2), el_ext(e1, e2) ensures #[trigger] files_ok(f0, e2, s2)
{ reveal(files_ok); reveal(sh_ext); assert forall|f: XPath| #[trigger] s2.files@.contains(f) && !f0.contains(f) implies have(f, e2, s2) by { if s.files@.contains(f) { mono_have(f, e, s, e2, s2); } else { lemma_sh_refl(s2, s2); mono_have(f, e1, s2, e2, s2); } } }
/// the document's own file
pub broadcast proof fn lemma_own(f0: Set<XPath>, p: XPath, e: Els, s: SharedContext) requires #[trigger] files_ok(f0.insert(canon(p)), e, s), have_at(p, e, s) ensures files_ok(f0, e, s)
{ reveal(files_ok); assert forall|f: XPath| #[trigger] s.files@.contains(f) && !f0.contains(f) implies have(f, e, s) by { if f == canon(p) { assert(have_at(p, e, s)); } } }
pub open spec fn sh(s: Schema) -> SharedContext { SharedContext { namespaces: s.context.namespaces, dependencies: s.dependencies, files: s.files } }
pub open spec fn sh0(s: Option<SharedContext>) -> SharedContext { match s { Some(s) => s, None => XDefault::default_s() } }
/// an unreadable file is reported by its own name, and only then
pub open spec fn open_err(e: SchemaError) -> bool { e is Open ==> exists|p: XPath| file_s(p) is None && e->Open_file == #[trigger] lossy_s(p) }
pub open spec fn popen_err(e: ParseError) -> bool { e is Schema ==> open_err(e->Schema_0) }
pub broadcast proof fn lemma_sh_file2(a: SharedContext, s: Schema, f: XPath) requires #[trigger] sh_ext(a, sh(s)), a.files@.contains(f) ensures #[trigger] s.files@.contains(f) { reveal(sh_ext); assert(sh(s).files@.contains(f)); }
pub broadcast proof fn lemma_top(s: Schema, f: XPath) requires files_ok(sh0(None::<SharedContext>).files@, s.context.elements@, sh(s)), #[trigger] s.files@.contains(f) ensures have(f, s.context.elements@, sh(s)) { reveal(files_ok); assert(sh0(None::<SharedContext>).files == empty_set::<XPath>()); assert(sh(s).files@.contains(f)); }
pub open spec fn shared_wf(s: Option<SharedContext>) -> bool { sh0(s).namespaces.wf() }
"""
ITEMS = {k: dict(v, trusted=True) for k, v in P.ITEMS.items()}
def add(k, **kw): ITEMS[k] = kw
add("Schema::generate_element", c="ensures r is Ok == self.context.elements@.dom().contains(*name), r is Ok ==> r->Ok_0@ == seq![*name],", trusted=True)
add("Schema::generate_element_and_dependencies", c="""ensures r is Ok ==> r->Ok_0@.no_duplicates() && (forall|n: Name| #[trigger] r->Ok_0@.contains(n) <==> reach(self.dependencies@, *name, n) && !old(already_generated)@.contains(&n)) && (forall|n: Name| #[trigger] final(already_generated)@.contains(&n) <==> old(already_generated)@.contains(&n) || reach(self.dependencies@, *name, n)),
   (forall|n: Name| reach(self.dependencies@, *name, n) ==> #[trigger] self.context.elements@.dom().contains(n)) ==> r is Ok,""", entry="let ghost __n = *name; let ghost __d = self.dependencies@; broadcast use {lemma_reach1, lemma_refs_at, lemma_add1}; proof { lemma_reach0(__d, __n); }",
  loops={0: """invariant forall|n: Name| #[trigger] names@.contains(&n) ==> reach(__d, __n, n), forall|n: Name| #[trigger] new_names@.contains(&n) ==> reach(__d, __n, n), names@.contains(&__n) || new_names@.contains(&__n),
     forall|x: Name, y: Name| names@.contains(&x) && #[trigger] edge(__d, x, y) ==> names@.contains(&y) || new_names@.contains(&y), result@.len() == 0,""",
    1: """invariant __it1@.len() <= __s1.len(), __it1@ =~= __s1.skip(__s1.len() - __it1@.len()), forall|n: Name| #[trigger] next_names@.contains(&n) ==> reach(__d, __n, n),
     forall|i: int, y: Name| 0 <= i < __s1.len() - __it1@.len() && #[trigger] edge(__d, **(#[trigger] __s1[i]), y) ==> names@.contains(&y) || new_names@.contains(&y) || next_names@.contains(&y),""",
    2: """invariant __it2@.len() <= __s2.len(), __it2@ =~= __s2.skip(__s2.len() - __it2@.len()), forall|n: Name| #[trigger] next_names@.contains(&n) ==> reach(__d, __n, n),
     forall|i: int, y: Name| 0 <= i < __s1.len() - __it1@.len() - 1 && #[trigger] edge(__d, **(#[trigger] __s1[i]), y) ==> names@.contains(&y) || new_names@.contains(&y) || next_names@.contains(&y),
     forall|i: int| 0 <= i < __s2.len() - __it2@.len() ==> names@.contains(*(#[trigger] &__s2[i])) || new_names@.contains(__s2[i]) || next_names@.contains(__s2[i]),""",
    3: """invariant __it3@.len() <= __s3.len(), __it3@ =~= __s3.skip(__s3.len() - __it3@.len()), result@.no_duplicates(),
     forall|n: Name| #[trigger] result@.contains(n) <==> !old(already_generated)@.contains(&n) && already_generated@.contains(&n),
     forall|n: Name| #[trigger] already_generated@.contains(&n) <==> old(already_generated)@.contains(&n) || exists|i: int| 0 <= i < __s3.len() - __it3@.len() && *(#[trigger] __s3[i]) == n,"""},
  pre={3: """let ghost __s3 = __it3@; proof { lemma_closed(__d, __n, names@); assert forall|n: Name| #[trigger] reach(__d, __n, n) <==> exists|i: int| 0 <= i < __s3.len() && *(#[trigger] __s3[i]) == n by { if reach(__d, __n, n) { assert(names@.contains(&n)); assert(__s3.contains(&n)); } if exists|i: int| 0 <= i < __s3.len() && *(#[trigger] __s3[i]) == n { let i = choose|i: int| 0 <= i < __s3.len() && *(#[trigger] __s3[i]) == n; assert(__s3.contains(__s3[i])); assert(names@.contains(&n)); } } }"""},
  lbody={1: "proof { assert(__s1[__s1.len() - __it1@.len() - 1] == name); assert(set_seq(new_names).contains(*name)); assert(new_names@.contains(*name)); }", 2: "proof { assert(__s2[__s2.len() - __it2@.len() - 1] == d); assert(set_seq(*dependends).contains(*d)); assert(edge(__d, **name, *d)); }", 3: "proof { assert(__s3[__s3.len() - __it3@.len() - 1] == name); }"})
add("Schema::generate_all", c="ensures r is Ok, r->Ok_0@ =~= map_seq(self.context.elements), r->Ok_0@.no_duplicates(), forall|n: Name| r->Ok_0@.contains(n) <==> #[trigger] self.context.elements@.dom().contains(n),", entry="broadcast use lemma_refs_at;",
  loops={0: "invariant __s0 == refs::<Name>(map_seq(self.context.elements)), __it0@.len() <= __s0.len(), __it0@ =~= __s0.skip(__s0.len() - __it0@.len()), result@ =~= map_seq(self.context.elements).take(__s0.len() - __it0@.len()),"},
  lbody={0: "proof { let p = __s0.len() - __it0@.len() - 1; assert(__s0[p] == name); assert(map_seq(self.context.elements).contains(*name)); assert(self.context.elements@.dom().contains(*name)); }"})
add("canonical_path", c="ensures r == canon(*path),")
add("Context::into_schema", c="ensures sh(r).namespaces == self.shared.namespaces, r.dependencies == self.shared.dependencies, r.files == self.shared.files, r.context.elements == self.roots, r.context.target_namespace == self.target_namespace, r.context.is_qualified == self.is_qualified,")
add("Schema::into_shared", c="ensures r == sh(self),")
RES = "r is Ok ==> sh_ext(sh0(shared), sh(r->Ok_0)) && r->Ok_0.context.namespaces.wf()"
add("Schema::parse_file", c="""requires all_named(), ensures file_s(path.as_ref_s()) is None ==> r is Err && r->Err_0 is Open && r->Err_0->Open_file == lossy_s(path.as_ref_s()), r is Err ==> open_err(r->Err_0), r is Ok ==> r->Ok_0.files@.contains(canon(path.as_ref_s())) && forall|f: XPath| #[trigger] r->Ok_0.files@.contains(f) ==> have(f, r->Ok_0.context.elements@, sh(r->Ok_0)),""", entry="broadcast use lemma_top;")
add("Schema::parse_file_with_context", c="requires all_named(), shared_wf(shared), ensures file_s(path.as_ref_s()) is None ==> r is Err && r->Err_0 is Open && r->Err_0->Open_file == lossy_s(path.as_ref_s()), r is Err ==> open_err(r->Err_0), r is Ok ==> have_at(path.as_ref_s(), r->Ok_0.context.elements@, sh(r->Ok_0)) && r->Ok_0.files@.contains(canon(path.as_ref_s())) && files_ok(sh0(shared).files@, r->Ok_0.context.elements@, sh(r->Ok_0)), " + RES + ",", entry="broadcast use lemma_own;")
DATA = "r is Ok ==> ({ let n = roxmltree::droot(*data)->0; roxmltree::droot(*data) is Some && is_schema(n) && covered(n, base_of(path.as_ref_s()), xk(n).len() as int, r->Ok_0.context.elements@, sh(r->Ok_0)) && r->Ok_0.files@.contains(canon(path.as_ref_s())) && files_ok(sh0(%s).files@.insert(canon(path.as_ref_s())), r->Ok_0.context.elements@, sh(r->Ok_0)) }), r is Err ==> open_err(r->Err_0),"
add("Schema::parse", c="requires all_named(), ensures " + DATA % "None::<SharedContext>")
add("Schema::parse_with_context", c="requires all_named(), shared_wf(shared), ensures " + DATA % "shared" + RES + ",", sub=[("x_box (", "Box :: new (")], entry="broadcast use {axiom_node_of, lemma_sh_file2, lemma_sh_sub}; let ghost __s = shared;")
COV = "r is Ok ==> is_schema(root.inner) && covered(root.inner, *base_path, xk(root.inner).len() as int, r->Ok_0.context.elements@, sh(r->Ok_0)) && files_ok(sh0(%s).files@, r->Ok_0.context.elements@, sh(r->Ok_0)), r is Err ==> popen_err(r->Err_0),"
add("Schema::parse_schema", c="requires all_named(), root.wf(), well_named(root.inner), ensures " + COV % "None::<SharedContext>")
add("Schema::parse_schema_with_context", c="requires all_named(), root.wf(), well_named(root.inner), shared_wf(shared), ensures " + COV % "shared" + RES + ",", sub=[("Context :: new (root ,", "Context :: new (& root . inner ,"), ("root . attribute (", "root . attribute_q (")],
  entry="broadcast use {lemma_cov0, lemma_files0, lemma_sh_refl, lemma_kids, lemma_cext_file, lemma_merge, lemma_step, lemma_def, lemma_cext_sh, lemma_sh_ns, lemma_sh_trans, lemma_sh_file, lemma_files_more}; let ghost __r = root.inner; let ghost __sh = sh0(shared);",
  loops={0: """invariant __it0@.len() <= __s0.len(), __it0@ =~= __s0.skip(__s0.len() - __it0@.len()), all_fresh(__s0, xk(__r)), ctx_wf(ctx), ctx_of(ctx, __r), sh_ext(__sh, ctx.shared), files_ok(__sh.files@, ctx.roots@, ctx.shared), covered(__r, *base_path, __s0.len() - __it0@.len(), ctx.roots@, ctx.shared),""",
   1: """invariant __it1@.len() <= __s1.len(), __it1@ =~= __s1.skip(__s1.len() - __it1@.len()), same_file(__c1, ctx), ctx.shared == __c1.shared, el_ext(__c1.roots@, ctx.roots@), forall|i: int| 0 <= i < __s1.len() - __it1@.len() ==> ctx.roots@.dom().contains((#[trigger] __s1[i]).0),"""},
  pre={1: """let ghost __s1 = __it1@; let ghost __c1 = ctx; proof { assert forall|m: XMap<Name, Root>, k: Name| #![trigger m.seq_s(), m@.dom().contains(k)] m.seq_s() == __s1 && m@.dom().contains(k) implies exists|i: int| 0 <= i < __s1.len() && (#[trigger] __s1[i]).0 == k by { assert(map_seq(m).contains(k)); let i = choose|i: int| 0 <= i < map_seq(m).len() && map_seq(m)[i] == k; assert(__s1[i].0 == k); } }"""})
SRC = P.SRC + [(R + "xsd/schema.rs", {})]
SKIP = [x for x in P.SKIP if x not in ("Context::into_schema",)]
UNIT = Unit("schema", SRC, pre=PRE, post=P.POST + POST, items=ITEMS, prelude=("core", "maps", "disp", "roxml", "fs"), skip=SKIP, cfg=P.CFG, impl_extra=dict(P.EXTRA, **{"<ParseError as From>": "open spec fn from_s(err: NodeError) -> Self { ParseError::Xsd(XsdError::Node(err)) }"}), flags=P.FLAGS)
