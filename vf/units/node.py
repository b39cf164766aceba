"""xsd-internal/src/xsd/node.rs: the tracking view of the schema document that the schema parser reads through."""
from ..vx import Unit
# vocabulary shared with the parser unit
PRE = r"""
pub type RN<'a, 'i> = roxmltree::Node<'a, 'i>;
pub open spec fn qmatch(n: RN, name: XStr, ns: Option<&XStr>) -> bool { *n.tag_name_s().n == name && (match (n.tag_name_s().ns, ns) { (None, None) => true, (Some(a), Some(b)) => *a == *b, _ => false }) }
pub open spec fn in_ns(n: RN, ns: XStr) -> bool { n.tag_name_s().ns is Some && *(n.tag_name_s().ns->0) == ns }
/// index of the first node of that name, or the length
#[verifier::opaque]
pub open spec fn first_q(s: Seq<RN>, name: XStr, ns: Option<&XStr>) -> int decreases s.len() { if s.len() == 0 { 0 } else if qmatch(s[0], name, ns) { 0 } else { 1 + first_q(s.skip(1), name, ns) } }
pub broadcast proof fn lemma_first_q(s: Seq<RN>, name: XStr, ns: Option<&XStr>)
    ensures ({ let i = #[trigger] first_q(s, name, ns); 0 <= i <= s.len() && (i < s.len() ==> qmatch(s[i], name, ns)) && forall|j: int| 0 <= j < i ==> !(#[trigger] qmatch(s[j], name, ns)) }) decreases s.len()
{ reveal_with_fuel(first_q, 2); if s.len() > 0 && !qmatch(s[0], name, ns) { let t = s.skip(1); lemma_first_q(t, name, ns); let k = first_q(t, name, ns); assert(k < t.len() ==> t[k] == s[k + 1]); assert forall|j: int| 0 <= j < k + 1 implies !(#[trigger] qmatch(s[j], name, ns)) by { if j > 0 { assert(t[j - 1] == s[j]); } } } }
/// the child elements that a filter lets through, in document order
pub open spec fn child_elems<'a, 'i>(n: RN<'a, 'i>) -> Seq<RN<'a, 'i>> { xfilter(n.children_s(), |c: &RN<'a, 'i>| c.is_element_s()) }
pub open spec fn ostr(o: Option<&XStr>) -> Option<XStr> { match o { Some(s) => Some(*s), None => None } }
pub open spec fn fpass(c: RN, f: ChildrenFilter) -> bool {
    c.is_element_s() && (f.element_name is Some ==> *(f.element_name->0) == *c.tag_name_s().n) && (f.element_namespace is Some ==> in_ns(c, *(f.element_namespace->0)))
    && (f.attribute_name is Some && f.attribute_value is Some ==> (match c.attribute_s(f.attribute_name->0) { Some(v) => *v == *(f.attribute_value->0), None => false }))
}
pub open spec fn passing<'a, 'i>(s: Seq<RN<'a, 'i>>, f: ChildrenFilter) -> Seq<RN<'a, 'i>> { xfilter(s, |c: &RN<'a, 'i>| fpass(*c, f)) }
pub proof fn lemma_filter_eq<T>(s: Seq<T>, g: spec_fn(&T) -> bool, h: spec_fn(&T) -> bool)
    requires forall|x: &T| #[trigger] g(x) == h(x) ensures xfilter(s, g) == xfilter(s, h) decreases s.len()
{ if s.len() > 0 { lemma_filter_eq(s.drop_last(), g, h); } }
pub broadcast proof fn lemma_passing<'a, 'i>(s: Seq<RN<'a, 'i>>, g: spec_fn(&RN<'a, 'i>) -> bool, f: ChildrenFilter)
    requires forall|x: &RN<'a, 'i>| #[trigger] g(x) == fpass(*x, f) ensures #[trigger] xfilter(s, g) == #[trigger] passing(s, f)
{ let h = |c: &RN<'a, 'i>| fpass(*c, f); assert forall|x: &RN<'a, 'i>| #[trigger] g(x) == h(x) by {} lemma_filter_eq(s, g, h); }
/// the first element of that name among the children is the first of that name among the elements
pub proof fn lemma_find<'a, 'i>(s: Seq<RN<'a, 'i>>, g: spec_fn(&RN<'a, 'i>) -> bool, name: XStr, ns: Option<&XStr>)
    requires forall|x: &RN<'a, 'i>| #[trigger] g(x) == (x.is_element_s() && qmatch(*x, name, ns))
    ensures ({ let f = xfilter(s, |c: &RN<'a, 'i>| c.is_element_s()); let k = xfirst(s, g); let i = first_q(f, name, ns); if k < 0 { i == f.len() } else { i < f.len() && f[i] == s[k] } }) decreases s.len()
{
    broadcast use {lemma_xfirst, lemma_first_q, lemma_xfilter};
    let h = |c: &RN<'a, 'i>| c.is_element_s();
    if s.len() > 0 {
        let t = s.drop_last(); lemma_find(t, g, name, ns);
        let (f, ft, k, kt) = (xfilter(s, h), xfilter(t, h), xfirst(s, g), xfirst(t, g));
        let (i, it) = (first_q(f, name, ns), first_q(ft, name, ns));
        assert forall|j: int| 0 <= j < t.len() implies t[j] == #[trigger] s[j] by {}
        assert forall|j: int| 0 <= j < ft.len() implies ft[j] == #[trigger] f[j] by {}
        if kt >= 0 {
            assert(g(&s[kt]));
            if k != kt { if k >= 0 && k < kt { assert(g(&t[k])); } assert(false); }
            assert(qmatch(f[it], name, ns)); if i < it { assert(qmatch(ft[i], name, ns)); } assert(i == it);
        } else {
            if k >= 0 { if k < t.len() { assert(g(&t[k])); } assert(k == s.len() - 1); assert(h(&s.last())); assert(f.last() == s.last()); if i < ft.len() { assert(qmatch(ft[i], name, ns)); } if i > ft.len() { assert(!qmatch(f[ft.len() as int], name, ns)); } }
            else { assert(!g(&s[s.len() - 1])); if i < f.len() { if i < ft.len() { assert(qmatch(ft[i], name, ns)); } assert(f[i] == s.last()); assert(h(&f[i])); } }
        }
    }
}
/// nodes handed out with nothing read from them
pub open spec fn all_fresh<'a, 'i>(s: Seq<Node<'a, 'i>>, t: Seq<RN<'a, 'i>>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fresh(t[i]) }
/// without the first node of that name
pub open spec fn rmq<'a, 'i>(s: Seq<RN<'a, 'i>>, name: XStr, ns: Option<&XStr>) -> Seq<RN<'a, 'i>> { let i = first_q(s, name, ns); if i < s.len() { s.remove(i) } else { s } }
pub open spec fn allf<'a, 'i>(s: Seq<Node<'a, 'i>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fresh(s[i].inner) && s[i].inner.is_element_s() }
pub open spec fn inners<'a, 'i>(s: Seq<Node<'a, 'i>>) -> Seq<RN<'a, 'i>> { Seq::new(s.len(), |i: int| s[i].inner) }
pub open spec fn xns() -> XStr { xlit_s("http://www.w3.org/2001/XMLSchema") }
pub open spec fn fq(s: Seq<RN>, name: XStr) -> int { first_q(s, name, Some(&xns())) }
pub open spec fn hasq(s: Seq<RN>, name: XStr) -> bool { fq(s, name) < s.len() }
pub open spec fn rm<'a, 'i>(s: Seq<RN<'a, 'i>>, name: XStr) -> Seq<RN<'a, 'i>> { rmq(s, name, Some(&xns())) }
pub open spec fn xsd_filter<'a>() -> ChildrenFilter<'a> { ChildrenFilter { element_name: None, element_namespace: Some(&xns()), attribute_name: None, attribute_value: None } }
/// the child elements in the XML Schema namespace, in document order
pub open spec fn xk<'a, 'i>(n: RN<'a, 'i>) -> Seq<RN<'a, 'i>> { passing(n.children_s(), xsd_filter()) }
"""
# only for this unit: how the real fields give the abstract state
REAL = r"""
pub proof fn lemma_pos<'a, 'i>(s: Seq<Node<'a, 'i>>, g: spec_fn(&&Node<'a, 'i>) -> bool, name: XStr, ns: Option<&XStr>)
    requires forall|x: &&Node<'a, 'i>| #[trigger] g(x) == (x.inner.is_element_s() && qmatch(x.inner, name, ns)), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).inner.is_element_s()
    ensures ({ let k = xfirst(refs(s), g); let i = first_q(inners(s), name, ns); if k < 0 { i == s.len() } else { i == k && k < s.len() } })
{
    broadcast use {lemma_xfirst, lemma_first_q};
    let (t, q) = (refs(s), inners(s)); let (k, i) = (xfirst(t, g), first_q(q, name, ns));
    if k >= 0 { assert(g(&t[k])); assert(qmatch(q[k], name, ns)); if i < k { assert(s[i].inner.is_element_s()); assert(g(&t[i])); } }
    else if i < s.len() { assert(s[i].inner.is_element_s()); assert(g(&t[i])); }
}
pub open spec fn no_attr(n: RN) -> ISet<XStr> { ISet::new(|k: XStr| n.attribute_s(&k) is None) }
impl<'a, 'input> Node<'a, 'input> {
    pub open spec fn wf(self) -> bool {
        self.name == self.inner.tag_name_s().n
        && (forall|k: XStr| #[trigger] self.attributes@.dom().contains(&k) <==> self.inner.attribute_s(&k) is Some)
        && (forall|k: XStr| #[trigger] self.attributes@.dom().contains(&k) ==> self.attributes@[&k].inner.namespace_s() is None && *self.attributes@[&k].inner.name_s() == k && Some(self.attributes@[&k].inner.value_s()) == self.inner.attribute_s(&k))
    }
    /// the names of attributes that were read, or are not there
    pub open spec fn visited(self) -> ISet<XStr> { ISet::new(|k: XStr| !self.attributes@.dom().contains(&k) || self.attributes@[&k].visited) }
    pub open spec fn fresh(self, n: RN<'a, 'input>) -> bool { self.wf() && self.inner == n && self.visited() =~= no_attr(n) }
    // Deref<Target = roxmltree::Node>
    pub fn is_element(&self) -> (r: bool) ensures r == self.inner.is_element_s() { self.inner.is_element() }
    pub open spec fn is_element_s(&self) -> bool { self.inner.is_element_s() }
    pub fn tag_name(&self) -> (r: roxmltree::ExpandedName<'a, 'input>) ensures r == self.inner.tag_name_s() { self.inner.tag_name() }
    pub open spec fn tag_name_s(&self) -> roxmltree::ExpandedName<'a, 'input> { self.inner.tag_name_s() }
}
impl<'a, 'input> Attribute<'a, 'input> { pub open spec fn wf(self) -> bool { true } pub open spec fn value_s(self) -> XStr { *self.inner.value_s() } pub open spec fn range_s(self) -> Range<usize> { self.inner.range_s() } }
impl XCellMut for bool { fn x_replace(&mut self, b: bool) -> (r: bool) { let o = *self; *self = b; o } }
pub trait XCellMut: Sized { fn x_replace(&mut self, b: Self) -> (r: Self) ensures *final(self) == b, r == *old(self); }
"""
FRESH1 = "r->0.fresh({0})"
MISS = "r is Err ==> r->Err_0 is MissingElement && r->Err_0->MissingElement_name == *name,"
# contracts shared with the parser unit
C = {
 "Node::name": "ensures *r == *self.inner.tag_name_s().n,",
 "Node::namespace": "ensures ostr(self.inner.tag_name_s().ns) == r,",
 "Node::range": "ensures r == self.inner.range_s(),",
 "Node::child": "requires self.wf(), ensures ({ let s = child_elems(self.inner); let i = first_q(s, *name, namespace); (r is Some <==> i < s.len()) && (r is Some ==> r->0.fresh(s[i])) }),",
 "Node::try_child": "requires self.wf(), ensures ({ let s = child_elems(self.inner); let i = first_q(s, *name, namespace); (r is Ok <==> i < s.len()) && (r is Ok ==> r->Ok_0.fresh(s[i])) }), " + MISS,
 "Node::children": "ensures r.node == self, r.filter == (ChildrenFilter { element_name: None, element_namespace: None, attribute_name: None, attribute_value: None }),",
 "Node::attribute": "requires old(self).wf(), ensures final(self).wf(), final(self).inner == old(self).inner, final(self).visited() =~= old(self).visited().insert(*name), (r is Some) == (old(self).inner.attribute_s(name) is Some), r is Some ==> r->0.value_s() == *(old(self).inner.attribute_s(name)->0),",
 "Node::try_attribute": "requires old(self).wf(), ensures final(self).wf(), final(self).inner == old(self).inner, final(self).visited() =~= old(self).visited().insert(*name), (r is Ok) == (old(self).inner.attribute_s(name) is Some), r is Ok ==> r->Ok_0.value_s() == *(old(self).inner.attribute_s(name)->0), r is Err ==> r->Err_0 is MissingAttribute && r->Err_0->MissingAttribute_name == *name,",
 "Node::prevent_unvisited_attributes": """requires self.wf(), ensures (r is Ok) == (forall|k: XStr| #![trigger self.visited().contains(k)] #![trigger self.inner.attribute_s(&k)] self.visited().contains(k)),
    r is Err ==> r->Err_0 is UnsupportedAttribute && !self.visited().contains(r->Err_0->UnsupportedAttribute_name) && r->Err_0->UnsupportedAttribute_element == *self.inner.tag_name_s().n,""",
 "Node::text": "",
 "Node::try_text": "",
 "Attribute::value": "ensures r == self.value_s(),",
 "Attribute::namespace": "ensures r == self.inner.namespace_s(),",
 "Attribute::range": "ensures r == self.range_s(),",
 "ChildrenFilterBuilder::element": "ensures r.node == self.node, r.filter == (ChildrenFilter { element_name: Some(name), ..self.filter }),",
 "ChildrenFilterBuilder::namespace": "ensures r.node == self.node, r.filter == (ChildrenFilter { element_namespace: Some(namespace), ..self.filter }),",
 "ChildrenFilterBuilder::attribute": "ensures r.node == self.node, r.filter == (ChildrenFilter { attribute_name: Some(name), attribute_value: Some(value), ..self.filter }),",
 "ChildrenFilterBuilder::iter": "ensures all_fresh(r@, passing(self.node.inner.children_s(), self.filter)), self.filter == xsd_filter() ==> all_fresh(r@, xk(self.node.inner)),",
 "ChildrenFilterBuilder::collect": "ensures r.node.inner == self.node.inner, allf(r.children@), inners(r.children@) =~= passing(self.node.inner.children_s(), self.filter), self.filter == xsd_filter() ==> inners(r.children@) == xk(self.node.inner),",
 "Children::remove": """requires allf(old(self).children@),
    ensures ({ let s = inners(old(self).children@); let i = first_q(s, *name, namespace); final(self).node.inner == old(self).node.inner && allf(final(self).children@) && inners(final(self).children@) =~= rmq(s, *name, namespace) && (r is Some <==> i < s.len()) && (r is Some ==> r->0.fresh(s[i])) }), ({ let s = inners(old(self).children@); ostr(namespace) == Some(xns()) ==> inners(final(self).children@) == rm(s, *name) && fq(s, *name) == first_q(s, *name, namespace) }),""",
 "Children::try_remove": """requires allf(old(self).children@),
    ensures ({ let s = inners(old(self).children@); let i = first_q(s, *name, namespace); final(self).node.inner == old(self).node.inner && allf(final(self).children@) && inners(final(self).children@) =~= rmq(s, *name, namespace) && (r is Ok <==> i < s.len()) && (r is Ok ==> r->Ok_0.fresh(s[i])) }), ({ let s = inners(old(self).children@); ostr(namespace) == Some(xns()) ==> inners(final(self).children@) == rm(s, *name) && fq(s, *name) == first_q(s, *name, namespace) }), """ + MISS,
 "Children::prevent_unvisited_children": "ensures (r is Ok) == (self.children@.len() == 0), r is Err ==> r->Err_0 is UnsupportedElement && r->Err_0->UnsupportedElement_name == *self.children@[0].inner.tag_name_s().n,",
 "NodeError::range": "ensures r is Some,",
}
FR = dict(ret="Node<'a, 'input>", ens="__r.fresh($)", ty="roxmltree::Node<'a, 'input>")
FINDCL = {"*": dict(ty="&roxmltree::Node<'a, 'input>")}
ITEMS = {k: dict(c=v) for k, v in C.items() if k != "Node::try_attribute"}
BORROW = "#[verifier::external_body]"
ITEMS["Node::child"].update(entry="broadcast use lemma_xfirst; proof { assert forall|g: spec_fn(&RN<'a, 'input>) -> bool| #![trigger xfirst(self.inner.children_s(), g)] (forall|x: &RN<'a, 'input>| #[trigger] g(x) == (x.is_element_s() && qmatch(*x, *name, namespace))) implies ({ let s = self.inner.children_s(); let f = child_elems(self.inner); let k = xfirst(s, g); let i = first_q(f, *name, namespace); if k < 0 { i == f.len() } else { i < f.len() && f[i] == s[k] } }) by { lemma_find(self.inner.children_s(), g, *name, namespace); } }", cl={"find": FINDCL["*"], "map": FR})
ITEMS["ChildrenFilterBuilder::iter"].update(entry="broadcast use lemma_passing; let ghost __p = passing(self.node.inner.children_s(), self.filter);", cl={"filter": FINDCL["*"], "map": FR})
ITEMS["ChildrenFilterBuilder::collect"].update(entry="proof { let p = passing(self.node.inner.children_s(), self.filter); let g = |c: &RN<'a, 'input>| fpass(*c, self.filter); lemma_xfilter(self.node.inner.children_s(), g); assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).is_element_s() by { assert(g(&p[i])); } }")
ITEMS["Children::remove"].update(entry="proof { let s = self.children@; assert forall|g: spec_fn(&&Node<'a, 'input>) -> bool| #![trigger xfirst(refs(s), g)] (forall|x: &&Node<'a, 'input>| #[trigger] g(x) == (x.inner.is_element_s() && qmatch(x.inner, *name, namespace))) implies ({ let k = xfirst(refs(s), g); let i = first_q(inners(s), *name, namespace); if k < 0 { i == s.len() } else { i == k && k < s.len() } }) by { lemma_pos(s, g, *name, namespace); } }", cl={"*": dict(ty="&Node<'a, 'input>")})
ITEMS["Node::attribute"].update(sub=[("x_get (name)", "x_get_mut (name)"), ("let attr = & __v", "let attr = &mut __v"), ("Some (__v1) =>", "Some (mut __v1) =>")])
ITEMS["Node::prevent_unvisited_attributes"].update(loops={0: """invariant __it0@.len() <= __s0.len(), __it0@ =~= __s0.skip(__s0.len() - __it0@.len()), __s0.len() == map_seq(self.attributes).len(), forall|i: int| 0 <= i < __s0.len() ==> (#[trigger] __s0[i]).0 == &map_seq(self.attributes)[i] && *__s0[i].1 == self.attributes@[map_seq(self.attributes)[i]],
   forall|i: int| 0 <= i < __s0.len() - __it0@.len() ==> self.attributes@[#[trigger] map_seq(self.attributes)[i]].visited,"""},
   lbody={0: "proof { let i = __s0.len() - __it0@.len() - 1; assert(__s0[i].0 == name); assert(map_seq(self.attributes).contains(map_seq(self.attributes)[i])); assert(self.attributes@.dom().contains(*name)); let k = **name; assert(self.attributes@.dom().contains(&k)); assert(!attr.visited ==> !self.visited().contains(k)); }"})
ITEMS["<Node as From>::from"] = dict(c="ensures r.fresh(node),", entry="broadcast use {lemma_xfilter, lemma_map_of};", cl={"filter": dict(ty="&roxmltree::Attribute<'a, 'input>"), "map": dict(ty="roxmltree::Attribute<'a, 'input>", ret="(&'a XStr, Attribute<'a, 'input>)")})
UNIT = Unit("node", [("xsd-internal/src/xsd/node.rs", dict(rename={}, mutself=["Node::attribute", "Node::try_attribute"]))], pre=PRE, post=REAL, items=ITEMS, prelude=("core", "maps", "roxml"), inherent=["<Node as From>"],
  skip=["Node::try_attribute", "<Node as Deref>", "<Node as Deref>::deref", "Node::try_namespace_prefix", "Node::try_namespace_uri", "Node::default_namespace", "ChildrenFilterBuilder::try_find"])
