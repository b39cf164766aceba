"""xsd/src/decode.rs: the reading side of the runtime."""
from ..vx import Unit
PRE = r"""
pub type RNode<'a> = roxmltree::Node<'a, 'a>;
/// namespace of a tag as the runtime compares it: xmlns="" is no namespace
pub open spec fn norm_ns<'a>(ns: Option<&'a XStr>) -> Option<&'a XStr> { match ns { Some(s) => if *s == xlit_s("") { None } else { Some(s) }, None => None } }
pub open spec fn tmatch(n: RNode, name: XStr, ns: Option<&XStr>) -> bool { *n.tag_name_s().n == name && (match (norm_ns(n.tag_name_s().ns), ns) { (None, None) => true, (Some(a), Some(b)) => *a == *b, _ => false }) }
pub open spec fn elems<'a>(s: Seq<RNode<'a>>) -> Seq<RNode<'a>> { xfilter(s, |c: &RNode<'a>| c.is_element_s()) }
pub open spec fn opt_seq<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => Seq::empty() } }
impl<'a> Children<'a> { pub open spec fn rest(self) -> Seq<RNode<'a>> { opt_seq(self.next) + self.peeked@ + self.children@ } }
impl<'a> Node<'a> {
    /// the child elements not yet handed out, in document order
    pub open spec fn rest(self) -> Seq<RNode<'a>> { self.children.rest() }
    /// a node as handed out: nothing read from it yet
    pub open spec fn fresh(self, n: RNode<'a>) -> bool { self.node == n && self.rest() == elems(n.children_s()) }
}
/// index of the first match, or the length
#[verifier::opaque]
pub open spec fn first_match(s: Seq<RNode>, name: XStr, ns: Option<&XStr>) -> int decreases s.len() { if s.len() == 0 { 0 } else if tmatch(s[0], name, ns) { 0 } else { 1 + first_match(s.skip(1), name, ns) } }
pub broadcast proof fn lemma_first(s: Seq<RNode>, name: XStr, ns: Option<&XStr>)
    ensures ({ let i = #[trigger] first_match(s, name, ns); 0 <= i <= s.len() && (i < s.len() ==> tmatch(s[i], name, ns)) && forall|j: int| 0 <= j < i ==> !(#[trigger] tmatch(s[j], name, ns)) }) decreases s.len()
{ reveal_with_fuel(first_match, 2); if s.len() > 0 && !tmatch(s[0], name, ns) { let t = s.skip(1); lemma_first(t, name, ns); let k = first_match(t, name, ns); assert(k < t.len() ==> t[k] == s[k + 1]); assert forall|j: int| 0 <= j < k + 1 implies !(#[trigger] tmatch(s[j], name, ns)) by { if j > 0 { assert(t[j - 1] == s[j]); } } } }
pub proof fn lemma_filter_eq<T>(s: Seq<T>, g: spec_fn(&T) -> bool, h: spec_fn(&T) -> bool)
    requires forall|x: &T| #[trigger] g(x) == h(x) ensures xfilter(s, g) == xfilter(s, h) decreases s.len()
{ if s.len() > 0 { lemma_filter_eq(s.drop_last(), g, h); } }
pub broadcast proof fn lemma_elems<'a>(s: Seq<RNode<'a>>, g: spec_fn(&RNode<'a>) -> bool)
    requires forall|x: &RNode<'a>| #[trigger] g(x) == x.is_element_s() ensures #[trigger] xfilter(s, g) == elems(s)
{ let h = |c: &RNode<'a>| c.is_element_s(); assert forall|x: &RNode<'a>| #[trigger] g(x) == h(x) by {} lemma_filter_eq(s, g, h); }
/// the text of an element: the character data before its first child element
pub open spec fn et_seq<'a>(n: RNode<'a>) -> Seq<RNode<'a>> { xfilter(n.children_s(), |c: &RNode<'a>| c.is_element_s() || c.is_text_s()) }
pub open spec fn text_of(s: Seq<RNode>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { (match s[0].text_s() { Some(t) => t@, None => Seq::empty() }) + text_of(s.skip(1)) } }
pub open spec fn text_prefix<'a>(s: Seq<RNode<'a>>) -> Seq<RNode<'a>> { xprefix(s, |c: &RNode<'a>| c.is_text_s()) }
pub broadcast proof fn lemma_et<'a>(s: Seq<RNode<'a>>, g: spec_fn(&RNode<'a>) -> bool)
    requires forall|x: &RNode<'a>| #[trigger] g(x) == (x.is_element_s() || x.is_text_s()) ensures #[trigger] xfilter(s, g) == xfilter(s, |c: &RNode<'a>| c.is_element_s() || c.is_text_s())
{ let h = |c: &RNode<'a>| c.is_element_s() || c.is_text_s(); assert forall|x: &RNode<'a>| #[trigger] g(x) == h(x) by {} lemma_filter_eq(s, g, h); }
pub proof fn lemma_prefix_eq<T>(s: Seq<T>, g: spec_fn(&T) -> bool, h: spec_fn(&T) -> bool)
    requires forall|x: &T| #[trigger] g(x) == h(x) ensures xprefix(s, g) == xprefix(s, h) decreases s.len()
{ if s.len() > 0 && g(&s[0]) { lemma_prefix_eq(s.skip(1), g, h); } }
pub broadcast proof fn lemma_tp<'a>(s: Seq<RNode<'a>>, g: spec_fn(&RNode<'a>) -> bool)
    requires forall|x: &RNode<'a>| #[trigger] g(x) == x.is_text_s() ensures #[trigger] xprefix(s, g) == text_prefix(s)
{ let h = |c: &RNode<'a>| c.is_text_s(); assert forall|x: &RNode<'a>| #[trigger] g(x) == h(x) by {} lemma_prefix_eq(s, g, h); }

pub open spec fn txt(n: RNode) -> Result<XStr, FromXmlError> { let s = et_seq(n); if s.len() > 0 && s[0].is_element_s() { Err(FromXmlError::TextExpected { name: *n.tag_name_s().n }) } else { Ok(xs(text_of(text_prefix(s)))) } }
// ---- C05 over histories: any sequence of calls that each keep their contract ----
pub struct Step<'a> { pub before: Seq<RNode<'a>>, pub after: Seq<RNode<'a>>, pub out: Option<RNode<'a>>, pub name: XStr, pub ns: Option<&'a XStr> }
impl<'a> Step<'a> {
    /// what the contracts of peek_child, next_child and child have in common
    pub open spec fn ok(self) -> bool {
        match self.out { None => self.after == self.before,
            Some(n) => exists|i: int| 0 <= i < self.before.len() && #[trigger] self.before[i] == n && tmatch(n, self.name, self.ns) && self.after == self.before.remove(i) }
    }
}
pub open spec fn history_ok(h: Seq<Step>, all: Seq<RNode>, i: int) -> bool { if i == 0 { h[i].before == all && h[i].ok() } else { h[i].before == h[i - 1].after && h[i].ok() } }
pub open spec fn handed(h: Seq<Step>, i: int) -> Multiset<RNode> decreases i { if i <= 0 { Multiset::empty() } else { match h[i - 1].out { Some(n) => handed(h, i - 1).insert(n), None => handed(h, i - 1) } } }
/// s is t with some elements left out, the order kept
pub open spec fn subseq<T>(s: Seq<T>, t: Seq<T>) -> bool decreases t.len() { if s.len() == 0 { true } else if t.len() == 0 { false } else if s.last() == t.last() && subseq(s.drop_last(), t.drop_last()) { true } else { subseq(s, t.drop_last()) } }
pub proof fn lemma_subseq_refl<T>(s: Seq<T>) ensures subseq(s, s) decreases s.len() { if s.len() > 0 { lemma_subseq_refl(s.drop_last()); } }
pub proof fn lemma_subseq_remove<T>(s: Seq<T>, t: Seq<T>, i: int) requires subseq(s, t), 0 <= i < s.len() ensures subseq(s.remove(i), t) decreases t.len()
{
    if s.last() == t.last() && subseq(s.drop_last(), t.drop_last()) {
        if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); lemma_subseq_weaken(s.drop_last(), t); }
        else { lemma_subseq_remove(s.drop_last(), t.drop_last(), i); assert(s.remove(i).drop_last() =~= s.drop_last().remove(i)); assert(s.remove(i).last() == s.last()); }
    } else { lemma_subseq_remove(s, t.drop_last(), i); lemma_subseq_weaken(s.remove(i), t); }
}
pub proof fn lemma_subseq_weaken<T>(s: Seq<T>, t: Seq<T>) requires t.len() > 0, subseq(s, t.drop_last()) ensures subseq(s, t) decreases t.len() {}
/// after any history: what was handed out and what is left make up exactly the children, and what is left is in document order
pub proof fn lemma_history(h: Seq<Step>, all: Seq<RNode>, n: int)
    requires 0 < n <= h.len(), forall|i: int| 0 <= i < h.len() ==> #[trigger] history_ok(h, all, i)
    ensures handed(h, n).add(h[n - 1].after.to_multiset()) == all.to_multiset(), subseq(h[n - 1].after, all) decreases n
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(history_ok(h, all, n - 1));
    if n == 1 { lemma_subseq_refl(all); } else { lemma_history(h, all, n - 1); }
    let st = h[n - 1];
    assert(handed(h, n - 1).add(st.before.to_multiset()) == all.to_multiset() && subseq(st.before, all)) by { if n == 1 { assert(handed(h, 0).add(all.to_multiset()) =~= all.to_multiset()); } }
    match st.out {
        None => {}
        Some(x) => {
            let i = choose|i: int| 0 <= i < st.before.len() && #[trigger] st.before[i] == x && tmatch(x, st.name, st.ns) && st.after == st.before.remove(i);
            lemma_subseq_remove(st.before, all, i);
            assert(st.before.to_multiset().remove(x) =~= st.after.to_multiset());
            assert(st.before.to_multiset().count(x) > 0) by { assert(st.before.contains(x)); }
            assert(handed(h, n).add(st.after.to_multiset()) =~= handed(h, n - 1).add(st.before.to_multiset()));
        }
    }
}
"""
NM = "name, namespace"
MISSING = "r is Err ==> r->Err_0 == (FromXmlError::MissingElement { name: *name, namespace: match namespace { Some(s) => Some(*s), None => None } })"
ITEMS = {
 "decode": dict(c="ensures r is Err ==> r->Err_0 is Xml, r is Ok == roxmltree::droot(*input) is Some, r is Ok ==> r->Ok_0.0.root_s() == roxmltree::droot(*input)->0,"),
 "tag_name": dict(c="ensures r.n == node.tag_name_s().n, r.ns == norm_ns(node.tag_name_s().ns),"),
 "Document::child": dict(c="ensures r is Some <==> tmatch(self.0.root_s(), *name, namespace), r is Some ==> r->0.fresh(self.0.root_s()),"),
 "Document::try_child": dict(c="ensures r is Ok <==> tmatch(self.0.root_s(), *name, namespace), r is Ok ==> r->Ok_0.fresh(self.0.root_s()), " + MISSING + ","),
 "Node::new": dict(c="ensures r.fresh(node),", entry="broadcast use lemma_elems;", cl={"*": dict(ty="&roxmltree::Node<'a, 'a>")}),
 "Node::peek_child": dict(c="ensures final(self).rest() == old(self).rest(), final(self).node == old(self).node, r == (old(self).rest().len() > 0 && tmatch(old(self).rest()[0], *name, namespace)),"),
 "Node::next_child": dict(ret="Option<Node<'a>>", c="""ensures final(self).node == old(self).node,
   r is Some <==> old(self).rest().len() > 0 && tmatch(old(self).rest()[0], *name, namespace),
   r is Some ==> r->0.fresh(old(self).rest()[0]) && final(self).rest() == old(self).rest().remove(0),
   r is None ==> final(self).rest() == old(self).rest(),"""),
 "Node::try_next_child": dict(ret="Result<Node<'a>, FromXmlError>", c="""ensures final(self).node == old(self).node,
   r is Ok <==> old(self).rest().len() > 0 && tmatch(old(self).rest()[0], *name, namespace),
   r is Ok ==> r->Ok_0.fresh(old(self).rest()[0]) && final(self).rest() == old(self).rest().remove(0),
   r is Err ==> final(self).rest() == old(self).rest(), """ + MISSING + ","),
 "Node::child": dict(ret="Option<Node<'a>>", c="""ensures final(self).node == old(self).node,
   r is Some <==> first_match(old(self).rest(), *name, namespace) < old(self).rest().len(),
   r is Some ==> r->0.fresh(old(self).rest()[first_match(old(self).rest(), *name, namespace)]) && final(self).rest() == old(self).rest().remove(first_match(old(self).rest(), *name, namespace)),
   r is None ==> final(self).rest() == old(self).rest(),""", entry="broadcast use lemma_first; proof { let s = self.rest(); assert(s.len() > 0 && tmatch(s[0], *name, namespace) ==> first_match(s, *name, namespace) == 0); assert(self.children.next is Some ==> s[0] == self.children.next->0 && s.remove(0) =~= self.children.peeked@ + self.children.children@); }",
   lbody={0: "proof { let i = __s0.len() - __it0@.len() - 1; let k = opt_seq(children.next).len() + i; assert(old(self).rest()[k] == children.peeked@[i]); assert(tmatch(old(self).rest()[k], *name, namespace) ==> first_match(old(self).rest(), *name, namespace) == k); assert(opt_seq(children.next) + children.peeked@.remove(i) + children.children@ =~= old(self).rest().remove(k)); }",
     1: "proof { let k = (opt_seq(children.next).len() + children.peeked@.len()) as int; assert(old(self).rest()[k] == child); assert(tmatch(old(self).rest()[k], *name, namespace) ==> first_match(old(self).rest(), *name, namespace) == k); assert(children.rest() =~= old(self).rest().remove(k)); }"},
   loops={0: """invariant children.rest() =~= old(self).rest(), __s0.len() == children.peeked@.len(), __it0@.len() <= __s0.len(), __it0@ =~= __s0.skip(__s0.len() - __it0@.len()), forall|i: int| 0 <= i < __s0.len() ==> (#[trigger] __s0[i]).0 == i && *__s0[i].1 == children.peeked@[i],
       forall|j: int| 0 <= j < opt_seq(children.next).len() + __s0.len() - __it0@.len() ==> !(#[trigger] tmatch(old(self).rest()[j], *name, namespace)),""",
     1: """invariant children.rest() =~= old(self).rest(), forall|j: int| 0 <= j < opt_seq(children.next).len() + children.peeked@.len() ==> !(#[trigger] tmatch(old(self).rest()[j], *name, namespace)), decreases children.children@.len(),"""}),
 "Node::try_child": dict(ret="Result<Node<'a>, FromXmlError>", c="""ensures final(self).node == old(self).node,
   r is Ok <==> first_match(old(self).rest(), *name, namespace) < old(self).rest().len(),
   r is Ok ==> r->Ok_0.fresh(old(self).rest()[first_match(old(self).rest(), *name, namespace)]) && final(self).rest() == old(self).rest().remove(first_match(old(self).rest(), *name, namespace)),
   r is Err ==> final(self).rest() == old(self).rest(), """ + MISSING + ","),
 "Node::attribute": dict(c="ensures r == self.node.attribute_s(name),"),
 "Node::try_attribute": dict(c="ensures self.node.attribute_s(name) is Some ==> r == Ok::<&'a XStr, FromXmlError>(self.node.attribute_s(name)->0), self.node.attribute_s(name) is None ==> r is Err && r->Err_0 == (FromXmlError::MissingAttribute { name: *name }),"),
 "Node::text": dict(c="""ensures ({ let s = et_seq(self.node); if s.len() > 0 && s[0].is_element_s() { r is Err && r->Err_0 == (FromXmlError::TextExpected { name: *self.node.tag_name_s().n }) } else { r is Ok && r->Ok_0@ == text_of(text_prefix(s)) } }), r == txt(self.node),""",
   entry="broadcast use lemma_et; broadcast use lemma_tp;", loops={0: "invariant text@ + text_of(__it0@) =~= text_of(__s0),"}, cl={"*": dict(ty="&roxmltree::Node<'a, 'a>")}),
 "Node::range": dict(c="ensures r == self.node.range_s(),"),
}
UNIT = Unit("decode", [("xsd/src/decode.rs", dict(rename={"std::convert::Infallible": "XInfallible"}, mutself=["Node::peek_child", "Node::next_child", "Node::try_next_child", "Node::child", "Node::try_child"]))], pre=PRE, items=ITEMS, prelude=("core", "roxml"), head="use vstd::multiset::Multiset;",
  props={"C05": None})
