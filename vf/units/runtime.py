"""xsd/src/lib.rs: the writing side of the runtime."""
from ..vx import Unit
PRE = r"""
use xml::name::Name; use xml::attribute::Attribute; use xml::namespace::Namespace; use xml::writer::events::XmlEvent; use xml::writer::{Ev, stat, ev, attrs_a};
"""
POST = r"""
// ---- C06 over histories: any sequence of calls that each keep their contract ----
pub enum Op { Attr(Name<'static>, XStr), Ns(XStr, XStr), Write }
pub struct St { pub attrs: Seq<(Name<'static>, XStr)>, pub ns: Map<XStr, XStr>, pub out: Seq<Ev> }
/// the effect the contracts of set_attr, set_ns / set_default_ns and write_start_element give a call
pub open spec fn op_s(n: Name<'static>, s: St, o: Op) -> St { match o {
    Op::Attr(k, v) => St { attrs: s.attrs.push((k, v)), ..s }, Op::Ns(p, u) => St { ns: put_s(s.ns, p, u), ..s },
    Op::Write => St { attrs: Seq::empty(), ns: Map::empty(), out: s.out.push(Ev::Start { name: n, attributes: s.attrs, namespace: s.ns }) } } }
pub open spec fn run_s(n: Name<'static>, ops: Seq<Op>, k: int) -> St decreases k { if k <= 0 { St { attrs: Seq::empty(), ns: Map::empty(), out: Seq::empty() } } else { op_s(n, run_s(n, ops, k - 1), ops[k - 1]) } }
/// the attributes set among ops[from..to], in order
pub open spec fn set_since(ops: Seq<Op>, from: int, to: int) -> Seq<(Name<'static>, XStr)> decreases to - from { if to <= from { Seq::empty() } else { match ops[to - 1] { Op::Attr(k, v) => set_since(ops, from, to - 1).push((k, v)), _ => set_since(ops, from, to - 1) } } }
/// the namespaces declared among ops[from..to]: the first declaration of a prefix counts
pub open spec fn ns_since(ops: Seq<Op>, from: int, to: int) -> Map<XStr, XStr> decreases to - from { if to <= from { Map::empty() } else { match ops[to - 1] { Op::Ns(p, u) => put_s(ns_since(ops, from, to - 1), p, u), _ => ns_since(ops, from, to - 1) } } }
pub proof fn lemma_since(n: Name<'static>, ops: Seq<Op>, from: int, to: int)
    requires 0 <= from <= to <= ops.len(), from == 0 || ops[from - 1] is Write, forall|i: int| from <= i < to ==> !(#[trigger] ops[i] is Write)
    ensures run_s(n, ops, to).attrs == set_since(ops, from, to), run_s(n, ops, to).ns == ns_since(ops, from, to) decreases to - from
{ if to > from { assert(!(ops[to - 1] is Write)); lemma_since(n, ops, from, to - 1); } }
/// a written start tag has exactly what was set since the context was created or last written
pub proof fn lemma_history(n: Name<'static>, ops: Seq<Op>, from: int, to: int)
    requires 0 <= from <= to < ops.len(), from == 0 || ops[from - 1] is Write, forall|i: int| from <= i < to ==> !(#[trigger] ops[i] is Write), ops[to] is Write
    ensures run_s(n, ops, to + 1).out.last() == (Ev::Start { name: n, attributes: set_since(ops, from, to), namespace: ns_since(ops, from, to) })
{ lemma_since(n, ops, from, to); }
pub open spec fn attrs_s(s: Seq<(Name, XStr)>) -> Seq<(Name<'static>, XStr)> { Seq::new(s.len(), |i: int| (stat(s[i].0), s[i].1)) }
/// the start tag that the state of a context describes was added
impl<'a, 'b> Context<'a, 'b> {
    pub open spec fn inner(self) -> ContextInner<'a> { match self { Context::Virtual(i) => *i, Context::Context(i) => i } }
}
pub open spec fn start_s(i: ContextInner) -> Ev { Ev::Start { name: stat(i.name), attributes: attrs_s(i.attributes@), namespace: i.namespace@ } }
pub broadcast proof fn lemma_attrs(a: Seq<Attribute>, s: Seq<(Name, XStr)>)
    requires a.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] a[i]).name == s[i].0 && *a[i].value == s[i].1
    ensures #![trigger attrs_a(a), attrs_s(s)] attrs_a(a) == attrs_s(s) { assert(attrs_a(a) =~= attrs_s(s)); }
pub open spec fn same_kind(a: Context, b: Context) -> bool { (a is Virtual) == (b is Virtual) }
pub open spec fn put_s(m: Map<XStr, XStr>, p: XStr, u: XStr) -> Map<XStr, XStr> { if m.dom().contains(p) { m } else { m.insert(p, u) } }
"""
FR = "same_kind(*final(self), *old(self)), final(self).inner().name == old(self).inner().name,"
ITEMS = {
 "Context::new": dict(c="ensures r is Context, r.inner().name == name.into_s(), r.inner().attributes@.len() == 0, r.inner().namespace@ == Map::<XStr, XStr>::empty(),"),
 "Context::wrap": dict(c="ensures r is Virtual, r.inner() == old(ctx).inner(), same_kind(*final(ctx), *old(ctx)), final(ctx).inner() == *final(r->Virtual_0),"),
 "Context::set_attr": dict(c="ensures " + FR + " final(self).inner().attributes@ == old(self).inner().attributes@.push((name.into_s(), value.into_s())), final(self).inner().namespace == old(self).inner().namespace,"),
 "Context::set_ns": dict(c="ensures " + FR + " final(self).inner().attributes == old(self).inner().attributes, final(self).inner().namespace@ == put_s(old(self).inner().namespace@, prefix.into_s(), uri.into_s()),"),
 "Context::set_default_ns": dict(c="ensures " + FR + ' final(self).inner().attributes == old(self).inner().attributes, final(self).inner().namespace@ == put_s(old(self).inner().namespace@, xlit_s(""), uri.into_s()),'),
 "Context::write_start_element": dict(c="""ensures """ + FR + """
   *old(self) is Virtual ==> r is Ok && final(writer)@ == old(writer)@ && *final(self) == *old(self),
   *old(self) is Context && r is Ok ==> final(writer)@ == old(writer)@.push(start_s(old(self).inner())) && final(self).inner().attributes@.len() == 0 && final(self).inner().namespace@ == Map::<XStr, XStr>::empty(),""",
   entry="broadcast use lemma_attrs;", cl={"*": dict(ty="&(Name<'a>, XStr)", ret="Attribute<'_>")}),
 "Context::write_end_element": dict(c="""ensures *final(self) == *old(self),
   *old(self) is Virtual ==> r is Ok && final(writer)@ == old(writer)@,
   *old(self) is Context && r is Ok ==> final(writer)@ == old(writer)@.push(Ev::End),"""),
}
UNIT = Unit("runtime", [("xsd/src/lib.rs", dict())], pre=PRE, post=POST, items=ITEMS, prelude=("core", "xmlw"), cfg=dict(consts={"NS_NO_PREFIX": ""}))
