"""xsd-internal/src/ast/namespaces.rs: namespace identities and prefixes."""
from ..vx import Unit
PRE = r"""
pub open spec fn prefix_s(id: usize) -> Seq<char> { xlit_s("ns")@ + dec(id as nat) }
impl Namespaces {
    /// identities and prefixes correspond one to one to the URIs seen so far
    pub open spec fn wf(self) -> bool {
        &&& self.by_namespace@.dom().finite()
        &&& forall|u: XStr| #[trigger] self.by_namespace@.dom().contains(u) ==> self.by_id@.dom().contains(self.by_namespace@[u]) && self.by_id@[self.by_namespace@[u]].namespace == u
        &&& forall|i: usize| #[trigger] self.by_id@.dom().contains(i) ==> 1 <= i <= self.by_namespace@.dom().len() && self.by_namespace@.dom().contains(self.by_id@[i].namespace) && self.by_namespace@[self.by_id@[i].namespace] == i
                && self.by_id@[i].prefix@ == prefix_s(i)
    }
}
/// a parse starts with no namespaces
pub proof fn lemma_start() ensures Namespaces::default_s().wf() {}
/// C10 as the user sees it: different URIs never share an identity or a prefix, and the identity leads back to the URI
pub proof fn lemma_one_to_one(n: Namespaces, u: XStr, v: XStr)
    requires n.wf(), n.by_namespace@.dom().contains(u), n.by_namespace@.dom().contains(v), u != v
    ensures n.by_namespace@[u] != n.by_namespace@[v], n.by_id@[n.by_namespace@[u]].prefix != n.by_id@[n.by_namespace@[v]].prefix, n.by_id@[n.by_namespace@[u]].namespace == u
{
    let (i, j) = (n.by_namespace@[u], n.by_namespace@[v]);
    assert(i != j);
    if prefix_s(i) == prefix_s(j) {
        let p = xlit_s("ns")@;
        assert((p + dec(i as nat)).skip(p.len() as int) =~= dec(i as nat)); assert((p + dec(j as nat)).skip(p.len() as int) =~= dec(j as nat));
        lemma_dec_inj(i as nat, j as nat);
    }
}
"""
ITEMS = {
 "ns::Namespaces::get_or_insert": dict(c="""requires old(self).wf(),
  ensures final(self).wf(), r is Id, final(self).by_namespace@.dom().contains(*namespace), r == Namespace::Id(final(self).by_namespace@[*namespace]),
    old(self).by_namespace@.dom().contains(*namespace) ==> *final(self) == *old(self),
    forall|u: XStr| #[trigger] old(self).by_namespace@.dom().contains(u) ==> final(self).by_namespace@.dom().contains(u) && final(self).by_namespace@[u] == old(self).by_namespace@[u],
    forall|i: usize| #[trigger] old(self).by_id@.dom().contains(i) ==> final(self).by_id@.dom().contains(i) && final(self).by_id@[i] == old(self).by_id@[i],
    forall|u: XStr| #[trigger] final(self).by_namespace@.dom().contains(u) ==> u == *namespace || old(self).by_namespace@.dom().contains(u),"""),
 "ns::Namespaces::get": dict(c="requires self.by_namespace@.dom().contains(*namespace), ensures r == Namespace::Id(self.by_namespace@[*namespace]),"),
 "ns::Namespaces::get_by_id": dict(c="requires self.by_id@.dom().contains(id), ensures *r == self.by_id@[id],"),
 "ns::Namespaces::iter": dict(c="""ensures forall|k: int| 0 <= k < r@.len() ==> self.by_id@.dom().contains((#[trigger] r@[k]).0) && *r@[k].1 == self.by_id@[r@[k].0],
    forall|k: int, l: int| 0 <= k < l < r@.len() ==> (#[trigger] r@[k]).0 != (#[trigger] r@[l]).0, r@.len() == self.by_id@.dom().len(),""", cl={"*": dict(ty="(&usize, &NamespaceDefinition)", ret="(usize, &NamespaceDefinition)")}),
}
UNIT = Unit("namespaces", [("xsd-internal/src/ast/name.rs", dict()), ("xsd-internal/src/ast/namespaces.rs", dict(module="ns"))], pre="", post=PRE, items=ITEMS, prelude=("core", "maps", "disp"),
  skip=["Name::to_impl", "Name::to_xml_impl", "Name::from_xml_impl", "Name::from_str_impl", "Name::new"])
