// ---- model of roxmltree (assumed contracts): an immutable tree ------------------------------------------------------
pub mod roxmltree {
    use super::*;
    #[verifier::external_body] pub struct Error { e: u8 }
    #[verifier::external_body] pub struct Document<'a> { t: &'a u8 }
    #[verifier::external_body] pub struct Node<'a, 'b> { t: &'a u8, u: &'b u8 }
    pub struct ExpandedName<'a, 'b> { pub ns: Option<&'a XStr>, pub n: &'b XStr }
    impl<'a, 'b> ExpandedName<'a, 'b> {
        pub fn name(&self) -> (r: &'b XStr) ensures r == self.n { self.n }
        pub open spec fn name_s(&self) -> &'b XStr { self.n }
        pub fn namespace(&self) -> (r: Option<&'a XStr>) ensures r == self.ns { self.ns }
        pub open spec fn namespace_s(&self) -> Option<&'a XStr> { self.ns }
    }
    impl<'a, 'b> XInto<ExpandedName<'a, 'b>> for &'b XStr { open spec fn into_s(self) -> ExpandedName<'a, 'b> { ExpandedName { ns: None, n: self } } fn x_into(self) -> (r: ExpandedName<'a, 'b>) { ExpandedName { ns: None, n: self } } }
    impl<'a, 'b> Clone for Node<'a, 'b> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl<'a, 'b> Copy for Node<'a, 'b> {}
    pub struct Namespace<'a> { pub p: Option<&'a XStr>, pub u: &'a XStr }
    impl<'a> Namespace<'a> {
        pub fn name(&self) -> (r: Option<&'a XStr>) ensures r == self.p { self.p }
        pub fn uri(&self) -> (r: &'a XStr) ensures r == self.u { self.u }
    }
    /// the namespaces in scope: one per prefix
    pub broadcast axiom fn axiom_ns_unique(n: Node, i: int, j: int) requires 0 <= i < j < n.namespaces_s().len() ensures (#[trigger] n.namespaces_s()[i]).p != (#[trigger] n.namespaces_s()[j]).p;
    /// the root element of the document a text is, if it is one
    pub uninterp spec fn droot<'a, 'b>(s: XStr) -> Option<Node<'a, 'b>>;
    pub struct TextPos { pub row: u32, pub col: u32 }
    impl Error { #[verifier::external_body] pub fn pos(&self) -> (r: TextPos) { unimplemented!() } }
    impl<'a> Document<'a> {
        pub uninterp spec fn root_s(&self) -> Node<'a, 'a>;
        #[verifier::external_body] pub fn parse(s: &'a XStr) -> (r: Result<Document<'a>, Error>) ensures r is Ok == droot(*s) is Some, r is Ok ==> r->Ok_0.root_s() == droot(*s)->0 { unimplemented!() }
        #[verifier::external_body] pub fn text_pos_at(&self, p: usize) -> (r: TextPos) { unimplemented!() }
        #[verifier::external_body] pub fn root_element<'c>(&'c self) -> (r: Node<'c, 'c>) ensures r == self.root_s(), r.is_element_s() { unimplemented!() }
    }
    #[verifier::external_body] pub struct Attribute<'a, 'b> { t: &'a u8, u: &'b u8 }
    impl<'a, 'b> Clone for Attribute<'a, 'b> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl<'a, 'b> Copy for Attribute<'a, 'b> {}
    impl<'a, 'b> Attribute<'a, 'b> {
        pub uninterp spec fn name_s(&self) -> &'a XStr;
        pub uninterp spec fn value_s(&self) -> &'a XStr;
        pub uninterp spec fn namespace_s(&self) -> Option<&'a XStr>;
        pub uninterp spec fn range_s(&self) -> Range<usize>;
        #[verifier::external_body] pub fn name(&self) -> (r: &'a XStr) ensures r == self.name_s() { unimplemented!() }
        #[verifier::external_body] pub fn value(&self) -> (r: &'a XStr) ensures r == self.value_s() { unimplemented!() }
        #[verifier::external_body] pub fn namespace(&self) -> (r: Option<&'a XStr>) ensures r == self.namespace_s() { unimplemented!() }
        #[verifier::external_body] pub fn range(&self) -> (r: Range<usize>) ensures r == self.range_s() { unimplemented!() }
    }
    /// an element has at most one attribute with a given expanded name; attribute() looks up the unqualified one
    pub broadcast axiom fn axiom_attr<'a, 'b>(n: Node<'a, 'b>, i: int) requires 0 <= i < n.attributes_s().len(), n.attributes_s()[i].namespace_s() is None
        ensures n.attribute_s((#[trigger] n.attributes_s()[i]).name_s()) == Some(n.attributes_s()[i].value_s());
    pub broadcast axiom fn axiom_attr_some<'a, 'b>(n: Node<'a, 'b>, k: XStr) requires (#[trigger] n.attribute_s(&k)) is Some
        ensures exists|i: int| 0 <= i < n.attributes_s().len() && (#[trigger] n.attributes_s()[i]).namespace_s() is None && *n.attributes_s()[i].name_s() == k;
    /// a child is smaller than its parent
    pub broadcast axiom fn axiom_height<'a, 'b>(n: Node<'a, 'b>, i: int) requires 0 <= i < n.children_s().len() ensures (#[trigger] n.children_s()[i]).height_s() < n.height_s(), n.children_s()[i].height_s() >= 0;
    impl<'a, 'b> Node<'a, 'b> {
        pub uninterp spec fn height_s(&self) -> int;
        pub uninterp spec fn attributes_s(&self) -> Seq<Attribute<'a, 'b>>;
        pub uninterp spec fn prefix_s(&self, uri: XStr) -> Option<&'a XStr>;
        pub uninterp spec fn uri_s(&self, p: Option<XStr>) -> Option<&'a XStr>;
        pub uninterp spec fn first_child_s(&self) -> Option<Node<'a, 'b>>;
        #[verifier::external_body] pub fn first_child(&self) -> (r: Option<Node<'a, 'b>>) ensures r == self.first_child_s() { unimplemented!() }
        #[verifier::external_body] pub fn attributes(&self) -> (r: XIter<Attribute<'a, 'b>>) ensures r@ == self.attributes_s() { unimplemented!() }
        #[verifier::external_body] pub fn lookup_prefix(&self, uri: &XStr) -> (r: Option<&'a XStr>) ensures r == self.prefix_s(*uri) { unimplemented!() }
        #[verifier::external_body] pub fn lookup_namespace_uri(&self, p: Option<&XStr>) -> (r: Option<&'a XStr>) ensures r == self.uri_s(match p { Some(p) => Some(*p), None => None }) { unimplemented!() }
        #[verifier::external_body] pub fn default_namespace(&self) -> (r: Option<&'a XStr>) ensures r == self.uri_s(None) { unimplemented!() }
        #[verifier::external_body] pub fn namespaces(&self) -> (r: XIter<Namespace<'a>>) ensures r@ == self.namespaces_s() { unimplemented!() }
        pub uninterp spec fn namespaces_s(&self) -> Seq<Namespace<'a>>;
        pub uninterp spec fn children_s(&self) -> Seq<Node<'a, 'b>>;
        pub uninterp spec fn is_element_s(&self) -> bool;
        pub uninterp spec fn is_text_s(&self) -> bool;
        pub uninterp spec fn tag_name_s(&self) -> ExpandedName<'a, 'b>;
        pub uninterp spec fn attribute_s(&self, name: &XStr) -> Option<&'a XStr>;
        pub uninterp spec fn text_s(&self) -> Option<&'a XStr>;
        pub uninterp spec fn range_s(&self) -> Range<usize>;
        #[verifier::external_body] pub fn children(&self) -> (r: XIter<Node<'a, 'b>>) ensures r@ == self.children_s() { unimplemented!() }
        #[verifier::external_body] pub fn is_element(&self) -> (r: bool) ensures r == self.is_element_s() { unimplemented!() }
        #[verifier::external_body] pub fn is_text(&self) -> (r: bool) ensures r == self.is_text_s() { unimplemented!() }
        #[verifier::external_body] pub fn tag_name(&self) -> (r: ExpandedName<'a, 'b>) ensures r == self.tag_name_s() { unimplemented!() }
        #[verifier::external_body] pub fn attribute(&self, name: &XStr) -> (r: Option<&'a XStr>) ensures r == self.attribute_s(name) { unimplemented!() }
        #[verifier::external_body] pub fn text(&self) -> (r: Option<&'a XStr>) ensures r == self.text_s() { unimplemented!() }
        #[verifier::external_body] pub fn range(&self) -> (r: Range<usize>) ensures r == self.range_s() { unimplemented!() }
    }
}
broadcast use {roxmltree::axiom_attr, roxmltree::axiom_attr_some, roxmltree::axiom_height, roxmltree::axiom_ns_unique};
