// ---- model of the xml crate's writer (assumed contracts): the sequence of events written ------------------------------
pub mod xml {
    use super::*;
    pub mod name {
        use super::*;
        #[verifier::external_body] pub struct Name<'a> { n: &'a u8 }
        impl<'a> Clone for Name<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
        impl<'a> Copy for Name<'a> {}
        /// xml::name::Name::from splits at the colon; the serialised form is the string itself
        pub uninterp spec fn name_of(s: XStr) -> Name<'static>;
        pub uninterp spec fn name_b<'a>(s: &'a XStr) -> Name<'a>;
        impl<'a> XInto<Name<'a>> for &'a XStr { open spec fn into_s(self) -> Name<'a> { name_b(self) } #[verifier::external_body] fn x_into(self) -> (r: Name<'a>) { unimplemented!() } }
        impl<'a> XInto<Name<'a>> for Name<'a> { open spec fn into_s(self) -> Name<'a> { self } fn x_into(self) -> (r: Name<'a>) { self } }
    }
    pub mod namespace {
        use super::*;
        #[verifier::external_body] pub struct Namespace { n: u8 }
        pub uninterp spec fn ns_of(m: Map<XStr, XStr>) -> Namespace;
        pub broadcast axiom fn axiom_ns(m: Map<XStr, XStr>) ensures (#[trigger] ns_of(m))@ == m;
        pub broadcast axiom fn axiom_ns_ext(a: Namespace, b: Namespace) ensures (#[trigger] a.view()) == (#[trigger] b.view()) ==> a == b;
        impl Namespace {
            pub uninterp spec fn view(&self) -> Map<XStr, XStr>;
            #[verifier::external_body] pub fn empty() -> (r: Namespace) ensures r@ == Map::<XStr, XStr>::empty() { unimplemented!() }
            /// the first URI bound to a prefix stays
            #[verifier::external_body] pub fn put<P: XInto<XStr>, U: XInto<XStr>>(&mut self, prefix: P, uri: U) -> (r: bool)
                ensures old(self)@.dom().contains(prefix.into_s()) ==> final(self)@ == old(self)@ && !r, !old(self)@.dom().contains(prefix.into_s()) ==> final(self)@ == old(self)@.insert(prefix.into_s(), uri.into_s()) && r { unimplemented!() }
            /// overwrites, unlike put
            #[verifier::external_body] pub fn force_put<P: XInto<XStr>, U: XInto<XStr>>(&mut self, prefix: P, uri: U) -> (r: Option<XStr>)
                ensures final(self)@ == old(self)@.insert(prefix.into_s(), uri.into_s()) { unimplemented!() }
        }
        impl XCow for Namespace { type Out = Namespace; open spec fn cow_s(self) -> Namespace { self } fn x_cow(self) -> (r: Namespace) { self } }
        impl<'b> XClone for Namespace { #[verifier::external_body] fn x_clone(&self) -> (r: Self) { unimplemented!() } }
    }
    pub mod attribute {
        use super::*;
        pub struct Attribute<'a> { pub name: super::name::Name<'a>, pub value: &'a XStr }
        impl<'a> Attribute<'a> {
            pub fn new(name: super::name::Name<'a>, value: &'a XStr) -> (r: Attribute<'a>) ensures r == (Attribute { name, value }) { Attribute { name, value } }
            pub open spec fn new_s(name: super::name::Name<'a>, value: &'a XStr) -> Attribute<'a> { Attribute { name, value } }
        }
    }
    pub mod common { pub enum XmlVersion { Version10, Version11 } }
    pub mod writer {
        use super::*;
        #[verifier::external_body] pub struct Error { e: u8 }
        pub mod events {
            use super::*;
            pub enum XmlEvent<'a> { StartElement { name: super::super::name::Name<'a>, attributes: Vec<super::super::attribute::Attribute<'a>>, namespace: super::super::namespace::Namespace }, EndElement { name: Option<super::super::name::Name<'a>> }, Characters(&'a XStr), StartDocument { version: super::super::common::XmlVersion, encoding: Option<&'a XStr>, standalone: Option<bool> } }
            impl<'a> XmlEvent<'a> {
                pub fn end_element() -> (r: XmlEvent<'a>) ensures r == (XmlEvent::<'a>::EndElement { name: None }) { XmlEvent::EndElement { name: None } }
                pub fn characters(s: &'a XStr) -> (r: XmlEvent<'a>) ensures r == XmlEvent::Characters(s) { XmlEvent::Characters(s) }
            }
        }
        #[verifier::external_body] #[verifier::accept_recursive_types(W)] pub struct EventWriter<W> { w: W }
        pub ghost enum Ev { Start { name: super::name::Name<'static>, attributes: Seq<(super::name::Name<'static>, XStr)>, namespace: Map<XStr, XStr> }, End, Text(XStr), Doc }
        /// names carry no lifetime in the written document
        pub uninterp spec fn stat(n: super::name::Name) -> super::name::Name<'static>;
        pub broadcast axiom fn axiom_name(s: &XStr) ensures #[trigger] stat(super::name::name_b(s)) == super::name::name_of(*s);
        pub open spec fn attrs_a(a: Seq<super::attribute::Attribute>) -> Seq<(super::name::Name<'static>, XStr)> { Seq::new(a.len(), |i: int| (stat(a[i].name), *a[i].value)) }
        pub open spec fn ev(e: events::XmlEvent) -> Ev {
            match e { events::XmlEvent::StartElement { name, attributes, namespace } => Ev::Start { name: stat(name), attributes: attrs_a(attributes@), namespace: namespace@ },
                events::XmlEvent::EndElement { name } => Ev::End, events::XmlEvent::Characters(s) => Ev::Text(*s), events::XmlEvent::StartDocument { version, encoding, standalone } => Ev::Doc }
        }
        #[verifier::external_body] pub struct EmitterConfig { c: u8 }
        impl EmitterConfig {
            #[verifier::external_body] pub fn new() -> (r: EmitterConfig) { unimplemented!() }
            #[verifier::external_body] pub fn perform_indent(self, b: bool) -> (r: EmitterConfig) { unimplemented!() }
            #[verifier::external_body] pub fn create_writer<W>(self, w: W) -> (r: EventWriter<W>) ensures r@ == Seq::<Ev>::empty() { unimplemented!() }
        }
        impl<W> EventWriter<W> {
            pub uninterp spec fn view(&self) -> Seq<Ev>;
            /// an end tag is given the name of the element it ends
            #[verifier::external_body] pub fn write<'a>(&mut self, e: events::XmlEvent<'a>) -> (r: Result<(), Error>) ensures r is Ok ==> final(self)@ == old(self)@.push(ev(e)) { unimplemented!() }
        }
    }
}
pub trait XWrite {}
impl<'a> XWrite for &'a mut Vec<u8> {}
broadcast use {xml::writer::axiom_name, xml::namespace::axiom_ns, xml::namespace::axiom_ns_ext};
