// ---- token streams: proc_macro2 and quote (assumed contracts) ----------------------------------------------------------
pub mod xtoks {
use super::*;
/// W: a word or a punctuation character; S: a string literal
pub enum Tok { W(XStr), S(XStr) }
#[verifier::external_body] pub struct TokenStream { t: u8 }
#[verifier::external_body] pub struct Ident { t: u8 }
impl Ident {
    pub uninterp spec fn text_s(&self) -> XStr;
    #[verifier::external_body] pub fn to_string(&self) -> (r: XStr) ensures r == self.text_s() { unimplemented!() }
    pub open spec fn to_string_s(&self) -> XStr { self.text_s() }
}
pub uninterp spec fn ident_of(s: XStr) -> Ident;
pub broadcast axiom fn axiom_ident(s: XStr) ensures (#[trigger] ident_of(s)).text_s() == s;
#[verifier::external_body] pub fn x_ident(s: XStr) -> (r: Ident) ensures r == ident_of(s) { unimplemented!() }
pub open spec fn x_ident_s(s: XStr) -> Ident { ident_of(s) }
pub uninterp spec fn tof(s: Seq<Tok>) -> TokenStream;
pub broadcast axiom fn axiom_tof(s: Seq<Tok>) ensures (#[trigger] tof(s))@ == s;
pub broadcast axiom fn axiom_tofv(t: TokenStream) ensures #[trigger] tof(t@) == t;
impl TokenStream {
    pub uninterp spec fn view(&self) -> Seq<Tok>;
    #[verifier::external_body] pub fn new() -> (r: TokenStream) ensures r@ == Seq::<Tok>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn x_append_all(&mut self, o: TokenStream) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body] pub fn x_extend(&mut self, o: TokenStream) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body] pub fn x_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
impl XDefault for TokenStream { open spec fn default_s() -> TokenStream { tof(Seq::empty()) } #[verifier::external_body] fn x_default() -> (r: TokenStream) { unimplemented!() } }
impl XClone for TokenStream { #[verifier::external_body] fn x_clone(&self) -> (r: TokenStream) { unimplemented!() } }
impl XClone for Ident { #[verifier::external_body] fn x_clone(&self) -> (r: Ident) { unimplemented!() } }
impl XDisp for Ident { open spec fn disp_s(&self) -> Seq<char> { self.text_s()@ } #[verifier::external_body] fn x_disp(&self) -> (r: XStr) { unimplemented!() } }
pub open spec fn t0_s() -> TokenStream { tof(Seq::empty()) }
#[verifier::external_body] pub fn t0() -> (r: TokenStream) ensures r == t0_s() { unimplemented!() }
pub open spec fn tw_s(s: &XStr) -> TokenStream { tof(seq![Tok::W(*s)]) }
#[verifier::external_body] pub fn tw(s: &XStr) -> (r: TokenStream) ensures r == tw_s(s) { unimplemented!() }
pub open spec fn tcat_s(a: TokenStream, b: TokenStream) -> TokenStream { tof(a@ + b@) }
#[verifier::external_body] pub fn tcat(a: TokenStream, b: TokenStream) -> (r: TokenStream) ensures r == tcat_s(a, b) { unimplemented!() }
/// ToTokens
pub trait XTok { spec fn tok_s(&self) -> TokenStream; fn x_tok(&self) -> (r: TokenStream) ensures r == self.tok_s(); }
impl XTok for XStr { open spec fn tok_s(&self) -> TokenStream { tof(seq![Tok::S(*self)]) } #[verifier::external_body] fn x_tok(&self) -> (r: TokenStream) { unimplemented!() } }
impl XTok for Ident { open spec fn tok_s(&self) -> TokenStream { tof(seq![Tok::W(self.text_s())]) } #[verifier::external_body] fn x_tok(&self) -> (r: TokenStream) { unimplemented!() } }
impl XTok for TokenStream { open spec fn tok_s(&self) -> TokenStream { *self } #[verifier::external_body] fn x_tok(&self) -> (r: TokenStream) { unimplemented!() } }
impl<'a, T: XTok> XTok for &'a T { open spec fn tok_s(&self) -> TokenStream { (**self).tok_s() } fn x_tok(&self) -> (r: TokenStream) { (**self).x_tok() } }
impl<T: XTok> XTok for Option<T> { open spec fn tok_s(&self) -> TokenStream { match *self { Some(x) => x.tok_s(), None => t0_s() } } #[verifier::external_body] fn x_tok(&self) -> (r: TokenStream) { unimplemented!() } }
/// #( a #x b )*
pub open spec fn reps<T: XTok>(s: Seq<T>, a: Seq<Tok>, b: Seq<Tok>) -> Seq<Tok> decreases s.len() { if s.len() == 0 { Seq::empty() } else { reps(s.drop_last(), a, b) + a + s.last().tok_s()@ + b } }
pub trait XRep: Sized { spec fn rep_s(self, a: TokenStream, b: TokenStream) -> TokenStream; fn x_rep(self, a: TokenStream, b: TokenStream) -> (r: TokenStream) ensures r == self.rep_s(a, b); }
impl<T: XTok> XRep for Vec<T> { open spec fn rep_s(self, a: TokenStream, b: TokenStream) -> TokenStream { tof(reps(self@, a@, b@)) } #[verifier::external_body] fn x_rep(self, a: TokenStream, b: TokenStream) -> (r: TokenStream) { unimplemented!() } }
impl<T: XTok> XRep for XIter<T> { open spec fn rep_s(self, a: TokenStream, b: TokenStream) -> TokenStream { tof(reps(self@, a@, b@)) } #[verifier::external_body] fn x_rep(self, a: TokenStream, b: TokenStream) -> (r: TokenStream) { unimplemented!() } }
impl<'x, T: XTok> XRep for &'x Vec<T> { open spec fn rep_s(self, a: TokenStream, b: TokenStream) -> TokenStream { tof(reps(self@, a@, b@)) } #[verifier::external_body] fn x_rep(self, a: TokenStream, b: TokenStream) -> (r: TokenStream) { unimplemented!() } }
/// the first character is numeric (char::is_numeric as a pattern)
pub struct XNum;
pub uninterp spec fn numeric(c: char) -> bool;
impl XPre for XNum { open spec fn pre_s(&self, s: Seq<char>) -> bool { s.len() > 0 && numeric(s[0]) } }
/// any string (what an expression outside of the verifier's reach may yield)
#[verifier::external_body] pub fn x_opaque() -> (r: XStr) { unimplemented!() }
/// a valid identifier (syn's parser)
pub uninterp spec fn is_ident(s: XStr) -> bool;
#[verifier::external_body] pub struct SynErr { d: u8 }
#[verifier::external_body] pub fn x_parse_ident<T>(s: &XStr) -> (r: Result<T, SynErr>) ensures r is Ok == is_ident(*s) { unimplemented!() }
pub trait XChr { fn x_is_alphabetic(&self) -> bool; fn x_is_numeric(&self) -> bool; }
impl XChr for char { #[verifier::external_body] fn x_is_alphabetic(&self) -> bool { unimplemented!() } #[verifier::external_body] fn x_is_numeric(&self) -> bool { unimplemented!() } }
}
use xtoks::*;
broadcast use {xtoks::axiom_ident, xtoks::axiom_tof, xtoks::axiom_tofv};
