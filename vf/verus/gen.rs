// ---- what generated code uses of std::fmt, std::str and the literal types (assumed contracts) ------------------------
pub mod xgen {
use super::*;
/// parsing and printing of the primitive types is left to the standard library and rust_decimal: one function each
pub trait XFromStr: Sized { type Err; spec fn from_str_s(s: XStr) -> Result<Self, Self::Err>; fn x_from_str(s: &XStr) -> (r: Result<Self, Self::Err>) ensures r == Self::from_str_s(*s); }
#[verifier::external_body] pub struct XPErr { e: u8 }
#[verifier::external_body] pub struct XDec { e: u8 }
#[verifier::external_body] pub struct XF32 { e: u8 }
impl XFromStr for bool { type Err = XPErr; uninterp spec fn from_str_s(s: XStr) -> Result<bool, XPErr>; #[verifier::external_body] fn x_from_str(s: &XStr) -> (r: Result<bool, XPErr>) { unimplemented!() } }
impl XFromStr for i32 { type Err = XPErr; uninterp spec fn from_str_s(s: XStr) -> Result<i32, XPErr>; #[verifier::external_body] fn x_from_str(s: &XStr) -> (r: Result<i32, XPErr>) { unimplemented!() } }
impl XFromStr for i64 { type Err = XPErr; uninterp spec fn from_str_s(s: XStr) -> Result<i64, XPErr>; #[verifier::external_body] fn x_from_str(s: &XStr) -> (r: Result<i64, XPErr>) { unimplemented!() } }
impl XFromStr for u64 { type Err = XPErr; uninterp spec fn from_str_s(s: XStr) -> Result<u64, XPErr>; #[verifier::external_body] fn x_from_str(s: &XStr) -> (r: Result<u64, XPErr>) { unimplemented!() } }
impl XFromStr for XDec { type Err = XPErr; uninterp spec fn from_str_s(s: XStr) -> Result<XDec, XPErr>; #[verifier::external_body] fn x_from_str(s: &XStr) -> (r: Result<XDec, XPErr>) { unimplemented!() } }
impl XFromStr for XF32 { type Err = XPErr; uninterp spec fn from_str_s(s: XStr) -> Result<XF32, XPErr>; #[verifier::external_body] fn x_from_str(s: &XStr) -> (r: Result<XF32, XPErr>) { unimplemented!() } }
impl XFromStr for XStr { type Err = XInfallible; open spec fn from_str_s(s: XStr) -> Result<XStr, XInfallible> { Ok(s) } #[verifier::external_body] fn x_from_str(s: &XStr) -> (r: Result<XStr, XInfallible>) { unimplemented!() } }
pub uninterp spec fn boxed<E>(e: E) -> XErr;
#[verifier::external_body] pub fn x_boxerr<E>(e: E) -> (r: XErr) ensures r == boxed(e) { unimplemented!() }
#[verifier::external_body] pub struct XFmtErr { e: u8 }
pub type XFmtResult = Result<(), XFmtErr>;
#[verifier::external_body] pub struct XFormatter { e: u8 }
impl XFormatter {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn write_str(&mut self, s: &XStr) -> (r: XFmtResult) ensures r is Ok, final(self)@ == old(self)@ + s@ { unimplemented!() }
}
pub trait XDisplay { spec fn x_to_string_s(&self) -> XStr; fn fmt(&self, f: &mut XFormatter) -> (r: XFmtResult) ensures r is Ok, final(f)@ == old(f)@ + self.x_to_string_s()@; }
impl XDisplay for bool { uninterp spec fn x_to_string_s(&self) -> XStr; #[verifier::external_body] fn fmt(&self, f: &mut XFormatter) -> (r: XFmtResult) { unimplemented!() } }
impl XDisplay for i32 { uninterp spec fn x_to_string_s(&self) -> XStr; #[verifier::external_body] fn fmt(&self, f: &mut XFormatter) -> (r: XFmtResult) { unimplemented!() } }
impl XDisplay for i64 { uninterp spec fn x_to_string_s(&self) -> XStr; #[verifier::external_body] fn fmt(&self, f: &mut XFormatter) -> (r: XFmtResult) { unimplemented!() } }
impl XDisplay for u64 { uninterp spec fn x_to_string_s(&self) -> XStr; #[verifier::external_body] fn fmt(&self, f: &mut XFormatter) -> (r: XFmtResult) { unimplemented!() } }
impl XDisplay for XDec { uninterp spec fn x_to_string_s(&self) -> XStr; #[verifier::external_body] fn fmt(&self, f: &mut XFormatter) -> (r: XFmtResult) { unimplemented!() } }
impl XDisplay for XF32 { uninterp spec fn x_to_string_s(&self) -> XStr; #[verifier::external_body] fn fmt(&self, f: &mut XFormatter) -> (r: XFmtResult) { unimplemented!() } }
impl XDisplay for XStr { open spec fn x_to_string_s(&self) -> XStr { *self } #[verifier::external_body] fn fmt(&self, f: &mut XFormatter) -> (r: XFmtResult) { unimplemented!() } }
/// ToString goes through Display
pub trait XToStr { spec fn ts(&self) -> XStr; fn x_to_string(&self) -> (r: XStr) ensures r == self.ts(); }
impl<T: XDisplay> XToStr for T { open spec fn ts(&self) -> XStr { self.x_to_string_s() } #[verifier::external_body] fn x_to_string(&self) -> (r: XStr) { unimplemented!() } }
pub trait XAsRefStr { spec fn as_ref_s(&self) -> XStr; fn x_as_ref(&self) -> (r: &XStr) ensures *r == self.as_ref_s(); }
pub trait XOptRef<T> { fn x_as_ref(&self) -> (r: Option<&T>) ensures r == self.or_s(); spec fn or_s(&self) -> Option<&T>; }
impl<T> XOptRef<T> for Option<T> { open spec fn or_s(&self) -> Option<&T> { match self { Some(x) => Some(x), None => None } } fn x_as_ref(&self) -> (r: Option<&T>) { match self { Some(x) => Some(x), None => None } } }
/// the vector with those elements
pub uninterp spec fn vof<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn axiom_vof<T>(s: Seq<T>) ensures (#[trigger] vof(s))@ == s;
pub broadcast axiom fn axiom_vof_view<T>(v: Vec<T>) ensures #[trigger] vof(v@) == v;
}
use xgen::*;
broadcast use {xgen::axiom_vof, xgen::axiom_vof_view};
