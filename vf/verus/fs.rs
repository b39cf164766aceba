// ---- model of paths and files (assumed contracts): the file system does not change while a schema is read ------------
pub mod xfs {
use super::*;
#[verifier::external_body] pub struct XPath { d: u8 }
/// the text of a file, if it can be read
pub uninterp spec fn file_s(p: XPath) -> Option<XStr>;
pub uninterp spec fn canon_s(p: XPath) -> Option<XPath>;
pub uninterp spec fn join_s(p: XPath, s: XStr) -> XPath;
pub uninterp spec fn parent_s(p: XPath) -> Option<XPath>;
pub uninterp spec fn lossy_s(p: XPath) -> XStr;
impl XPath {
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: XPath) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &XPath) ensures *r == *self { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, s: &XStr) ensures *final(self) == join_s(*old(self), *s) { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, s: &XStr) -> (r: XPath) ensures r == join_s(*self, *s) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&XPath>) ensures r is Some == parent_s(*self) is Some, r is Some ==> *(r->0) == parent_s(*self)->0 { unimplemented!() }
    #[verifier::external_body] pub fn canonicalize(&self) -> (r: Result<XPath, io::Error>) ensures r is Ok == canon_s(*self) is Some, r is Ok ==> r->Ok_0 == canon_s(*self)->0 { unimplemented!() }
    pub uninterp spec fn exists_s(&self) -> bool;
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r == self.exists_s(), file_s(*self) is Some ==> r { unimplemented!() }
    pub uninterp spec fn is_file_s(&self) -> bool;
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == self.is_file_s(), file_s(*self) is Some ==> r { unimplemented!() }
    pub uninterp spec fn is_absolute_s(&self) -> bool;
    #[verifier::external_body] pub fn is_absolute(&self) -> (r: bool) ensures r == self.is_absolute_s() { unimplemented!() }
    pub open spec fn is_relative_s(&self) -> bool { !self.is_absolute_s() }
    #[verifier::external_body] pub fn is_relative(&self) -> (r: bool) ensures r == self.is_relative_s() { unimplemented!() }
    #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: XStr) ensures r == lossy_s(*self) { unimplemented!() }
}
impl XClone for XPath { #[verifier::external_body] fn x_clone(&self) -> (r: XPath) { unimplemented!() } }
pub trait XAsRef<T> { spec fn as_ref_s(&self) -> T; fn x_as_ref(&self) -> (r: &T) ensures *r == self.as_ref_s(); }
impl XAsRef<XPath> for XPath { open spec fn as_ref_s(&self) -> XPath { *self } fn x_as_ref(&self) -> (r: &XPath) { self } }
impl<'x> XAsRef<XPath> for &'x XPath { open spec fn as_ref_s(&self) -> XPath { **self } fn x_as_ref(&self) -> (r: &XPath) { *self } }
pub mod io { #[verifier::external_body] pub struct Error { e: u8 } }
#[verifier::external_body] pub fn read_to_string(p: &XPath) -> (r: Result<XStr, io::Error>) ensures r is Ok == file_s(*p) is Some, r is Ok ==> r->Ok_0 == file_s(*p)->0 { unimplemented!() }
}
use xfs::*;
