// ---- model of the standard library (assumed contracts) --------------------------------------------------------------
pub mod xcore {
use super::*;
// XStr stands for str, String and Cow<str>: a sequence of characters.
#[verifier::external_body]
pub struct XStr { s: String }
impl XStr {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new() -> (r: XStr) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: XStr) ensures r == *self { unimplemented!() }
    pub open spec fn to_string_s(&self) -> XStr { *self }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: XStr) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn into_owned(self) -> (r: XStr) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn x_as_str(&self) -> (r: &XStr) ensures *r == *self { unimplemented!() }
    pub open spec fn x_as_str_s(&self) -> &XStr { self }
    #[verifier::external_body] pub fn x_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    pub open spec fn x_is_empty_s(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body] pub fn x_trim(&self) -> (r: &XStr) ensures r@ == str_trim(self@) { unimplemented!() }
    #[verifier::external_body] pub fn push_str(&mut self, o: &XStr) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] pub fn splitn(&self, n: usize, c: char) -> (r: XIter<&XStr>) ensures n == 2 ==> r@.len() <= 2 && r@.len() == split2(*self, c).len() && (forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == split2(*self, c)[i]) { unimplemented!() }
    #[verifier::external_body] pub fn split_once(&self, c: char) -> (r: Option<(&XStr, &XStr)>) ensures r is Some == (split2(*self, c).len() == 2), r is Some ==> *((r->0).0) == split2(*self, c)[0] && *((r->0).1) == split2(*self, c)[1] { unimplemented!() }
    #[verifier::external_body] pub fn x_starts_with<P: XPre>(&self, p: P) -> (r: bool) ensures r == p.pre_s(self@) { unimplemented!() }
    #[verifier::external_body] pub fn ends_with<P: XPat>(&self, p: P) -> (r: bool) ensures r == (p.pat_s().len() <= self@.len() && self@.skip(self@.len() - p.pat_s().len()) == p.pat_s()) { unimplemented!() }
    #[verifier::external_body] pub fn x_contains<P: XPat>(&self, p: P) -> (r: bool) ensures r == exists|i: int| 0 <= i <= self@.len() && #[trigger] has_prefix(self@.skip(i), p.pat_s()) { unimplemented!() }
    #[verifier::external_body] pub fn strip_prefix<P: XPat>(&self, p: P) -> (r: Option<&XStr>) ensures r is Some == has_prefix(self@, p.pat_s()), r is Some ==> r->0@ == self@.skip(p.pat_s().len() as int) { unimplemented!() }
    pub uninterp spec fn lower_s(&self) -> XStr;
    #[verifier::external_body] pub fn to_lowercase(&self) -> (r: XStr) ensures r == self.lower_s() { unimplemented!() }
    pub uninterp spec fn alower_s(&self) -> XStr;
    #[verifier::external_body] pub fn to_ascii_lowercase(&self) -> (r: XStr) ensures r == self.alower_s() { unimplemented!() }
    pub open spec fn eq_ic_s(&self, o: &XStr) -> bool { self.alower_s() == o.alower_s() }
    #[verifier::external_body] pub fn eq_ignore_ascii_case(&self, o: &XStr) -> (r: bool) ensures r == self.eq_ic_s(o) { unimplemented!() }
    #[verifier::external_body] pub fn x_chars(&self) -> (r: XIter<char>) ensures r@ == self@ { unimplemented!() }
    pub uninterp spec fn to_snake_case_s(&self) -> XStr;
    #[verifier::external_body] pub fn to_snake_case(&self) -> (r: XStr) ensures r == self.to_snake_case_s() { unimplemented!() }
    pub uninterp spec fn to_pascal_case_s(&self) -> XStr;
    #[verifier::external_body] pub fn to_pascal_case(&self) -> (r: XStr) ensures r == self.to_pascal_case_s() { unimplemented!() }
}
/// the parts before and after the first occurrence of a character, or the whole
pub open spec fn split2(s: XStr, c: char) -> Seq<XStr> { if s@.contains(c) { seq![xs(s@.take(first_ch(s@, c))), xs(s@.skip(first_ch(s@, c) + 1))] } else { seq![s] } }
pub open spec fn first_ch(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + first_ch(s.skip(1), c) } }
/// the string with those characters
pub uninterp spec fn xs(s: Seq<char>) -> XStr;
pub broadcast axiom fn axiom_xs(s: Seq<char>) ensures (#[trigger] xs(s))@ == s;
pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub trait XPat { spec fn pat_s(&self) -> Seq<char>; }
impl XPat for char { open spec fn pat_s(&self) -> Seq<char> { seq![*self] } }
impl XPat for XStr { open spec fn pat_s(&self) -> Seq<char> { self@ } }
impl<'a, P: XPat> XPat for &'a P { open spec fn pat_s(&self) -> Seq<char> { (**self).pat_s() } }
pub trait XPre { spec fn pre_s(&self, s: Seq<char>) -> bool; }
impl XPre for char { open spec fn pre_s(&self, s: Seq<char>) -> bool { has_prefix(s, seq![*self]) } }
impl XPre for XStr { open spec fn pre_s(&self, s: Seq<char>) -> bool { has_prefix(s, self@) } }
impl<'a, P: XPre> XPre for &'a P { open spec fn pre_s(&self, s: Seq<char>) -> bool { (**self).pre_s(s) } }
pub trait XChar { fn x_to_ascii_uppercase(&self) -> (r: char); }
impl XChar for char { #[verifier::external_body] fn x_to_ascii_uppercase(&self) -> (r: char) { unimplemented!() } }
impl XIter<char> { #[verifier::external_body] pub fn x_as_str(&self) -> (r: &XStr) ensures r@ == self@ { unimplemented!() } }
impl<T> XClone for XIter<T> { #[verifier::external_body] fn x_clone(&self) -> (r: XIter<T>) { unimplemented!() } }
pub open spec fn xsame<T>(a: T, b: T) -> bool { a == b }
pub uninterp spec fn str_trim(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn axiom_xstr_ext(a: XStr, b: XStr) ensures (#[trigger] a.view()) == (#[trigger] b.view()) ==> a == b;
pub uninterp spec fn xlit_s(s: &str) -> XStr;
pub broadcast axiom fn axiom_xlit(s: &str) ensures (#[trigger] xlit_s(s))@ == s@;
#[verifier::external_body] pub fn xlit(s: &'static str) -> (r: &'static XStr) ensures *r == xlit_s(s) { unimplemented!() }
#[verifier::external_body] pub struct XInfallible { e: u8 }
#[verifier::external_body] pub struct XErr { e: String }

#[verifier::external_body] pub fn x_unreachable<T>() -> (r: T) requires false { unimplemented!() }
pub fn x_assert(c: bool) requires c {}
pub fn x_box<T>(t: T) -> (r: T) ensures r == t { t }

pub trait XEq<R: ?Sized> { spec fn eq_s(&self, o: &R) -> bool; fn x_eq(&self, o: &R) -> (r: bool) ensures r == self.eq_s(o); }
impl XEq<XStr> for XStr { open spec fn eq_s(&self, o: &XStr) -> bool { *self == *o } #[verifier::external_body] fn x_eq(&self, o: &XStr) -> (r: bool) { unimplemented!() } }
impl<'b, A: XEq<B>, B> XEq<&'b B> for &A { open spec fn eq_s(&self, o: &&'b B) -> bool { (**self).eq_s(*o) } fn x_eq(&self, o: &&'b B) -> (r: bool) { (**self).x_eq(*o) } }
impl<'b> XEq<&'b XStr> for XStr { open spec fn eq_s(&self, o: &&'b XStr) -> bool { *self == **o } #[verifier::external_body] fn x_eq(&self, o: &&'b XStr) -> (r: bool) { unimplemented!() } }
impl<'b> XEq<XStr> for &'b XStr { open spec fn eq_s(&self, o: &XStr) -> bool { **self == *o } #[verifier::external_body] fn x_eq(&self, o: &XStr) -> (r: bool) { unimplemented!() } }
impl<A: XEq<B>, B> XEq<Option<B>> for Option<A> {
    open spec fn eq_s(&self, o: &Option<B>) -> bool { match (*self, *o) { (None, None) => true, (Some(a), Some(b)) => a.eq_s(&b), _ => false } }
    fn x_eq(&self, o: &Option<B>) -> (r: bool) { match self { None => match o { None => true, Some(_) => false }, Some(a) => match o { None => false, Some(b) => a.x_eq(b) } } }
}
impl XEq<usize> for usize { open spec fn eq_s(&self, o: &usize) -> bool { *self == *o } fn x_eq(&self, o: &usize) -> (r: bool) { *self == *o } }
impl XEq<u32> for u32 { open spec fn eq_s(&self, o: &u32) -> bool { *self == *o } fn x_eq(&self, o: &u32) -> (r: bool) { *self == *o } }
impl XEq<bool> for bool { open spec fn eq_s(&self, o: &bool) -> bool { *self == *o } fn x_eq(&self, o: &bool) -> (r: bool) { *self == *o } }
impl XEq<char> for char { open spec fn eq_s(&self, o: &char) -> bool { *self == *o } fn x_eq(&self, o: &char) -> (r: bool) { *self == *o } }

pub trait XInto<T>: Sized { spec fn into_s(self) -> T; fn x_into(self) -> (r: T) ensures r == self.into_s(); }
impl XInto<XStr> for XStr { open spec fn into_s(self) -> XStr { self } fn x_into(self) -> (r: XStr) { self } }
impl<'a> XInto<XStr> for &'a XStr { open spec fn into_s(self) -> XStr { *self } #[verifier::external_body] fn x_into(self) -> (r: XStr) { unimplemented!() } }
pub trait XCow: Sized { type Out; spec fn cow_s(self) -> Self::Out; fn x_cow(self) -> (r: Self::Out) ensures r == self.cow_s(); }
impl XCow for XStr { type Out = XStr; open spec fn cow_s(self) -> XStr { self } fn x_cow(self) -> (r: XStr) { self } }
impl<'a> XCow for &'a XStr { type Out = XStr; open spec fn cow_s(self) -> XStr { *self } #[verifier::external_body] fn x_cow(self) -> (r: XStr) { unimplemented!() } }
impl<T> XCow for Vec<T> { type Out = Vec<T>; open spec fn cow_s(self) -> Vec<T> { self } fn x_cow(self) -> (r: Vec<T>) { self } }
pub trait XFrom<T>: Sized { spec fn from_s(t: T) -> Self; fn x_from(t: T) -> (r: Self) ensures r == Self::from_s(t); }
impl<T> XFrom<T> for T { open spec fn from_s(t: T) -> T { t } fn x_from(t: T) -> (r: T) { t } }
pub trait XClone: Sized { fn x_clone(&self) -> (r: Self) ensures r == *self; }
impl XClone for XStr { #[verifier::external_body] fn x_clone(&self) -> (r: XStr) { unimplemented!() } }
pub trait XDefault: Sized { spec fn default_s() -> Self; fn x_default() -> (r: Self) ensures r == Self::default_s(); }
impl<T> XDefault for Option<T> { open spec fn default_s() -> Option<T> { None } fn x_default() -> (r: Option<T>) { None } }
pub trait XAddAssign<R>: Sized { spec fn add_s(self, r: R) -> Self; fn x_add_assign(&mut self, r: R) ensures *final(self) == old(self).add_s(r); }
pub uninterp spec fn str_cat(a: XStr, b: XStr) -> XStr;
pub broadcast axiom fn axiom_str_cat(a: XStr, b: XStr) ensures (#[trigger] str_cat(a, b))@ == a@ + b@;
impl<'a> XAddAssign<&'a XStr> for XStr { open spec fn add_s(self, r: &'a XStr) -> XStr { str_cat(self, *r) } #[verifier::external_body] fn x_add_assign(&mut self, r: &'a XStr) { unimplemented!() } }
impl XAddAssign<i32> for i32 { uninterp spec fn add_s(self, r: i32) -> i32; #[verifier::external_body] fn x_add_assign(&mut self, r: i32) { unimplemented!() } }
impl XAddAssign<usize> for usize { uninterp spec fn add_s(self, r: usize) -> usize; #[verifier::external_body] fn x_add_assign(&mut self, r: usize) { unimplemented!() } }

pub trait XUnwrapOr<T>: Sized { spec fn uo_s(self, d: T) -> T; fn x_unwrap_or(self, d: T) -> (r: T) ensures r == self.uo_s(d); }
impl<T> XUnwrapOr<T> for Option<T> { open spec fn uo_s(self, d: T) -> T { match self { Some(s) => s, None => d } } #[verifier::external_body] fn x_unwrap_or(self, d: T) -> (r: T) { unimplemented!() } }
pub trait XOptDef<T>: Sized { spec fn uod_s(self) -> T; fn x_unwrap_or_default(self) -> (r: T) ensures r == self.uod_s(); }
impl<T: XDefault> XOptDef<T> for Option<T> { open spec fn uod_s(self) -> T { match self { Some(s) => s, None => T::default_s() } } fn x_unwrap_or_default(self) -> (r: T) { match self { Some(s) => s, None => T::x_default() } } }
impl<'a> XDefault for &'a XStr { open spec fn default_s() -> &'a XStr { &xlit_s("") } #[verifier::external_body] fn x_default() -> (r: &'a XStr) { unimplemented!() } }
impl XDefault for XStr { open spec fn default_s() -> XStr { xlit_s("") } #[verifier::external_body] fn x_default() -> (r: XStr) { unimplemented!() } }
impl<'a, T> XClone for &'a T { fn x_clone(&self) -> (r: &'a T) { *self } }
impl<T> XClone for Vec<T> { #[verifier::external_body] fn x_clone(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T: XClone> XClone for Option<T> { #[verifier::external_body] fn x_clone(&self) -> (r: Option<T>) { unimplemented!() } }
pub trait XOptRef<T> { fn x_as_ref(&self) -> (r: Option<&T>) ensures self.as_ref_s() == r; spec fn as_ref_s(&self) -> Option<&T>; }
impl<T> XOptRef<T> for Option<T> { open spec fn as_ref_s(&self) -> Option<&T> { match *self { Some(s) => Some(&s), None => None } } #[verifier::external_body] fn x_as_ref(&self) -> (r: Option<&T>) { unimplemented!() } }
pub trait XAsDeref { fn x_as_deref(&self) -> (r: Option<&XStr>) ensures self.deref_s() == r; spec fn deref_s(&self) -> Option<&XStr>; }
impl XAsDeref for Option<XStr> { open spec fn deref_s(&self) -> Option<&XStr> { match *self { Some(s) => Some(&s), None => None } } #[verifier::external_body] fn x_as_deref(&self) -> (r: Option<&XStr>) { unimplemented!() } }

// iterators: the sequence still to come
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct XIter<T> { v: Vec<T> }
pub open spec fn xfilter<T>(s: Seq<T>, g: spec_fn(&T) -> bool) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else { let r = xfilter(s.drop_last(), g); if g(&s.last()) { r.push(s.last()) } else { r } }
}
pub open spec fn xprefix<T>(s: Seq<T>, g: spec_fn(&T) -> bool) -> Seq<T> decreases s.len() {
    if s.len() == 0 || !g(&s[0]) { Seq::empty() } else { seq![s[0]] + xprefix(s.skip(1), g) }
}
pub open spec fn xfirst<T>(s: Seq<T>, g: spec_fn(&T) -> bool) -> int decreases s.len() {
    if s.len() == 0 { -1int } else if g(&s[0]) { 0 } else { let r = xfirst(s.skip(1), g); if r < 0 { -1int } else { r + 1 } }
}
pub broadcast proof fn lemma_xfirst<T>(s: Seq<T>, g: spec_fn(&T) -> bool)
    ensures ({ let i = #[trigger] xfirst(s, g); -1 <= i < s.len() && (i >= 0 ==> g(&s[i])) && (forall|j: int| 0 <= j < i ==> !g(&#[trigger] s[j])) && (i < 0 ==> forall|j: int| 0 <= j < s.len() ==> !g(&#[trigger] s[j])) }) decreases s.len()
{ if s.len() > 0 && !g(&s[0]) { let t = s.skip(1); lemma_xfirst(t, g); let k = xfirst(t, g); assert(k >= 0 ==> t[k] == s[k + 1]); assert forall|j: int| 0 <= j < s.len() && (k < 0 || j < k + 1) implies !g(&#[trigger] s[j]) by { if j > 0 { assert(t[j - 1] == s[j]); } } } }
pub broadcast proof fn lemma_xfilter<T>(s: Seq<T>, g: spec_fn(&T) -> bool)
    ensures ({ let f = #[trigger] xfilter(s, g); f.len() <= s.len() && (forall|i: int| 0 <= i < f.len() ==> g(&#[trigger] f[i]) && s.contains(f[i])) && (forall|j: int| 0 <= j < s.len() && g(&#[trigger] s[j]) ==> f.contains(s[j])) }) decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); lemma_xfilter(t, g); let f = xfilter(s, g); let ft = xfilter(t, g);
    assert forall|i: int| 0 <= i < f.len() implies g(&#[trigger] f[i]) && s.contains(f[i]) by { if i < ft.len() { assert(f[i] == ft[i]); assert(t.contains(ft[i])); let j = choose|j: int| 0 <= j < t.len() && t[j] == ft[i]; assert(s[j] == f[i]); } else { assert(s[s.len() - 1] == f[i]); } }
    assert forall|j: int| 0 <= j < s.len() && g(&#[trigger] s[j]) implies f.contains(s[j]) by { if j < t.len() { assert(t[j] == s[j]); assert(ft.contains(t[j])); let i = choose|i: int| 0 <= i < ft.len() && ft[i] == t[j]; assert(f[i] == s[j]); } else { assert(f[f.len() - 1] == s[j]); } } } }
impl<T> XIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn x_filter<F: Fn(&T) -> bool>(self, f: F, Ghost(g): Ghost<spec_fn(&T) -> bool>) -> (r: XIter<T>)
        requires forall|x: &T| #[trigger] f.requires((x,)), forall|x: &T, b: bool| #[trigger] f.ensures((x,), b) ==> b == g(x)
        ensures r@ == xfilter(self@, g) { unimplemented!() }
    #[verifier::external_body] pub fn x_take_while<F: Fn(&T) -> bool>(self, f: F, Ghost(g): Ghost<spec_fn(&T) -> bool>) -> (r: XIter<T>)
        requires forall|x: &T| #[trigger] f.requires((x,)), forall|x: &T, b: bool| #[trigger] f.ensures((x,), b) ==> b == g(x)
        ensures r@ == xprefix(self@, g) { unimplemented!() }
    #[verifier::external_body] pub fn x_find<F: Fn(&T) -> bool>(self, f: F, Ghost(g): Ghost<spec_fn(&T) -> bool>) -> (r: Option<T>)
        requires forall|x: &T| #[trigger] f.requires((x,)), forall|x: &T, b: bool| #[trigger] f.ensures((x,), b) ==> b == g(x)
        ensures r == (if xfirst(self@, g) < 0 { None } else { Some(self@[xfirst(self@, g)]) }) { unimplemented!() }
    #[verifier::external_body] pub fn x_position<F: Fn(T) -> bool>(self, f: F, Ghost(g): Ghost<spec_fn(T) -> bool>) -> (r: Option<usize>)
        requires forall|x: T| #[trigger] f.requires((x,)), forall|x: T, b: bool| #[trigger] f.ensures((x,), b) ==> b == g(x)
        ensures xfirst(self@, |x: &T| g(*x)) < 0 ==> r is None, xfirst(self@, |x: &T| g(*x)) >= 0 ==> r is Some && r->0 == xfirst(self@, |x: &T| g(*x)) { unimplemented!() }
    #[verifier::external_body] pub fn x_any<F: Fn(T) -> bool>(self, f: F, Ghost(g): Ghost<spec_fn(T) -> bool>) -> (r: bool)
        requires forall|x: T| #[trigger] f.requires((x,)), forall|x: T, b: bool| #[trigger] f.ensures((x,), b) ==> b == g(x)
        ensures r == (exists|i: int| 0 <= i < self@.len() && g(#[trigger] self@[i])) { unimplemented!() }
    #[verifier::external_body] pub fn x_all<F: Fn(T) -> bool>(self, f: F, Ghost(g): Ghost<spec_fn(T) -> bool>) -> (r: bool)
        requires forall|x: T| #[trigger] f.requires((x,)), forall|x: T, b: bool| #[trigger] f.ensures((x,), b) ==> b == g(x)
        ensures r == (forall|i: int| 0 <= i < self@.len() ==> g(#[trigger] self@[i])) { unimplemented!() }
    #[verifier::external_body] pub fn x_map<R, F: Fn(T) -> R>(self, f: F) -> (r: XIter<R>)
        requires forall|x: T| #[trigger] f.requires((x,))
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), r@[i]) { unimplemented!() }
    #[verifier::external_body] pub fn x_peekable(self) -> (r: XIter<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn x_peek(&mut self) -> (r: Option<&T>) ensures final(self)@ == old(self)@, r == (if old(self)@.len() == 0 { None } else { Some(&old(self)@[0]) }) { unimplemented!() }
    #[verifier::external_body] pub fn x_enumerate(self) -> (r: XIter<(usize, T)>) ensures r@ == enumd(self@), r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == self@[i] { unimplemented!() }
}
pub trait XIntoIter<T>: Sized { spec fn seq_s(self) -> Seq<T>; fn x_into_iter(self) -> (r: XIter<T>) ensures r@ == self.seq_s(); }
impl<T> XIntoIter<T> for XIter<T> { open spec fn seq_s(self) -> Seq<T> { self@ } fn x_into_iter(self) -> (r: XIter<T>) { self } }
impl<T> XIntoIter<T> for Vec<T> { open spec fn seq_s(self) -> Seq<T> { self@ } #[verifier::external_body] fn x_into_iter(self) -> (r: XIter<T>) { unimplemented!() } }
pub open spec fn enumd<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
pub broadcast proof fn lemma_enumd_at<T>(s: Seq<T>, i: int) requires 0 <= i < s.len() ensures #![trigger enumd(s), s[i]] enumd(s)[i] == (i as usize, s[i]) {}
pub broadcast proof fn lemma_refs_at<'a, T>(s: Seq<T>, i: int) requires 0 <= i < s.len() ensures #![trigger refs::<'a, T>(s), s[i]] refs::<'a, T>(s)[i] == &s[i] {}
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> XIntoIter<&'a T> for &'a Vec<T> { open spec fn seq_s(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn x_into_iter(self) -> (r: XIter<&'a T>) { unimplemented!() } }

impl XIntoIter<usize> for Range<usize> { open spec fn seq_s(self) -> Seq<usize> { Seq::new(if self.end > self.start { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize) } #[verifier::external_body] fn x_into_iter(self) -> (r: XIter<usize>) { unimplemented!() } }
pub trait XFromIter<T>: Sized { spec fn is_from(self, s: Seq<T>) -> bool; fn x_from_iter(it: XIter<T>) -> (r: Self) ensures r.is_from(it@); }
impl<T> XFromIter<T> for Vec<T> { open spec fn is_from(self, s: Seq<T>) -> bool { self@ == s } #[verifier::external_body] fn x_from_iter(it: XIter<T>) -> (r: Self) { unimplemented!() } }
impl<T> XIter<T> { #[verifier::external_body] pub fn x_collect_vec(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    pub fn x_collect<C: XFromIter<T>>(self) -> (r: C) ensures r.is_from(self@) { C::x_from_iter(self) } }
pub trait XVecExt<T> { spec fn seq_v(&self) -> Seq<T>; fn x_iter<'a>(&'a self) -> (r: XIter<&'a T>) ensures r@ == refs::<T>(self.seq_v()); fn x_is_empty(&self) -> (r: bool) ensures r == (self.seq_v().len() == 0);
    fn x_first<'a>(&'a self) -> (r: Option<&'a T>) ensures r == (if self.seq_v().len() == 0 { None } else { Some(&self.seq_v()[0]) }); }
impl<T> XVecExt<T> for Vec<T> { open spec fn seq_v(&self) -> Seq<T> { self@ } #[verifier::external_body] fn x_iter<'a>(&'a self) -> (r: XIter<&'a T>) { unimplemented!() } #[verifier::external_body] fn x_is_empty(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn x_first<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() } }
pub trait XVecMut<T>: Sized { spec fn seq_m(&self) -> Seq<T>;
    fn x_insert(&mut self, i: usize, t: T) requires i <= old(self).seq_m().len() ensures final(self).seq_m() == old(self).seq_m().insert(i as int, t);
    fn x_remove(&mut self, i: usize) -> (r: T) requires i < old(self).seq_m().len() ensures r == old(self).seq_m()[i as int], final(self).seq_m() == old(self).seq_m().remove(i as int);
    fn x_extend<I: XIntoIter<T>>(&mut self, it: I) ensures final(self).seq_m() == old(self).seq_m() + it.seq_s(); }
impl<T> XVecMut<T> for Vec<T> { open spec fn seq_m(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn x_insert(&mut self, i: usize, t: T) { unimplemented!() }
    #[verifier::external_body] fn x_remove(&mut self, i: usize) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn x_extend<I: XIntoIter<T>>(&mut self, it: I) { unimplemented!() } }
#[verifier::external_body] pub fn x_get_mut<'a, T>(v: &'a mut Vec<T>, i: usize) -> (r: &'a mut T) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
#[verifier::external_body] pub fn x_vec1<T>(a: T) -> (r: Vec<T>) ensures r@ == seq![a] { unimplemented!() }
#[verifier::external_body] pub fn x_vec2<T>(a: T, b: T) -> (r: Vec<T>) ensures r@ == seq![a, b] { unimplemented!() }
#[verifier::external_body] pub fn x_vec3<T>(a: T, b: T, c: T) -> (r: Vec<T>) ensures r@ == seq![a, b, c] { unimplemented!() }
#[verifier::external_body] pub fn x_vec4<T>(a: T, b: T, c: T, d: T) -> (r: Vec<T>) ensures r@ == seq![a, b, c, d] { unimplemented!() }
pub uninterp spec fn empty_vec<T>() -> Vec<T>;
pub broadcast axiom fn axiom_empty_vec<T>() ensures (#[trigger] empty_vec::<T>())@ == Seq::<T>::empty();
impl<T> XDefault for Vec<T> { open spec fn default_s() -> Vec<T> { empty_vec() } #[verifier::external_body] fn x_default() -> (r: Vec<T>) { unimplemented!() } }
#[verifier::external_body] pub fn x_take<T: XDefault>(t: &mut T) -> (r: T) ensures r == *old(t), *final(t) == T::default_s() { unimplemented!() }
#[verifier::external_body] pub fn x_mem_replace<T>(t: &mut T, u: T) -> (r: T) ensures r == *old(t), *final(t) == u { unimplemented!() }
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct XDeque<T> { v: Vec<T> }
impl<T> XDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn new() -> (r: XDeque<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body] pub fn push_front(&mut self, t: T) ensures final(self)@ == seq![t] + old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn x_remove(&mut self, i: usize) -> (r: Option<T>)
        ensures i < old(self)@.len() ==> r == Some(old(self)@[i as int]) && final(self)@ == old(self)@.remove(i as int), i >= old(self)@.len() ==> r is None && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn swap_remove_back(&mut self, i: usize) -> (r: Option<T>)
        ensures i < old(self)@.len() ==> r == Some(old(self)@[i as int]) && final(self)@ == old(self)@.update(i as int, old(self)@.last()).drop_last(), i >= old(self)@.len() ==> r is None && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn swap_remove_front(&mut self, i: usize) -> (r: Option<T>)
        ensures i < old(self)@.len() ==> r == Some(old(self)@[i as int]) && final(self)@ == old(self)@.update(i as int, old(self)@[0]).skip(1), i >= old(self)@.len() ==> r is None && final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn x_iter<'a>(&'a self) -> (r: XIter<&'a T>) ensures r@ == refs(self@) { unimplemented!() }
    #[verifier::external_body] pub fn x_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
}
use xcore::*;
broadcast use {xcore::axiom_xstr_ext, xcore::axiom_xlit, xcore::axiom_xs, xcore::axiom_str_cat, xcore::axiom_empty_vec};
