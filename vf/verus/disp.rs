// ---- Display of numbers and strings (format!) ------------------------------------------------------------------------
pub mod xdisp {
use super::*;
pub open spec fn digit(n: nat) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' } }
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
pub proof fn lemma_dec_len(n: nat) ensures dec(n).len() > 0 decreases n { if n >= 10 { lemma_dec_len(n / 10); } }
pub proof fn lemma_dec_inj(a: nat, b: nat) requires dec(a) == dec(b) ensures a == b decreases a + b
{
    lemma_dec_len(a / 10); lemma_dec_len(b / 10);
    if a < 10 && b < 10 { assert(dec(a)[0] == digit(a)); assert(dec(b)[0] == digit(b)); }
    else if a < 10 { assert(dec(b).len() == dec(b / 10).len() + 1); assert(dec(a).len() == 1); }
    else if b < 10 { assert(dec(a).len() == dec(a / 10).len() + 1); assert(dec(b).len() == 1); }
    else {
        assert(dec(a).drop_last() =~= dec(a / 10)); assert(dec(b).drop_last() =~= dec(b / 10));
        assert(dec(a).last() == digit(a % 10)); assert(dec(b).last() == digit(b % 10));
        lemma_dec_inj(a / 10, b / 10);
        assert(a % 10 == b % 10);
    }
}
pub trait XDisp { spec fn disp_s(&self) -> Seq<char>; fn x_disp(&self) -> (r: XStr) ensures r@ == self.disp_s(); }
impl XDisp for XStr { open spec fn disp_s(&self) -> Seq<char> { self@ } #[verifier::external_body] fn x_disp(&self) -> (r: XStr) { unimplemented!() } }
impl<'a, T: XDisp> XDisp for &'a T { open spec fn disp_s(&self) -> Seq<char> { (**self).disp_s() } fn x_disp(&self) -> (r: XStr) { (**self).x_disp() } }
impl XDisp for usize { open spec fn disp_s(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn x_disp(&self) -> (r: XStr) { unimplemented!() } }
impl XDisp for i32 { uninterp spec fn disp_s(&self) -> Seq<char>; #[verifier::external_body] fn x_disp(&self) -> (r: XStr) { unimplemented!() } }
#[verifier::external_body] pub fn x_cat(a: XStr, b: XStr) -> (r: XStr) ensures r@ == a@ + b@ { unimplemented!() }
}
use xdisp::*;
