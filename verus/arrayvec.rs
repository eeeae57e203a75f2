//@deps strings
// The fixed-capacity string of the arrayvec crate, a dependency: assumed contract.
use crate::strings::*;
use vstd::utf8::*;
/// length in bytes of the UTF-8 form
pub open spec fn utf8_len(s: Seq<char>) -> nat { encode_utf8(s).len() }
pub proof fn axiom_utf8_len(s: Seq<char>)
    ensures utf8_len(s) >= s.len(),
{
    utf8_at_least(s);
}

#[verifier::external_body]
pub struct CapacityError { e: u8 }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct ArrayString<const N: usize> { b: [u8; N], n: u32 }
impl<const N: usize> ArrayString<N> {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from(s: &str) -> (r: Result<ArrayString<N>, CapacityError>)
        ensures
            r is Ok ==> r->Ok_0@ == s@ && utf8_len(s@) <= N,
            r is Err ==> utf8_len(s@) > N,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str)
        ensures r@ == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == utf8_len(self@), r <= N,
    { unimplemented!() }
}
