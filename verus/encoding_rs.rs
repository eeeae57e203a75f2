//@deps records
// The encoder of the encoding_rs crate, a dependency: assumed contract. That windows-1252 maps every byte to
// a character and back, and nothing else, is checked exhaustively on the compiled crate (harness, suite c11).
use crate::records::*;
/// the bytes of a name, if every character has one
pub uninterp spec fn enc1252(s: Seq<char>) -> Option<Seq<u8>>;

pub enum EncoderResult { InputEmpty, OutputFull, Unmappable(char) }
#[verifier::external_body]
pub struct Encoder { e: u8 }
impl Encoder {
    #[verifier::external_body]
    pub fn encode_from_utf8_without_replacement(&mut self, src: &str, dst: &mut [u8], last: bool) -> (r: (EncoderResult, usize, usize))
        ensures
            final(dst)@.len() == old(dst)@.len(),
            r.2 <= old(dst)@.len(),
            r.0 is InputEmpty ==> enc1252(src@) == Some(final(dst)@.subrange(0, r.2 as int)) && r.1 == crate::arrayvec::utf8_len(src@),
            r.0 is Unmappable ==> enc1252(src@) is None,
            // encoding_rs: a single-byte encoding never needs more room than the UTF-8 form
            r.0 is OutputFull ==> old(dst)@.len() < crate::arrayvec::utf8_len(src@),
    { unimplemented!() }
}
impl Vx1252 {
    #[verifier::external_body]
    pub fn new_encoder(&self) -> (r: Encoder)
    { unimplemented!() }
}
/// every byte stands for one character: decoding what was encoded gives the name back
#[verifier::external_body]
pub proof fn axiom_1252_round_trip(s: Seq<char>)
    ensures enc1252(s) is Some ==> enc1252(s)->Some_0.len() == s.len() && dec1252(enc1252(s)->Some_0) == Some(s),
{
}
