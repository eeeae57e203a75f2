// the serialization library's error type, opaque
#[verifier::external_body]
pub struct Error { e: Box<u8> }
