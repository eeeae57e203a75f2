// Strings: their bytes and their order.
use vstd::utf8::*;

/// the order of byte strings
pub open spec fn bytes_lt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases b.len(),
{
    if b.len() == 0 { false }
    else if a.len() == 0 { true }
    else { a[0] < b[0] || (a[0] == b[0] && bytes_lt(a.drop_first(), b.drop_first())) }
}
/// the order of `str`: that of its bytes
pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool { bytes_lt(encode_utf8(a), encode_utf8(b)) }
pub proof fn bytes_lt_irreflexive(a: Seq<u8>)
    ensures !bytes_lt(a, a),
    decreases a.len(),
{
    if a.len() > 0 { bytes_lt_irreflexive(a.drop_first()); }
}
pub proof fn bytes_lt_transitive(a: Seq<u8>, b: Seq<u8>, d: Seq<u8>)
    requires bytes_lt(a, b), bytes_lt(b, d),
    ensures bytes_lt(a, d),
    decreases d.len(),
{
    if a.len() > 0 && a[0] == b[0] && b[0] == d[0] { bytes_lt_transitive(a.drop_first(), b.drop_first(), d.drop_first()); }
}
pub proof fn str_lt_irreflexive(a: Seq<char>)
    ensures !str_lt(a, a),
{
    bytes_lt_irreflexive(encode_utf8(a));
}
pub proof fn str_lt_transitive(a: Seq<char>, b: Seq<char>, d: Seq<char>)
    requires str_lt(a, b), str_lt(b, d),
    ensures str_lt(a, d),
{
    bytes_lt_transitive(encode_utf8(a), encode_utf8(b), encode_utf8(d));
}
/// a string has at least as many bytes as characters
pub proof fn utf8_at_least(s: Seq<char>)
    ensures encode_utf8(s).len() >= s.len(),
    decreases s.len(),
{
    reveal_with_fuel(encode_utf8, 2);
    if s.len() > 0 { utf8_at_least(s.drop_first()); }
}
