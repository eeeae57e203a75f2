// Name comparison: the order of directory entries.
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::OrdSpec;
use core::cmp::Ordering;
//@file xdvdfs-core/src/util.rs

/// the letter case rule: only ASCII letters fold
pub open spec fn fold_char(c: char) -> char {
    if 'a' <= c && c <= 'z' { ((c as u32 - 32) as u8) as char } else { c }
}
pub open spec fn fold(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| fold_char(c)) }

pub open spec fn ord_char(a: char, b: char) -> Ordering {
    if (a as u32) < (b as u32) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
/// lexicographic order by code point
pub open spec fn ord_seq(a: Seq<char>, b: Seq<char>) -> Ordering
    decreases a.len(),
{
    if a.len() == 0 && b.len() == 0 { Ordering::Equal }
    else if a.len() == 0 { Ordering::Less }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] != b[0] { ord_char(a[0], b[0]) }
    else { ord_seq(a.drop_first(), b.drop_first()) }
}
/// the order of names: by code point, ASCII letters as if in upper case
pub open spec fn name_ord(a: Seq<char>, b: Seq<char>) -> Ordering { ord_seq(fold(a), fold(b)) }

/// std documents: "ASCII letters 'a' to 'z' are mapped to 'A' to 'Z', but non-ASCII letters are unchanged"
pub assume_specification [char::to_ascii_uppercase] (c: &char) -> (r: char)
    ensures r == fold_char(*c);

/// chars compare by code point
#[verifier::external_body]
pub proof fn axiom_char_cmp()
    ensures
        <char as OrdSpec>::obeys_cmp_spec(),
        forall|a: char, b: char| #[trigger] OrdSpec::cmp_spec(&a, &b) == ord_char(a, b),
{
}

//@fn cmp_ignore_case_utf8
//@ret r
//@spec
    ensures r == name_ord(a@, b@),
//@sub .map(|c| __1) ==> .map(|c: char| -> (vx_r: char) ensures vx_r == fold_char(c) { __1 })
//@beforeloop 0
    // `remaining` is prophetic: the elements that will be returned, which are the folded characters of the
    // name, all of them once the iterator has returned None
    let ghost a_all = a_chars.remaining();
    let ghost b_all = b_chars.remaining();
    let ghost mut k: int = 0;
    proof {
        assert(fold(a@).skip(0) =~= fold(a@));
        assert(fold(b@).skip(0) =~= fold(b@));
    }
//@loop 0 loop
        invariant
            a_chars.obeys_prophetic_iter_laws(), b_chars.obeys_prophetic_iter_laws(),
            a_chars.decrease() is Some,
            0 <= k <= a_all.len(), k <= b_all.len(),
            a_all.len() <= a@.len(), b_all.len() <= b@.len(),
            a_chars.will_return_none() ==> a_all.len() == a@.len(),
            b_chars.will_return_none() ==> b_all.len() == b@.len(),
            forall|i: int| 0 <= i < a_all.len() ==> #[trigger] a_all[i] == fold(a@)[i],
            forall|i: int| 0 <= i < b_all.len() ==> #[trigger] b_all[i] == fold(b@)[i],
            a_chars.remaining() =~= a_all.skip(k),
            b_chars.remaining() =~= b_all.skip(k),
            ord_seq(fold(a@).skip(k), fold(b@).skip(k)) == name_ord(a@, b@),
        decreases a_chars.decrease()->Some_0,
//@loopstart 0
        proof {
            axiom_char_cmp();
            assert(k < a@.len() ==> fold(a@).skip(k).drop_first() =~= fold(a@).skip(k + 1));
            assert(k < b@.len() ==> fold(b@).skip(k).drop_first() =~= fold(b@).skip(k + 1));
            k = k + 1;
        }
//@end

// ---- the order is total, and equality in it is equality up to ASCII case
pub proof fn ord_refl(a: Seq<char>)
    ensures ord_seq(a, a) == Ordering::Equal,
    decreases a.len(),
{
    if a.len() > 0 { ord_refl(a.drop_first()); }
}
pub proof fn ord_equal(a: Seq<char>, b: Seq<char>)
    requires ord_seq(a, b) == Ordering::Equal,
    ensures a == b,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        ord_equal(a.drop_first(), b.drop_first());
        assert(a =~= seq![a[0]] + a.drop_first());
        assert(b =~= seq![b[0]] + b.drop_first());
    } else {
        assert(a =~= b);
    }
}
pub open spec fn flip(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub proof fn ord_flip(a: Seq<char>, b: Seq<char>)
    ensures ord_seq(b, a) == flip(ord_seq(a, b)),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 { ord_flip(a.drop_first(), b.drop_first()); }
}
pub proof fn ord_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires ord_seq(a, b) == Ordering::Less, ord_seq(b, c) == Ordering::Less,
    ensures ord_seq(a, c) == Ordering::Less,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        if a[0] == b[0] && b[0] == c[0] { ord_trans(a.drop_first(), b.drop_first(), c.drop_first()); }
    }
}
