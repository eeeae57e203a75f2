//@deps filetree btree
// The checksum of an image: what is fed to the digest.
use crate::{bincode, layout, util};
use crate::blockdev::*;
use crate::layout::*;
use crate::codec::*;
use crate::records::*;
use crate::lookup::*;
use crate::walk::*;
use crate::filetree::*;
use crate::strings::*;
use crate::btree::*;
use vstd::utf8::*;

pub assume_specification [alloc::string::String::as_bytes] (s: &alloc::string::String) -> (r: &[u8])
    ensures r@ == encode_utf8(s@);

/// the digest (sha3, a dependency)
pub uninterp spec fn sha3(d: Seq<u8>) -> Seq<u8>;
pub trait VxBytes { spec fn b(&self) -> Seq<u8>; }
impl<'a> VxBytes for &'a [u8] { open spec fn b(&self) -> Seq<u8> { self@ } }
impl VxBytes for Box<[u8]> { open spec fn b(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub struct Sha3_256 { v: Vec<u8> }
impl Sha3_256 {
    /// what has been fed so far
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@.len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn update<T: VxBytes>(&mut self, d: T)
        ensures final(self)@ == old(self)@ + d.b(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: [u8; 32])
        ensures r@ == sha3(self@),
    { unimplemented!() }
}
impl PathKey for String {
    open spec fn p(&self) -> Path { seq![self@] }
}

/// the image has an entry with the full path `k`, stored at `pos`
pub open spec fn at_place(c: Seq<u8>, root: DirectoryEntryTable, n: nat, p: Seq<char>, tab: DirectoryEntryTable, o: int, k: Seq<char>, pos: int) -> bool {
    &&& reach(c, root, n, p, tab)
    &&& listed(c, tab, o)
    &&& dname(c, tab, o) is Some
    &&& k == joined(p, dname(c, tab, o)->Some_0)
    &&& pos == tab.region.start() + o
}
pub open spec fn named(c: Seq<u8>, root: DirectoryEntryTable, k: Seq<char>, pos: int) -> bool {
    exists|n: nat, p: Seq<char>, tab: DirectoryEntryTable, o: int| #[trigger] at_place(c, root, n, p, tab, o, k, pos)
}
/// no two entries have the same path
pub open spec fn distinct(c: Seq<u8>, root: DirectoryEntryTable) -> bool {
    forall|k: Seq<char>, a: int, b: int| #[trigger] named(c, root, k, a) && #[trigger] named(c, root, k, b) ==> a == b
}
pub open spec fn file_bytes(d: DirectoryEntryDiskData, c: Seq<u8>) -> Seq<u8> { if d.data.size == 0 { Seq::empty() } else { d.bytes(c) } }
/// what an entry contributes
pub open spec fn body(c: Seq<u8>, pos: int) -> Seq<u8> {
    if node_at(c, pos).dirent.attributes.spec_directory() { Seq::empty() } else { file_bytes(node_at(c, pos).dirent, c) }
}
pub open spec fn piece(c: Seq<u8>, x: (Seq<char>, int)) -> Seq<u8> { encode_utf8(x.0) + body(c, x.1) }
pub open spec fn flat(c: Seq<u8>, s: Seq<(Seq<char>, int)>, n: int) -> Seq<u8>
    decreases n,
{
    if n <= 0 { Seq::empty() } else { flat(c, s, n - 1) + piece(c, s[n - 1]) }
}
/// `s` is the list of all entries, in ascending order of their paths
pub open spec fn all_entries(c: Seq<u8>, root: DirectoryEntryTable, s: Seq<(Seq<char>, int)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> named(c, root, (#[trigger] s[i]).0, s[i].1)
    &&& forall|k: Seq<char>, pos: int| #[trigger] named(c, root, k, pos) ==> s.contains((k, pos))
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> str_lt((#[trigger] s[i]).0, (#[trigger] s[j]).0)
}
/// what is fed to the digest for this image
pub open spec fn is_feed(c: Seq<u8>, root: DirectoryEntryTable, d: Seq<u8>) -> bool {
    exists|s: Seq<(Seq<char>, int)>| #[trigger] all_entries(c, root, s) && d == flat(c, s, s.len() as int)
}

// ---- the digest depends on the tree only
/// the two images hold the same tree
pub open spec fn same_tree(c1: Seq<u8>, r1: DirectoryEntryTable, c2: Seq<u8>, r2: DirectoryEntryTable) -> bool {
    &&& same_paths(c1, r1, c2, r2)
    &&& forall|k: Seq<char>, a: int, b: int| #[trigger] named(c1, r1, k, a) && #[trigger] named(c2, r2, k, b) ==> body(c1, a) == body(c2, b)
}
pub open spec fn same_paths(c1: Seq<u8>, r1: DirectoryEntryTable, c2: Seq<u8>, r2: DirectoryEntryTable) -> bool {
    &&& forall|k: Seq<char>, a: int| #[trigger] named(c1, r1, k, a) ==> exists|b: int| #[trigger] named(c2, r2, k, b)
    &&& forall|k: Seq<char>, b: int| #[trigger] named(c2, r2, k, b) ==> exists|a: int| #[trigger] named(c1, r1, k, a)
}
proof fn key_at(c1: Seq<u8>, r1: DirectoryEntryTable, s1: Seq<(Seq<char>, int)>, c2: Seq<u8>, r2: DirectoryEntryTable, s2: Seq<(Seq<char>, int)>, i: int) -> (j: int)
    requires
        all_entries(c1, r1, s1), all_entries(c2, r2, s2), same_paths(c1, r1, c2, r2), 0 <= i < s1.len(),
    ensures 0 <= j < s2.len(), s2[j].0 == s1[i].0,
{
    let k = s1[i].0;
    assert(named(c1, r1, k, s1[i].1));
    let b = choose|b: int| #[trigger] named(c2, r2, k, b);
    assert(s2.contains((k, b)));
    s2.index_of((k, b))
}
proof fn same_keys(c1: Seq<u8>, r1: DirectoryEntryTable, s1: Seq<(Seq<char>, int)>, c2: Seq<u8>, r2: DirectoryEntryTable, s2: Seq<(Seq<char>, int)>, i: int)
    requires
        all_entries(c1, r1, s1), all_entries(c2, r2, s2), same_paths(c1, r1, c2, r2),
        0 <= i < s1.len(),
    ensures i < s2.len() && s1[i].0 == s2[i].0,
    decreases i,
{
    if i > 0 { same_keys(c1, r1, s1, c2, r2, s2, i - 1); }
    let j = key_at(c1, r1, s1, c2, r2, s2, i);
    str_lt_irreflexive(s1[i].0);
    if j < i {
        same_keys(c1, r1, s1, c2, r2, s2, j);
        assert(str_lt(s1[j].0, s1[i].0));
    } else if j > i {
        // then the i-th of the second list is in the first one, before or after
        assert(str_lt(s2[i].0, s2[j].0));
        let h = key_at(c2, r2, s2, c1, r1, s1, i);
        if h < i {
            same_keys(c1, r1, s1, c2, r2, s2, h);
            assert(str_lt(s2[h].0, s2[i].0));
            str_lt_irreflexive(s2[i].0);
        } else if h > i {
            assert(str_lt(s1[i].0, s1[h].0));
            str_lt_transitive(s1[i].0, s1[h].0, s2[j].0);
        }
    }
}
pub proof fn same_order(c1: Seq<u8>, r1: DirectoryEntryTable, s1: Seq<(Seq<char>, int)>, c2: Seq<u8>, r2: DirectoryEntryTable, s2: Seq<(Seq<char>, int)>)
    requires
        all_entries(c1, r1, s1), all_entries(c2, r2, s2), same_paths(c1, r1, c2, r2),
    ensures
        s1.len() == s2.len(),
        forall|i: int| 0 <= i < s1.len() ==> (#[trigger] s1[i]).0 == s2[i].0,
{
    assert forall|i: int| 0 <= i < s1.len() implies (#[trigger] s1[i]).0 == s2[i].0 by { same_keys(c1, r1, s1, c2, r2, s2, i); }
    if s1.len() > 0 { same_keys(c1, r1, s1, c2, r2, s2, s1.len() - 1); }
    if s2.len() > 0 { same_keys(c2, r2, s2, c1, r1, s1, s2.len() - 1); }
}
pub proof fn flat_equal(c1: Seq<u8>, s1: Seq<(Seq<char>, int)>, c2: Seq<u8>, s2: Seq<(Seq<char>, int)>, n: int)
    requires
        0 <= n <= s1.len(), n <= s2.len(),
        forall|i: int| 0 <= i < n ==> piece(c1, #[trigger] s1[i]) == piece(c2, s2[i]),
    ensures flat(c1, s1, n) == flat(c2, s2, n),
    decreases n,
{
    if n > 0 { flat_equal(c1, s1, c2, s2, n - 1); assert(piece(c1, s1[n - 1]) == piece(c2, s2[n - 1])); }
}
/// Whatever their layout, images holding the same tree feed the same bytes to the digest.
pub proof fn layout_independent(c1: Seq<u8>, r1: DirectoryEntryTable, d1: Seq<u8>, c2: Seq<u8>, r2: DirectoryEntryTable, d2: Seq<u8>)
    requires is_feed(c1, r1, d1), is_feed(c2, r2, d2), same_tree(c1, r1, c2, r2),
    ensures d1 == d2,
{
    let s1 = choose|s: Seq<(Seq<char>, int)>| #[trigger] all_entries(c1, r1, s) && d1 == flat(c1, s, s.len() as int);
    let s2 = choose|s: Seq<(Seq<char>, int)>| #[trigger] all_entries(c2, r2, s) && d2 == flat(c2, s, s.len() as int);
    same_order(c1, r1, s1, c2, r2, s2);
    assert forall|i: int| 0 <= i < s1.len() implies piece(c1, #[trigger] s1[i]) == piece(c2, s2[i]) by {
        assert(named(c1, r1, s1[i].0, s1[i].1));
        assert(named(c2, r2, s2[i].0, s2[i].1));
    }
    flat_equal(c1, s1, c2, s2, s1.len() as int);
}
proof fn flat_differs(c1: Seq<u8>, s1: Seq<(Seq<char>, int)>, c2: Seq<u8>, s2: Seq<(Seq<char>, int)>, n: int, i: int)
    requires
        0 <= i < n <= s1.len(), n <= s2.len(),
        forall|j: int| 0 <= j < n ==> piece(c1, #[trigger] s1[j]).len() == piece(c2, s2[j]).len(),
        piece(c1, s1[i]) != piece(c2, s2[i]),
    ensures flat(c1, s1, n) != flat(c2, s2, n), flat(c1, s1, n).len() == flat(c2, s2, n).len(),
    decreases n,
{
    flat_lens(c1, s1, c2, s2, n - 1);
    assert(piece(c1, s1[n - 1]).len() == piece(c2, s2[n - 1]).len());
    let f1 = flat(c1, s1, n - 1); let f2 = flat(c2, s2, n - 1);
    let g1 = flat(c1, s1, n); let g2 = flat(c2, s2, n);
    assert(g1.subrange(0, f1.len() as int) =~= f1);
    assert(g2.subrange(0, f2.len() as int) =~= f2);
    assert(g1.subrange(f1.len() as int, g1.len() as int) =~= piece(c1, s1[n - 1]));
    assert(g2.subrange(f2.len() as int, g2.len() as int) =~= piece(c2, s2[n - 1]));
    if i < n - 1 { flat_differs(c1, s1, c2, s2, n - 1, i); }
}
proof fn flat_lens(c1: Seq<u8>, s1: Seq<(Seq<char>, int)>, c2: Seq<u8>, s2: Seq<(Seq<char>, int)>, n: int)
    requires
        0 <= n <= s1.len(), n <= s2.len(),
        forall|j: int| 0 <= j < n ==> piece(c1, #[trigger] s1[j]).len() == piece(c2, s2[j]).len(),
    ensures flat(c1, s1, n).len() == flat(c2, s2, n).len(),
    decreases n,
{
    if n > 0 { flat_lens(c1, s1, c2, s2, n - 1); assert(piece(c1, s1[n - 1]).len() == piece(c2, s2[n - 1]).len()); }
}
pub open spec fn same_sizes(c1: Seq<u8>, r1: DirectoryEntryTable, c2: Seq<u8>, r2: DirectoryEntryTable) -> bool {
    forall|k: Seq<char>, a: int, b: int| #[trigger] named(c1, r1, k, a) && #[trigger] named(c2, r2, k, b) ==> body(c1, a).len() == body(c2, b).len()
}
proof fn lens(c1: Seq<u8>, r1: DirectoryEntryTable, k: Seq<char>, a: int, c2: Seq<u8>, r2: DirectoryEntryTable, b: int)
    requires same_sizes(c1, r1, c2, r2), named(c1, r1, k, a), named(c2, r2, k, b),
    ensures piece(c1, (k, a)).len() == piece(c2, (k, b)).len(),
{
}
/// Images with the same paths and sizes that differ in a byte of a file feed different bytes.
pub proof fn contents_matter(c1: Seq<u8>, r1: DirectoryEntryTable, d1: Seq<u8>, c2: Seq<u8>, r2: DirectoryEntryTable, d2: Seq<u8>, k: Seq<char>, a: int, b: int)
    requires
        is_feed(c1, r1, d1), is_feed(c2, r2, d2), same_paths(c1, r1, c2, r2),
        same_sizes(c1, r1, c2, r2),
        named(c1, r1, k, a), named(c2, r2, k, b), body(c1, a) != body(c2, b),
    ensures d1 != d2,
{
    let s1 = choose|s: Seq<(Seq<char>, int)>| #[trigger] all_entries(c1, r1, s) && d1 == flat(c1, s, s.len() as int);
    let s2 = choose|s: Seq<(Seq<char>, int)>| #[trigger] all_entries(c2, r2, s) && d2 == flat(c2, s, s.len() as int);
    same_order(c1, r1, s1, c2, r2, s2);
    assert forall|j: int| 0 <= j < s1.len() implies piece(c1, #[trigger] s1[j]).len() == piece(c2, s2[j]).len() by {
        assert(named(c1, r1, s1[j].0, s1[j].1));
        assert(named(c2, r2, s2[j].0, s2[j].1));
        lens(c1, r1, s1[j].0, s1[j].1, c2, r2, s2[j].1);
    }
    let i = same_spot(c1, r1, s1, a, c2, r2, s2, b, k);
    piece_differs(c1, s1[i], c2, s2[i]);
    flat_differs(c1, s1, c2, s2, s1.len() as int, i);
}
proof fn piece_differs(c1: Seq<u8>, x: (Seq<char>, int), c2: Seq<u8>, y: (Seq<char>, int))
    requires x.0 == y.0, body(c1, x.1) != body(c2, y.1),
    ensures piece(c1, x) != piece(c2, y),
{
    let u = encode_utf8(x.0);
    assert(piece(c1, x).subrange(u.len() as int, piece(c1, x).len() as int) =~= body(c1, x.1));
    assert(piece(c2, y).subrange(u.len() as int, piece(c2, y).len() as int) =~= body(c2, y.1));
}
proof fn same_spot(c1: Seq<u8>, r1: DirectoryEntryTable, s1: Seq<(Seq<char>, int)>, a: int, c2: Seq<u8>, r2: DirectoryEntryTable, s2: Seq<(Seq<char>, int)>, b: int, k: Seq<char>) -> (i: int)
    requires
        all_entries(c1, r1, s1), all_entries(c2, r2, s2), named(c1, r1, k, a), named(c2, r2, k, b),
        s1.len() == s2.len(),
        forall|i: int| 0 <= i < s1.len() ==> (#[trigger] s1[i]).0 == s2[i].0,
    ensures 0 <= i < s1.len(), s1[i] == (k, a), s2[i] == (k, b),
{
    assert(s1.contains((k, a)));
    let i = s1.index_of((k, a));
    assert(s2.contains((k, b)));
    let j = s2.index_of((k, b));
    str_lt_irreflexive(k);
    if j < i { assert(s1[j].0 == s2[j].0); assert(str_lt(s1[j].0, s1[i].0)); }
    if j > i { assert(s1[i].0 == s2[i].0); assert(str_lt(s2[i].0, s2[j].0)); }
    i
}

// ---- the function
pub open spec fn keyed(x: (String, DirectoryEntryNode)) -> Path { seq![joined(x.0@, dec1252(x.1.nm())->Some_0)] }
/// the map holds the first `k` items of the list
pub open spec fn gathered(m: Map<Path, DirectoryEntryNode>, v: Seq<(String, DirectoryEntryNode)>, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k ==> dec1252((#[trigger] v[i]).1.nm()) is Some && m.contains_key(keyed(v[i]))
    &&& forall|q: Path| #[trigger] m.contains_key(q) ==> exists|i: int| 0 <= i < k && q == keyed(#[trigger] v[i]) && m[q] == v[i].1
}
proof fn gather_one(m: Map<Path, DirectoryEntryNode>, v: Seq<(String, DirectoryEntryNode)>, k: int)
    requires gathered(m, v, k), 0 <= k < v.len(), dec1252(v[k].1.nm()) is Some,
    ensures gathered(m.insert(keyed(v[k]), v[k].1), v, k + 1),
{
    let m2 = m.insert(keyed(v[k]), v[k].1);
    assert forall|q: Path| #[trigger] m2.contains_key(q) implies exists|i: int| 0 <= i < k + 1 && q == keyed(#[trigger] v[i]) && m2[q] == v[i].1 by {
        if q == keyed(v[k]) { } else { assert(m.contains_key(q)); }
    }
}
pub open spec fn listing_of(es: Seq<(String, DirectoryEntryNode)>) -> Seq<(Seq<char>, int)> { es.map_values(|e: (String, DirectoryEntryNode)| (e.0@, e.1.offset as int)) }
proof fn item_named(c: Seq<u8>, root: DirectoryEntryTable, x: (String, DirectoryEntryNode))
    requires item_ok(c, root, x), dec1252(x.1.nm()) is Some,
    ensures named(c, root, keyed(x)[0], x.1.offset as int), x.1.node == node_at(c, x.1.offset as int),
{
    let tab = choose|tab: DirectoryEntryTable| #[trigger] reachable(c, root, x.0@, tab) && listed(c, tab, x.1.offset - tab.region.start()) && entry_at(x.1, c, x.1.offset as int);
    let n = choose|n: nat| #[trigger] reach(c, root, n, x.0@, tab);
    assert(at_place(c, root, n, x.0@, tab, x.1.offset - tab.region.start(), keyed(x)[0], x.1.offset as int));
}
/// the sorted map is the list of all entries
proof fn complete(c: Seq<u8>, root: DirectoryEntryTable, v: Seq<(String, DirectoryEntryNode)>, m: Map<Path, DirectoryEntryNode>, es: Seq<(String, DirectoryEntryNode)>)
    requires
        gathered(m, v, v.len() as int), in_key_order(es, m), distinct(c, root),
        forall|n: nat, p: Seq<char>, tab: DirectoryEntryTable, o: int| #[trigger] reach(c, root, n, p, tab) && #[trigger] listed(c, tab, o) ==> has_item(c, v, p, tab.region.start() + o),
        forall|i: int| 0 <= i < v.len() ==> item_ok(c, root, #[trigger] v[i]),
    ensures
        all_entries(c, root, listing_of(es)),
        forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).1.node == node_at(c, es[i].1.offset as int),
{
    let s = listing_of(es);
    assert forall|i: int| 0 <= i < s.len() implies named(c, root, (#[trigger] s[i]).0, s[i].1) && es[i].1.node == node_at(c, es[i].1.offset as int) by {
        let q = es[i].0.p();
        assert(m.contains_key(q));
        let j = choose|j: int| 0 <= j < v.len() && q == keyed(#[trigger] v[j]) && m[q] == v[j].1;
        assert(q[0] == es[i].0@);
        item_named(c, root, v[j]);
    }
    assert forall|k: Seq<char>, pos: int| #[trigger] named(c, root, k, pos) implies s.contains((k, pos)) by {
        let (n, p, tab, o) = choose|n: nat, p: Seq<char>, tab: DirectoryEntryTable, o: int| #[trigger] at_place(c, root, n, p, tab, o, k, pos);
        assert(has_item(c, v, p, tab.region.start() + o));
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == p && v[i].1.offset == pos && entry_at(v[i].1, c, pos);
        let q = keyed(v[i]);
        assert(q[0] == k);
        assert(m.contains_key(q));
        let e = choose|e: int| 0 <= e < es.len() && (#[trigger] es[e]).0.p() == q;
        assert(es[e].0.p()[0] == k);
        assert(s[e].0 == k);
        assert(named(c, root, k, s[e].1));
        assert(s[e] == (k, pos));
    }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies str_lt((#[trigger] s[i]).0, (#[trigger] s[j]).0) by {
        reveal_with_fuel(path_lt, 2);
        assert(path_lt(es[i].0.p(), es[j].0.p()));
        assert(es[i].0.p()[0] == s[i].0); assert(es[j].0.p()[0] == s[j].0);
        assert(es[i].0.p().drop_first().len() == 0 && es[j].0.p().drop_first().len() == 0);
    }
}

//@file xdvdfs-core/src/checksum.rs
//@fn checksum
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub alloc::format!("{}/{}", dir, __1) ==> vx_join(&dir, &__1)
//@sub for (dir, file) in tree { ==> for (dir, file) in vx_i: tree {
//@sub for (path, file) in iter { ==> let mut vx_it = iter.vx_into_iter(); while let Some((path, file)) = vx_it.next() {
//@sub bytes[..] .try_into() .expect(__1) ==> bytes
//@spec
    requires
        old(dev).dev_ok(),
        old(dev).max_offset() >= MAX_OFFSET,
    ensures
        final(dev).dev_ok(),
        final(dev).max_offset() == old(dev).max_offset(),
        final(dev).contents() == old(dev).contents(),
        r is Ok && all_trees(old(dev).contents(), volume.root_table) && distinct(old(dev).contents(), volume.root_table) ==>
            exists|d: Seq<u8>| #[trigger] is_feed(old(dev).contents(), volume.root_table, d) && r->Ok_0@ == sha3(d),
//@beforeloop 0
    let ghost c = dev.contents();
    let ghost root = volume.root_table;
    let ghost good = all_trees(c, root) && distinct(c, root);
    let ghost v = tree@;
//@loop 0 for
        invariant
            dev.dev_ok(), dev.max_offset() == old(dev).max_offset(), dev.max_offset() >= MAX_OFFSET,
            dev.contents() == old(dev).contents(),
            gathered(iter@, v, vx_i.index@ as int), hasher@.len() == 0, v == tree@,
//@loopstart 0
        let ghost m0 = iter@;
        let ghost k = vx_i.index@ as int;
//@loopend 0
        proof {
            assert(iter@ == m0.insert(seq![joined(dir@, dec1252(file.nm())->Some_0)], file));
            gather_one(m0, v, k);
        }
//@beforeloop 1
    let ghost m = iter@;
//@before while let
    let ghost es = vx_it.all();
    proof { if good { complete(c, root, v, m, es); } assert(hasher@ =~= flat(c, listing_of(es), 0)); }
//@loop 1 while
        invariant
            dev.dev_ok(), dev.max_offset() == old(dev).max_offset(), dev.max_offset() >= MAX_OFFSET,
            dev.contents() == old(dev).contents(), c == dev.contents(),
            es == vx_it.all(), 0 <= vx_it.pos() <= es.len(),
            good ==> hasher@ == flat(c, listing_of(es), vx_it.pos()),
            good ==> forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).1.node == node_at(c, es[i].1.offset as int),
        ensures
            vx_it.pos() == es.len(),
//@loopstart 1
        let ghost h0 = hasher@;
        let ghost k = vx_it.pos() - 1;
//@loopend 1
        proof {
            if good {
                assert(es[k].1.node == node_at(c, es[k].1.offset as int));
                assert(hasher@ =~= h0 + piece(c, listing_of(es)[k]));
            }
        }
//@before Ok(output)
    proof { if good { assert(all_entries(c, root, listing_of(es))); assert(is_feed(c, root, flat(c, listing_of(es), es.len() as int))); } }
//@end
