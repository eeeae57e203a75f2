//@deps dirent avlorder sector lookup
// Directory tables that are written: the entries, and the bytes made of them.
use crate::{arrayvec, avl, bincode, layout};
use crate::avl::*;
use crate::avlorder::*;
use crate::layout::*;
use crate::codec::*;
use crate::records::*;
use crate::names::*;
use crate::encoding_rs::*;
use crate::dirent::*;
use crate::sector::*;
use crate::lookup::*;
use alloc::{boxed::Box, string::String, vec::Vec};
use core::cmp::Ordering;
use vstd::std_specs::cmp::{OrdSpec, OrdSpecImpl, PartialEqSpecImpl, PartialOrdSpecImpl};

pub assume_specification<T> [<[T]>::rotate_right] (s: &mut [T], k: usize)
    requires k <= old(s)@.len(),
    ensures final(s)@ == old(s)@.subrange(old(s)@.len() - k, old(s)@.len() as int) + old(s)@.subrange(0, old(s)@.len() - k);
pub assume_specification<T: core::marker::Destruct> [bool::then_some] (b: bool, x: T) -> (r: Option<T>)
    ensures r == (if b { Some(x) } else { None });

// generated accessors, decided by Kani (kani/src/lib.rs: attribute_bits)
impl DirentAttributes {
    #[verifier::external_body]
    pub fn with_directory(self, v: bool) -> (r: DirentAttributes)
        ensures r.0 == (if v { self.0 | 0x10u8 } else { self.0 & 0xefu8 }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_archive(self, v: bool) -> (r: DirentAttributes)
        ensures r.0 == (if v { self.0 | 0x20u8 } else { self.0 & 0xdfu8 }),
    { unimplemented!() }
}

//@file xdvdfs-core/src/write/dirtab.rs
//@item struct DirectoryEntryTableWriter
//@item struct FileListingEntry
//@item struct DirectoryEntryTableDiskRepr

// ---- placement of records
/// filler before a record of length `l` that would start at `e`
pub open spec fn gap(e: int, l: int) -> int {
    if e % 2048 > 0 && sectors_of(e + l) > sectors_of(e) { 2048 - e % 2048 } else { 0 }
}
/// where record `i` starts, given the lengths of the records
pub open spec fn place(ls: Seq<int>, i: int) -> int
    decreases i,
{
    if i <= 0 { 0 } else { place(ls, i - 1) + ls[i - 1] + gap(place(ls, i - 1) + ls[i - 1], ls[i]) }
}
/// where the table ends that has the first `i` records
pub open spec fn end(ls: Seq<int>, i: int) -> int { if i <= 0 { 0 } else { place(ls, i - 1) + ls[i - 1] } }
/// lengths of records
pub open spec fn lens_ok(ls: Seq<int>) -> bool { forall|i: int| #![trigger ls[i]] 0 <= i < ls.len() ==> 16 <= ls[i] <= 272 && ls[i] % 4 == 0 }

/// records are 4-byte aligned, in order, and none crosses a sector boundary
pub proof fn placed(ls: Seq<int>, i: int)
    requires lens_ok(ls), 0 <= i < ls.len(),
    ensures
        place(ls, i) % 4 == 0,
        end(ls, i) <= place(ls, i) < end(ls, i) + 272,
        0 <= place(ls, i) <= 544 * i,
        place(ls, i) / 2048 == (place(ls, i) + ls[i] - 1) / 2048,
        end(ls, i + 1) == place(ls, i) + ls[i],
        place(ls, i) == end(ls, i) + gap(end(ls, i), ls[i]),
    decreases i,
{
    if i > 0 {
        placed(ls, i - 1);
        let e = place(ls, i - 1) + ls[i - 1]; let l = ls[i];
        assert(e == end(ls, i));
        assert(ls[i - 1] >= 16);
        fit(e, l);
    } else {
        assert(16 <= ls[0] <= 272);
        assert(gap(0, ls[0]) == 0);
    }
}
pub proof fn fit(e: int, l: int)
    requires e > 0, e % 4 == 0, 16 <= l <= 272,
    ensures
        0 <= gap(e, l) < l,
        (e + gap(e, l)) % 4 == 0,
        (e + gap(e, l)) / 2048 == (e + gap(e, l) + l - 1) / 2048,
{
    let q = e / 2048; let r = e % 2048;
    assert(e == 2048 * q + r && 0 <= r < 2048);
    assert(sectors_of(e) == if r == 0 { q } else { q + 1 }) by {
        if r == 0 { assert((e + 2047) / 2048 == q); } else { assert((e + 2047) / 2048 == q + 1); }
    }
    if r == 0 {
        assert(gap(e, l) == 0);
        assert((e + l - 1) / 2048 == q);
    } else if r + l > 2048 {
        assert((e + l + 2047) / 2048 == q + 2);
        assert(gap(e, l) == 2048 - r);
        assert(e + gap(e, l) == 2048 * (q + 1));
        assert((e + gap(e, l) + l - 1) / 2048 == q + 1);
        assert(2048 - r < l);
        assert((2048 * (q + 1)) % 4 == 0);
    } else {
        assert((e + l + 2047) / 2048 == q + 1);
        assert(gap(e, l) == 0);
        assert((e + l - 1) / 2048 == q);
    }
}
/// records do not overlap
pub proof fn placed_before(ls: Seq<int>, i: int, j: int)
    requires lens_ok(ls), 0 <= i < j <= ls.len(),
    ensures
        j < ls.len() ==> place(ls, i) + ls[i] <= place(ls, j),
        place(ls, i) + ls[i] <= end(ls, j),
    decreases j - i,
{
    placed(ls, j - 1);
    if j < ls.len() { placed(ls, j); }
    if i < j - 1 { placed_before(ls, i, j - 1); assert(ls[j - 1] >= 16); }
}

/// the places depend on the lengths up to there
pub proof fn place_prefix(p: Seq<int>, ls: Seq<int>, i: int)
    requires 0 <= i < p.len() <= ls.len(), forall|x: int| 0 <= x < p.len() ==> #[trigger] p[x] == ls[x],
    ensures place(p, i) == place(ls, i), end(p, i) == end(ls, i), end(p, i + 1) == end(ls, i + 1),
    decreases i,
{
    if i > 0 { place_prefix(p, ls, i - 1); }
}
//@fn sector_align
//@ret r
//@spec
    requires offset + incr <= 0x7ff_ffff_f800,
    ensures r == gap(offset as int, incr as int), r < 2048,
//@end

// ---- the entries
/// the entries in the order `q`
pub open spec fn data_of(s: Seq<AvlNode<DirectoryEntryData>>, q: Seq<usize>) -> Seq<DirectoryEntryData> { Seq::new(q.len(), |x: int| *s[q[x] as int].data) }
pub open spec fn lens_of(d: Seq<DirectoryEntryData>) -> Seq<int> { Seq::new(d.len(), |x: int| d[x].dlen()) }
pub open spec fn storables(d: Seq<DirectoryEntryData>) -> bool { forall|x: int| #![trigger d[x]] 0 <= x < d.len() ==> d[x].storable() }
/// sectors taken by the files and directories of the first `i` entries
pub open spec fn taken(d: Seq<DirectoryEntryData>, i: int) -> int
    decreases i,
{
    if i <= 0 { 0 } else { taken(d, i - 1) + sectors_of(d[i - 1].node.data.size as int) }
}
pub proof fn taken_mono(d: Seq<DirectoryEntryData>, i: int, j: int)
    requires i <= j,
    ensures taken(d, i) <= taken(d, j), taken(d, i) >= 0,
    decreases j, 
{
    if j > 0 && i < j { taken_mono(d, i, j - 1); } else if i > 0 { taken_mono(d, i - 1, i - 1); }
}
pub proof fn storable_lens(d: Seq<DirectoryEntryData>)
    requires storables(d),
    ensures lens_ok(lens_of(d)),
{
    assert forall|i: int| #![trigger lens_of(d)[i]] 0 <= i < d.len() implies 16 <= lens_of(d)[i] <= 272 && lens_of(d)[i] % 4 == 0 by {
        assert(d[i].storable());
    }
}
pub proof fn names_lawful()
    ensures lawful::<DirectoryEntryData>(),
{
    assert forall|a: DirectoryEntryData, b: DirectoryEntryData| #![trigger OrdSpec::cmp_spec(&a, &b)]
        (OrdSpec::cmp_spec(&a, &b) == Ordering::Greater) == (OrdSpec::cmp_spec(&b, &a) == Ordering::Less) by {
        ord_flip(fold(a.nm()), fold(b.nm()));
    }
    assert forall|a: DirectoryEntryData, b: DirectoryEntryData, c: DirectoryEntryData| #![trigger lt(a, b), lt(b, c)] lt(a, b) && lt(b, c) implies lt(a, c) by {
        ord_trans(fold(a.nm()), fold(b.nm()), fold(c.nm()));
    }
}
/// a tree is determined by where it starts
pub proof fn rep_unique<T: Ord>(s: Seq<AvlNode<T>>, link: Option<usize>, p: Option<usize>, t: Tree, u: Tree)
    requires rep(s, link, p, t), rep(s, link, p, u),
    ensures t == u,
    decreases t,
{
    match (t, u) {
        (Tree::Node(i, l, r), Tree::Node(j, m, n)) => {
            rep_unique(s, s[i as int].left_node, Some(i), *l, *m);
            rep_unique(s, s[i as int].right_node, Some(i), *r, *n);
        },
        _ => {},
    }
}

/// more entries than this in one directory are not considered (their links could not be stored anyway)
pub spec const MAX_ENTRIES: int = 0x10_0000;

#[verifier::opaque]
pub open spec fn ordered(v: AvlTree<DirectoryEntryData>, d: Seq<DirectoryEntryData>) -> bool {
    exists|t: Tree| #[trigger] v.shows(t) && d == data_of(v.tree@, preord(t))
}
impl DirectoryEntryTableWriter {
    pub open spec fn entries(self) -> Seq<AvlNode<DirectoryEntryData>> { self.table.tree@ }
    /// the entries in the order they are written in
    pub open spec fn in_order(self, d: Seq<DirectoryEntryData>) -> bool { ordered(self.table, d) }
    pub open spec fn ok(self) -> bool {
        &&& self.table.wf()
        &&& self.table.tree@.len() <= MAX_ENTRIES
        &&& forall|j: int| #![trigger self.table.tree@[j]] 0 <= j < self.table.tree@.len() ==> {
            ||| (*self.table.tree@[j].data).node.attributes.0 == 0x10u8
            ||| (*self.table.tree@[j].data).node.attributes.0 == 0x20u8
        }
        &&& forall|j: int| #![trigger self.table.tree@[j]] 0 <= j < self.table.tree@.len() ==> arrayvec::utf8_len((*self.table.tree@[j].data).name@) <= 255
        &&& self.size is Some ==> self.sized(self.size->Some_0 as int)
    }
    /// the size of the table, once it has been computed
    pub open spec fn tsize(self) -> int { if self.entries().len() == 0 { 2048 } else { self.size->Some_0 as int } }
    /// `n` is the size of the records of the table
    pub open spec fn sized(self, n: int) -> bool {
        forall|d: Seq<DirectoryEntryData>| #[trigger] ordered(self.table, d) ==> storables(d) && n == end(lens_of(d), d.len() as int)
    }
//@fn add_node in impl DirectoryEntryTableWriter
//@ret r
//@sub arrayvec::ArrayString::from(name).map_err(|_vx_p| FileStructureError::FileNameTooLong)? ==> arrayvec::ArrayString::from(name).map_err(|_vx_p| -> (vx_m: FileStructureError) ensures vx_m is FileNameTooLong { FileStructureError::FileNameTooLong })?
//@sub name.len().try_into().map_err(|_vx_p| FileStructureError::FileNameTooLong)? ==> name.len().try_into().map_err(|_vx_p| -> (vx_m: FileStructureError) ensures vx_m is FileNameTooLong { FileStructureError::FileNameTooLong })?
//@spec
    requires
        old(self).ok(), old(self).entries().len() < MAX_ENTRIES,
        attributes.0 == 0x10u8 || attributes.0 == 0x20u8,
    ensures
        final(self).ok(),
        r is Ok ==> {
            &&& final(self).entries().len() == old(self).entries().len() + 1
            &&& forall|j: int| #![trigger final(self).entries()[j]] 0 <= j < old(self).entries().len() ==> final(self).entries()[j].data == old(self).entries()[j].data
            &&& (*final(self).entries().last().data).nm() == name@
            &&& (*final(self).entries().last().data).node.data.size == size
            &&& (*final(self).entries().last().data).node.attributes == attributes
            &&& arrayvec::utf8_len(name@) <= 255
        },
        // refused only with a reason: too long, or the name is there already up to letter case
        r is Err ==> {
            ||| r->Err_0 is FileNameTooLong && arrayvec::utf8_len(name@) > 255
            ||| r->Err_0 is DuplicateFileName && exists|j: int| 0 <= j < old(self).entries().len() && name_ord(name@, (*(#[trigger] old(self).entries()[j]).data).nm()) == Ordering::Equal
        },
        r is Ok ==> forall|j: int| 0 <= j < old(self).entries().len() ==> name_ord(name@, (*(#[trigger] old(self).entries()[j]).data).nm()) != Ordering::Equal,
//@start
        let ghost o = *old(self);
        proof { names_lawful(); }
//@end
//@fn add_dir in impl DirectoryEntryTableWriter
//@ret r
//@spec
    requires
        old(self).ok(), old(self).entries().len() < MAX_ENTRIES,
        size <= u32::MAX - 2047,
    ensures
        final(self).ok(),
        r is Ok ==> {
            &&& final(self).entries().len() == old(self).entries().len() + 1
            &&& forall|j: int| #![trigger final(self).entries()[j]] 0 <= j < old(self).entries().len() ==> final(self).entries()[j].data == old(self).entries()[j].data
            &&& (*final(self).entries().last().data).nm() == name@
            &&& (*final(self).entries().last().data).node.data.size == (size + 2047) / 2048 * 2048
            &&& (*final(self).entries().last().data).node.attributes.0 == 0x10u8
        },
        r is Err ==> {
            ||| r->Err_0 is FileNameTooLong && arrayvec::utf8_len(name@) > 255
            ||| r->Err_0 is DuplicateFileName && exists|j: int| 0 <= j < old(self).entries().len() && name_ord(name@, (*(#[trigger] old(self).entries()[j]).data).nm()) == Ordering::Equal
        },
        r is Ok ==> arrayvec::utf8_len(name@) <= 255 && forall|j: int| 0 <= j < old(self).entries().len() ==> name_ord(name@, (*(#[trigger] old(self).entries()[j]).data).nm()) != Ordering::Equal,
//@start
        proof { assert(0u8 | 0x10u8 == 0x10u8) by (bit_vector); }
//@end
//@fn add_file in impl DirectoryEntryTableWriter
//@ret r
//@spec
    requires
        old(self).ok(), old(self).entries().len() < MAX_ENTRIES,
    ensures
        final(self).ok(),
        r is Ok ==> {
            &&& final(self).entries().len() == old(self).entries().len() + 1
            &&& forall|j: int| #![trigger final(self).entries()[j]] 0 <= j < old(self).entries().len() ==> final(self).entries()[j].data == old(self).entries()[j].data
            &&& (*final(self).entries().last().data).nm() == name@
            &&& (*final(self).entries().last().data).node.data.size == size
            &&& (*final(self).entries().last().data).node.attributes.0 == 0x20u8
        },
        r is Err ==> {
            ||| r->Err_0 is FileNameTooLong && arrayvec::utf8_len(name@) > 255
            ||| r->Err_0 is DuplicateFileName && exists|j: int| 0 <= j < old(self).entries().len() && name_ord(name@, (*(#[trigger] old(self).entries()[j]).data).nm()) == Ordering::Equal
        },
        r is Ok ==> arrayvec::utf8_len(name@) <= 255 && forall|j: int| 0 <= j < old(self).entries().len() ==> name_ord(name@, (*(#[trigger] old(self).entries()[j]).data).nm()) != Ordering::Equal,
//@start
        proof { assert(0u8 | 0x20u8 == 0x20u8) by (bit_vector); }
//@end
//@fn compute_size in impl DirectoryEntryTableWriter
//@ret r
//@sub node.len_on_disk() ==> node.deref().len_on_disk()
//@sub self.table.preorder_iter().map(|node| __1).try_fold(0, |acc: u32, disk_len: Result<u32, FileStructureError>| { disk_len.map(|disk_len| __2) })? ==> { let mut vx_it = self.table.preorder_iter(); let mut acc: u32 = 0; while let Some(node) = vx_it.next() { let disk_len = __1; match disk_len { Ok(disk_len) => { acc = __2; }, Err(vx_e) => { return Err(vx_e); } } } acc }
//@spec
    requires old(self).table.wf(), old(self).entries().len() <= MAX_ENTRIES,
    ensures
        final(self).table == old(self).table,
        old(self).ok() && r is Ok ==> final(self).ok(),
        r is Ok ==> final(self).size is Some && final(self).sized(final(self).size->Some_0 as int),
        r is Err ==> r->Err_0 is StringEncodingError,
        // refused only because of a name that cannot be stored
        r is Err && old(self).ok() ==> exists|j: int| 0 <= j < old(self).entries().len() && !(*(#[trigger] old(self).entries()[j]).data).storable(),
//@start
        let ghost t0 = choose|t: Tree| self.table.shows(t);
        let ghost q0 = preord(t0);
        let ghost d0 = data_of(self.table.tree@, q0);
        let ghost n = q0.len();
        let ghost mut k: int = 0;
        proof {
            shows_len(self.table, t0);
            assert(q0.skip(0) =~= q0);
        }
//@loop 0 while
        invariant
            0 <= k <= n, n == q0.len(), n <= MAX_ENTRIES, self.table == old(self).table,
            vx_it.tree == &self.table,
            alive(vx_it.stack@, vx_it.tree.tree@),
            will(vx_it.stack@, vx_it.tree.tree@, q0.skip(k)),
            d0 == data_of(self.table.tree@, q0),
            forall|x: int| #![trigger q0[x]] 0 <= x < n ==> q0[x] < self.table.tree@.len(),
            forall|x: int| #![trigger d0[x]] 0 <= x < k ==> d0[x].storable(),
            acc == end(lens_of(d0), k),
            acc <= k * 544,
        ensures
            k == n,
        decreases n - k,
//@loopstart 0
            proof {
                assert(q0.skip(k)[0] == q0[k]);
                assert(q0.skip(k).drop_first() =~= q0.skip(k + 1));
                assert(d0[k] == *self.table.tree@[q0[k] as int].data);
            }
//@before acc = __1;
            proof {
                let ls = lens_of(d0);
                assert(ls[k] == disk_len);
                let p = lens_of(d0.take(k + 1));
                storable_lens(d0.take(k + 1));
                place_prefix(p, ls, k); 
                placed(p, k);
                k = k + 1;
            }
//@before return Err(vx_e)
                proof { assert(old(self).entries()[q0[k] as int] == self.table.tree@[q0[k] as int]); }
//@before Ok(())
        proof {
            reveal(ordered);
            assert forall|d: Seq<DirectoryEntryData>| #[trigger] ordered(self.table, d) implies d == d0 by {
                let t = choose|t: Tree| #[trigger] self.table.shows(t) && d == data_of(self.table.tree@, preord(t));
                rep_unique(self.table.tree@, self.table.root, None, t, t0);
            }
        }
//@end
//@fn dirtab_size in impl DirectoryEntryTableWriter
//@ret r
//@sub self.size.expect(__1) ==> self.size.unwrap()
//@spec
    requires
        self.ok(), self.entries().len() > 0 ==> self.size is Some,
    ensures
        self.entries().len() == 0 ==> r == 2048,
        self.entries().len() > 0 ==> self.sized(r as int),
        r == self.tsize(),
//@end
}

// ---- the bytes
/// a vector of the data of a tree
pub open spec fn datas(s: Seq<AvlNode<DirectoryEntryData>>) -> Seq<DirectoryEntryData> { Seq::new(s.len(), |x: int| *s[x].data) }
/// the link to record `l`
pub open spec fn link_to(ls: Seq<int>, l: Option<usize>) -> int { match l { None => 0, Some(j) => place(ls, j as int) / 4 } }
/// the fixed part of the record of entry `i`, whose data starts at sector `sec0` plus what was allocated before
pub open spec fn disk_node(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, i: int) -> DirectoryEntryDiskNode {
    let d = datas(s); let ls = lens_of(d); let n = (*s[i].data).node;
    DirectoryEntryDiskNode {
        left_entry_offset: link_to(ls, s[i].left_node) as u16,
        right_entry_offset: link_to(ls, s[i].right_node) as u16,
        dirent: DirectoryEntryDiskData {
            data: DiskRegion { sector: (sec0 + taken(d, i)) as u32, size: n.data.size },
            attributes: n.attributes,
            filename_length: d[i].enc().len() as u8,
        },
    }
}
pub open spec fn rec_ok(b: Seq<u8>, p: int, n: DirectoryEntryDiskNode, name: Seq<u8>) -> bool {
    &&& 0 <= p && p + 14 + name.len() <= b.len()
    &&& node_at(b, p) == n
    &&& b.subrange(p + 14, p + 14 + name.len()) == name
}
/// the record of entry `j` is in `b`
#[verifier::opaque]
pub open spec fn rec_in(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, j: int) -> bool {
    rec_ok(b, place(lens_of(datas(s)), j), disk_node(s, sec0, j), datas(s)[j].enc())
}
/// byte `k` belongs to one of the first `i` records
pub open spec fn covered(d: Seq<DirectoryEntryData>, i: int, k: int) -> bool {
    exists|j: int| 0 <= j < i && #[trigger] place(lens_of(d), j) <= k < place(lens_of(d), j) + 14 + d[j].enc().len()
}
/// the first `i` records are in `b`, and only they
#[verifier::opaque]
pub open spec fn recs(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, i: int) -> bool {
    let d = datas(s); let ls = lens_of(d);
    &&& forall|j: int| 0 <= j < i ==> #[trigger] rec_in(s, sec0, b, j)
    &&& forall|j: int| #![trigger s[j]] 0 <= j < i ==> link_to(ls, s[j].left_node) <= 0xffff && link_to(ls, s[j].right_node) <= 0xffff
    &&& forall|k: int| #![trigger b[k]] 0 <= k < b.len() ==> b[k] == 0xff || covered(d, i, k)
}
#[verifier::opaque]
pub open spec fn listed(d: Seq<DirectoryEntryData>, sec0: int, f: Seq<FileListingEntry>, i: int) -> bool {
    &&& f.len() == i
    &&& forall|j: int| #![trigger f[j]] 0 <= j < i ==> {
        &&& f[j].name@ == d[j].nm()
        &&& f[j].sector == sec0 + taken(d, j)
        &&& f[j].size == d[j].node.data.size
        &&& f[j].is_dir == d[j].node.attributes.spec_directory()
    }
}
pub open spec fn roundup(n: int) -> int { n + (2048 - n % 2048) % 2048 }
/// `b` is the table of the entries `s`
pub open spec fn table_bytes(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>) -> bool {
    &&& storables(datas(s))
    &&& recs(s, sec0, b, s.len() as int)
    &&& b.len() == (if s.len() == 0 { 2048 } else { roundup(end(lens_of(datas(s)), s.len() as int)) })
}
/// `v` has the entries of `o`, numbered in the order in which they are written
#[verifier::opaque]
pub open spec fn renumbered(o: AvlTree<DirectoryEntryData>, v: AvlTree<DirectoryEntryData>) -> bool {
    &&& exists|t: Tree| in_preorder(v, t)
    &&& exists|t: Tree| #[trigger] o.shows(t) && datas(v.tree@) == data_of(o.tree@, preord(t))
}
pub open spec fn ff(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0xffu8) }

/// what is in a table stays in it when something is appended
pub proof fn kept(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, i: int, x: Seq<u8>, j: int)
    requires recs(s, sec0, b, i), 0 <= j < i,
    ensures rec_in(s, sec0, b + x, j),
{
    reveal(recs); reveal(rec_in);
    assert(rec_in(s, sec0, b, j));
    let d = datas(s); let q = place(lens_of(d), j);
    let b1 = b + x;
    assert(rec_ok(b, q, disk_node(s, sec0, j), d[j].enc()));
    assert(b1.subrange(q, q + 14) =~= b.subrange(q, q + 14));
    assert(b1.subrange(q + 14, q + 14 + d[j].enc().len()) =~= b.subrange(q + 14, q + 14 + d[j].enc().len()));
}
pub proof fn cover_more(d: Seq<DirectoryEntryData>, i: int, k: int)
    requires covered(d, i, k),
    ensures covered(d, i + 1, k),
{
    let j = choose|j: int| 0 <= j < i && #[trigger] place(lens_of(d), j) <= k < place(lens_of(d), j) + 14 + d[j].enc().len();
    assert(0 <= j < i + 1 && place(lens_of(d), j) <= k);
}
pub proof fn last_rec(b: Seq<u8>, g: int, x: Seq<u8>, e: Seq<u8>, pad: int, n: DirectoryEntryDiskNode)
    requires g >= 0, pad >= 0, x.len() == 14, dec_node(x) == n,
    ensures
        rec_ok(b + (ff(g) + x + e + ff(pad)), b.len() + g, n, e),
        forall|k: int| b.len() <= k < b.len() + g + 14 + e.len() + pad ==> #[trigger] (b + (ff(g) + x + e + ff(pad)))[k] == 0xff || b.len() + g <= k < b.len() + g + 14 + e.len(),
{
    let b1 = b + (ff(g) + x + e + ff(pad)); let p = b.len() + g;
    assert(b1.subrange(p, p + 14) =~= x);
    assert(b1.subrange(p + 14, p + 14 + e.len()) =~= e);
}
pub open spec fn only_covered(d: Seq<DirectoryEntryData>, b: Seq<u8>, i: int) -> bool {
    forall|k: int| #![trigger b[k]] 0 <= k < b.len() ==> b[k] == 0xff || covered(d, i, k)
}
pub proof fn more_len(d: Seq<DirectoryEntryData>, b: Seq<u8>, i: int, g: int, pad: int)
    requires
        storables(d), 0 <= i < d.len(), b.len() == end(lens_of(d), i), g == gap(b.len() as int, lens_of(d)[i]),
        pad == (4 - (14 + d[i].enc().len()) % 4) % 4,
    ensures
        place(lens_of(d), i) == b.len() + g, g >= 0, pad >= 0,
        place(lens_of(d), i) + 14 + d[i].enc().len() + pad == end(lens_of(d), i + 1),
{
    let ls = lens_of(d);
    storable_lens(d);
    placed(ls, i);
    assert(ls[i] == d[i].dlen());
}
pub proof fn more_covered(d: Seq<DirectoryEntryData>, b: Seq<u8>, i: int, g: int, x: Seq<u8>, pad: int)
    requires
        only_covered(d, b, i), 0 <= i < d.len(), x.len() == 14, g >= 0, pad >= 0, place(lens_of(d), i) == b.len() + g,
    ensures only_covered(d, b + (ff(g) + x + d[i].enc() + ff(pad)), i + 1),
{
    hide(place); hide(lens_of);
    let e = d[i].enc(); let b1 = b + (ff(g) + x + e + ff(pad)); let p = place(lens_of(d), i);
    assert forall|k: int| #![trigger b1[k]] 0 <= k < b1.len() implies b1[k] == 0xff || covered(d, i + 1, k) by {
        if k < b.len() {
            assert(b1[k] == b[k]);
            if covered(d, i, k) { cover_more(d, i, k); }
        } else if b1[k] != 0xff {
            assert(p <= k && k < p + 14 + e.len());
        }
    }
}
pub proof fn more_recs(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, i: int, g: int, x: Seq<u8>, pad: int)
    requires
        storables(datas(s)), 0 <= i < s.len(), recs(s, sec0, b, i), b.len() == end(lens_of(datas(s)), i),
        g == gap(b.len() as int, lens_of(datas(s))[i]), x.len() == 14, dec_node(x) == disk_node(s, sec0, i),
        link_to(lens_of(datas(s)), s[i].left_node) <= 0xffff, link_to(lens_of(datas(s)), s[i].right_node) <= 0xffff,
        pad == (4 - (14 + datas(s)[i].enc().len()) % 4) % 4,
    ensures
        recs(s, sec0, b + (ff(g) + x + datas(s)[i].enc() + ff(pad)), i + 1),
        (b + (ff(g) + x + datas(s)[i].enc() + ff(pad))).len() == end(lens_of(datas(s)), i + 1),
{
    hide(place); hide(lens_of); hide(disk_node); hide(covered); hide(link_to);
    let d = datas(s); let ls = lens_of(d); let e = d[i].enc();
    let y = ff(g) + x + e + ff(pad);
    let b1 = b + y;
    more_len(d, b, i, g, pad);
    let p = place(ls, i);
    assert(b1.len() == p + 14 + e.len() + pad);
    last_rec(b, g, x, e, pad, disk_node(s, sec0, i));
    assert(rec_in(s, sec0, b1, i)) by { reveal(rec_in); }
    assert forall|j: int| 0 <= j < i + 1 implies #[trigger] rec_in(s, sec0, b1, j) by {
        if j < i { kept(s, sec0, b, i, y, j); }
    }
    assert(only_covered(d, b, i)) by { reveal(recs); }
    more_covered(d, b, i, g, x, pad);
    assert forall|j: int| #![trigger s[j]] 0 <= j < i + 1 implies link_to(ls, s[j].left_node) <= 0xffff && link_to(ls, s[j].right_node) <= 0xffff by { reveal(recs); }
    assert(recs(s, sec0, b1, i + 1)) by { reveal(recs); }
}
pub proof fn padded(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, i: int, g: int)
    requires recs(s, sec0, b, i), g >= 0,
    ensures recs(s, sec0, b + ff(g), i),
{
    reveal(recs);
    let d = datas(s); let ls = lens_of(d);
    let b1 = b + ff(g);
    assert forall|j: int| 0 <= j < i implies #[trigger] rec_in(s, sec0, b1, j) by { kept(s, sec0, b, i, ff(g), j); }
    assert forall|k: int| #![trigger b1[k]] 0 <= k < b1.len() implies b1[k] == 0xff || covered(d, i, k) by {
        if k < b.len() { assert(b1[k] == b[k]); }
    }
}
/// links lead to entries
pub open spec fn links_in(s: Seq<AvlNode<DirectoryEntryData>>) -> bool {
    forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> (s[j].left_node is Some ==> s[j].left_node->Some_0 < s.len()) && (s[j].right_node is Some ==> s[j].right_node->Some_0 < s.len())
}
/// every entry of `v` is one of `o`
#[verifier::opaque]
pub open spec fn same_entries(o: DirectoryEntryTableWriter, v: DirectoryEntryTableWriter) -> bool {
    forall|j: int| #![trigger v.table.tree@[j]] 0 <= j < v.table.tree@.len() ==> exists|i: int| 0 <= i < o.table.tree@.len() && (#[trigger] o.table.tree@[i]).data == v.table.tree@[j].data
}
pub proof fn same_entry(o: DirectoryEntryTableWriter, v: DirectoryEntryTableWriter, j: int)
    requires o.ok(), same_entries(o, v), 0 <= j < v.table.tree@.len(),
    ensures
        arrayvec::utf8_len((*v.table.tree@[j].data).name@) <= 255,
        (*v.table.tree@[j].data).node.attributes.0 == 0x10u8 || (*v.table.tree@[j].data).node.attributes.0 == 0x20u8,
        !(*v.table.tree@[j].data).storable() ==> exists|i: int| 0 <= i < o.entries().len() && !(*(#[trigger] o.entries()[i]).data).storable(),
{
    reveal(same_entries);
    let i = choose|i: int| 0 <= i < o.table.tree@.len() && (#[trigger] o.table.tree@[i]).data == v.table.tree@[j].data;
    assert(o.entries()[i] == o.table.tree@[i]);
}
pub proof fn empty_table(o: DirectoryEntryTableWriter, sec0: int)
    requires o.ok(),
    ensures
        o.table.tree@.len() == 0 ==> renumbered(o.table, o.table) && datas(o.table.tree@).len() == 0,
        o.table.tree@.len() == 0 ==> forall|b: Seq<u8>| b.len() == 2048 && all_bytes(b, 0xff) ==> #[trigger] table_bytes(o.table.tree@, sec0, b),
        o.table.tree@.len() == 0 ==> forall|f: Seq<FileListingEntry>| f.len() == 0 ==> #[trigger] listed(datas(o.table.tree@), sec0, f, 0),
{
    reveal(renumbered); reveal(recs); reveal(listed);
    let t0 = choose|t: Tree| o.table.shows(t);
    shows_len(o.table, t0);
    if o.table.tree@.len() == 0 {
        assert(preord(t0) =~= Seq::empty());
        assert(in_preorder(o.table, t0));
        assert(datas(o.table.tree@) =~= data_of(o.table.tree@, preord(t0)));
    }
}
pub proof fn after_reorder(o: DirectoryEntryTableWriter, v: DirectoryEntryTableWriter)
    requires
        o.ok(), v.size == o.size,
        exists|t: Tree| in_preorder(v.table, t),
        exists|t: Tree| #[trigger] o.table.shows(t) && same_order(o.table.tree@, v.table.tree@, preord(t)),
    ensures
        v.table.tree@.len() == o.table.tree@.len(), v.table.wf(),
        ordered(o.table, datas(v.table.tree@)), ordered(v.table, datas(v.table.tree@)),
        renumbered(o.table, v.table),
        links_in(v.table.tree@),
        same_entries(o, v),
        v.ok(),
{
    reveal(renumbered); reveal(same_entries); reveal(ordered);
    let s = v.table.tree@; let n = s.len() as int; let d = datas(s);
    let q = choose|t: Tree| #[trigger] o.table.shows(t) && same_order(o.table.tree@, s, preord(t));
    assert(d =~= data_of(o.table.tree@, preord(q)));
    assert(ordered(o.table, d));
    let t = choose|t: Tree| in_preorder(v.table, t);
    assert(d =~= data_of(s, preord(t)));
    assert(ordered(v.table, d));
    shows_linked(v.table, t);
    assert forall|j: int| #![trigger s[j]] 0 <= j < n implies exists|i: int| 0 <= i < o.table.tree@.len() && (#[trigger] o.table.tree@[i]).data == s[j].data by {
        let i = preord(q)[j] as int;
        assert(s[j].data == o.table.tree@[i].data);
    }
    assert forall|j: int| #![trigger s[j]] 0 <= j < n implies (s[j].left_node is Some ==> s[j].left_node->Some_0 < s.len()) && (s[j].right_node is Some ==> s[j].right_node->Some_0 < s.len()) by {
        assert(node_ok(v.table, j as usize));
    }
    assert forall|e: Seq<DirectoryEntryData>| #[trigger] ordered(v.table, e) implies e == d by {
        let u = choose|u: Tree| #[trigger] v.table.shows(u) && e == data_of(s, preord(u));
        rep_unique(s, v.table.root, None, u, t);
    }
    assert forall|j: int| #![trigger s[j]] 0 <= j < n implies arrayvec::utf8_len((*s[j].data).name@) <= 255 && ((*s[j].data).node.attributes.0 == 0x10u8 || (*s[j].data).node.attributes.0 == 0x20u8) by {
        same_entry(o, v, j);
    }
}
pub fn vx_owned(s: &str) -> (r: String)
    ensures r@ == s@,
{ s.to_string() }

//@file xdvdfs-core/src/write/dirtab.rs
impl DirectoryEntryTableWriter {
//@fn disk_repr in impl DirectoryEntryTableWriter
//@ret r
//@sub vx_self.table.backing_vec().iter().map(|node| __1).collect() ==> { let mut vx_v: Vec<u64> = Vec::new(); let vx_b = vx_self.table.backing_vec(); for vx_i in 0..vx_b.len() { let node = &vx_b[vx_i]; match __1 { Ok(vx_x) => { vx_v.push(vx_x); }, Err(vx_e) => { return Err(vx_e); } } } Ok(vx_v) }
//@sub .map(|len| len as u64) ==> .map(|len: u32| -> (vx_l: u64) ensures vx_l == len { len as u64 })
//@sub for (idx, node) in vx_self.table.backing_vec().iter().enumerate() { ==> for idx in 0..vx_self.table.backing_vec().len() { let node = &vx_self.table.backing_vec()[idx];
//@sub .map(|idx| offsets[idx] / 4) ==> .map(|idx: usize| -> (vx_o: u64) requires idx < offsets@.len() ensures vx_o == offsets@[idx as int] / 4 { offsets[idx] / 4 })
//@sub .map_err(|_vx_p| FileStructureError::TooManyDirectoryEntries) ==> .map_err(|_vx_p| -> (vx_m: FileStructureError) ensures vx_m is TooManyDirectoryEntries { FileStructureError::TooManyDirectoryEntries })
//@sub ?-> (vx_m: FileStructureError<_>) ==> -> (vx_m: FileStructureError)
//@sub for i in 1..offsets.len() { ==> let vx_n = offsets.len(); for i in 1..vx_n {
//@sub ?dirent_bytes.extend(__1) ==> dirent_bytes.extend_from_slice(&__1)
//@spec
    requires
        self.ok(),
    ensures
        r is Ok ==> exists|v: AvlTree<DirectoryEntryData>| #[trigger] renumbered(self.table, v)
            && table_bytes(v.tree@, old(allocator).next_free as int, r->Ok_0.entry_table@)
            && listed(datas(v.tree@), old(allocator).next_free as int, r->Ok_0.file_listing@, v.tree@.len() as int)
            && final(allocator).next_free == old(allocator).next_free + taken(datas(v.tree@), v.tree@.len() as int),
        r is Err ==> {
            ||| r->Err_0 is StringEncodingError && exists|j: int| 0 <= j < self.entries().len() && !(*(#[trigger] self.entries()[j]).data).storable()
            ||| r->Err_0 is TooManyDirectoryEntries && exists|d: Seq<DirectoryEntryData>, j: int| #[trigger] ordered(self.table, d) && 0 <= j < d.len() && #[trigger] place(lens_of(d), j) > 4 * 0xffff
            ||| r->Err_0 is ImageTooLarge && exists|d: Seq<DirectoryEntryData>| #[trigger] ordered(self.table, d) && old(allocator).next_free + taken(d, d.len() as int) > u32::MAX
        },
//@start
        let ghost o = self;
        let ghost sec0 = allocator.next_free as int;
        proof { empty_table(o, sec0); }
//@after vx_self.table.reorder_backing_preorder();
        let ghost s = vx_self.table.tree@;
        let ghost n = s.len() as int;
        let ghost d = datas(s);
        let ghost ls = lens_of(d);
        let ghost reordered = vx_self;
        proof { after_reorder(o, vx_self); }
//@loop 0 for
            invariant
                o == self, o.ok(), vx_b@ == s, vx_self.table.tree@ == s, n == s.len(), d == datas(s), ls == lens_of(d),
                vx_v@.len() == vx_i,
                forall|j: int| #![trigger d[j]] 0 <= j < vx_i ==> d[j].storable(),
                forall|j: int| #![trigger vx_v@[j]] 0 <= j < vx_i ==> vx_v@[j] == ls[j],
                same_entries(o, vx_self),
//@loopstart 0
                proof {
                    assert(s[vx_i as int] == vx_b@[vx_i as int]); assert(d[vx_i as int] == *s[vx_i as int].data);
                    same_entry(o, vx_self, vx_i as int);
                }
//@after let mut offsets = offsets?;
        let ghost off0 = offsets@;
        proof { storable_lens(d); }
//@beforeloop 1
        proof {
            assert(final_dirent_size == ls[n - 1]);
            assert(place(ls, 0) == 0);
            assert forall|k: int| 1 <= k < n implies #[trigger] offsets@[k] == ls[k - 1] by { assert(off0[k - 1] == ls[k - 1]); }
        }
//@loop 1 for
            invariant
                o == self, vx_n == n, n == s.len(), n >= 1, n <= MAX_ENTRIES, d == datas(s), ls == lens_of(d), lens_ok(ls),
                offsets@.len() == n, final_dirent_size == ls[n - 1],
                forall|k: int| #![trigger offsets@[k]] 0 <= k < i ==> offsets@[k] == place(ls, k),
                forall|k: int| #![trigger offsets@[k]] i <= k < n ==> offsets@[k] == ls[k - 1],
//@loopstart 1
            proof {
                placed(ls, i - 1); placed(ls, i as int);
                assert(ls[i - 1] <= 272); assert(ls[i as int] <= 272);
            }
//@beforeloop 2
        proof {
            assert(dirent_bytes@ =~= Seq::empty());
            assert(recs(s, sec0, dirent_bytes@, 0)) by { reveal(recs); }
            assert(listed(d, sec0, file_listing@, 0)) by { reveal(listed); }
        }
//@loop 2 for
            invariant
                o == self, vx_self.table.tree@ == s, n == s.len(), n >= 1, n <= MAX_ENTRIES, d == datas(s), ls == lens_of(d), lens_ok(ls), storables(d),
                vx_self.size == o.size, ordered(o.table, d), vx_self.table == reordered.table,
                offsets@.len() == n,
                forall|k: int| #![trigger offsets@[k]] 0 <= k < n ==> offsets@[k] == place(ls, k),
                links_in(s), same_entries(o, vx_self), o.ok(),
                recs(s, sec0, dirent_bytes@, idx as int),
                dirent_bytes@.len() == end(ls, idx as int),
                listed(d, sec0, file_listing@, idx as int),
                allocator.next_free == sec0 + taken(d, idx as int),
                d.len() == n, sec0 == old(allocator).next_free,
//@loopstart 2
            let ghost b0 = dirent_bytes@;
            let ghost f0 = file_listing@;
            proof {
                placed(ls, idx as int);
                assert(d[idx as int] == *s[idx as int].data);
                taken_mono(d, idx + 1, n);
                same_entry(o, vx_self, idx as int);
            }
//@loopend 2
            proof {
                let g = gap(b0.len() as int, ls[idx as int]);
                let pad = (4 - (14 + d[idx as int].enc().len()) % 4) % 4;
                assert(dec_node(bytes@) == disk_node(s, sec0, idx as int));
                more_recs(s, sec0, b0, idx as int, g, bytes@, pad);
                assert(dirent_bytes@ =~= b0 + (ff(g) + bytes@ + d[idx as int].enc() + ff(pad)));
                assert(listed(d, sec0, file_listing@, idx + 1)) by { reveal(listed); assert(file_listing@.drop_last() =~= f0); }
            }
//@before if let Some(size) = vx_self.size
        proof {
            placed(ls, n - 1);
            assert(ls[n - 1] >= 16);
            assert(ordered(o.table, d));
        }
//@before vx_self.compute_size()?
            proof {
                assert forall|j: int| 0 <= j < n implies (*(#[trigger] vx_self.entries()[j]).data).storable() by { assert(d[j].storable()); }
            }
//@before let padding_len
        let ghost b9 = dirent_bytes@;
        proof { placed(ls, n - 1); }
//@before Ok(DirectoryEntryTableDiskRepr { __1 }) #2
        proof {
            padded(s, sec0, b9, n, padding_len as int);
            assert(dirent_bytes@ =~= b9 + ff(padding_len as int));
            assert(table_bytes(s, sec0, dirent_bytes@));
        }
//@end
}
