//@deps records
// Directory tables as trees on the disk; looking a name up in one.
use crate::{bincode, layout, util};
use crate::blockdev::*;
use crate::layout::*;
use crate::codec::*;
use crate::records::*;
use crate::names::*;
use core::cmp::Ordering;

/// the tree a directory table's links describe: a node holds the table offset of its record
pub enum DTree { Leaf, Node(int, Box<DTree>, Box<DTree>) }

pub open spec fn no_link(link: u16) -> bool { link == 0 || link == 0xffff }

/// `t` is the tree found at offset `off` of the table `tab` on a device holding `c`
pub open spec fn dlinked(c: Seq<u8>, tab: DirectoryEntryTable, off: int, t: DTree) -> bool
    decreases t, 0nat,
{
    let p = tab.region.start() + off;
    &&& 0 <= off < tab.region.size
    &&& p + 14 <= c.len()
    &&& match t {
        DTree::Leaf => blank(c, p),
        DTree::Node(o, l, r) => {
            &&& o == off
            &&& !blank(c, p)
            &&& p + 14 + node_at(c, p).dirent.filename_length <= c.len()
            &&& dchild(c, tab, node_at(c, p).left_entry_offset, *l)
            &&& dchild(c, tab, node_at(c, p).right_entry_offset, *r)
        },
    }
}
pub open spec fn dchild(c: Seq<u8>, tab: DirectoryEntryTable, link: u16, t: DTree) -> bool
    decreases t, 1nat,
{
    if no_link(link) { t is Leaf } else { dlinked(c, tab, 4 * link as int, t) }
}
/// the whole table
pub open spec fn dtable(c: Seq<u8>, tab: DirectoryEntryTable, t: DTree) -> bool {
    if tab.region.size == 0 { t is Leaf } else { dlinked(c, tab, 0, t) }
}

/// the links leave at most one tree: contracts about "the" tree of a table
pub proof fn dlinked_unique(c: Seq<u8>, tab: DirectoryEntryTable, off: int, t: DTree, u: DTree)
    requires dlinked(c, tab, off, t), dlinked(c, tab, off, u),
    ensures t == u,
    decreases t, 0nat,
{
    let p = tab.region.start() + off;
    match (t, u) {
        (DTree::Node(_, l, r), DTree::Node(_, m, s)) => {
            dchild_unique(c, tab, node_at(c, p).left_entry_offset, *l, *m);
            dchild_unique(c, tab, node_at(c, p).right_entry_offset, *r, *s);
        },
        _ => {},
    }
}
pub proof fn dchild_unique(c: Seq<u8>, tab: DirectoryEntryTable, link: u16, t: DTree, u: DTree)
    requires dchild(c, tab, link, t), dchild(c, tab, link, u),
    ensures t == u,
    decreases t, 1nat,
{
    if !no_link(link) { dlinked_unique(c, tab, 4 * link as int, t, u); }
}
pub proof fn dtable_unique(c: Seq<u8>, tab: DirectoryEntryTable, t: DTree, u: DTree)
    requires dtable(c, tab, t), dtable(c, tab, u),
    ensures t == u,
{
    if tab.region.size > 0 { dlinked_unique(c, tab, 0, t, u); }
}

// ---- lookup
/// the decoded name of the record at table offset `o`
pub open spec fn dname(c: Seq<u8>, tab: DirectoryEntryTable, o: int) -> Option<Seq<char>> { dec1252(name_at(c, tab.region.start() + o)) }
pub open spec fn contains(t: DTree, o: int) -> bool
    decreases t,
{
    match t { DTree::Leaf => false, DTree::Node(x, l, r) => x == o || contains(*l, o) || contains(*r, o) }
}
/// the tree is a search tree by name, every name can be decoded, and no link uses the alternative terminator
pub open spec fn dsorted(c: Seq<u8>, tab: DirectoryEntryTable, t: DTree) -> bool
    decreases t,
{
    match t {
        DTree::Leaf => true,
        DTree::Node(o, l, r) => {
            let n = node_at(c, tab.region.start() + o);
            &&& dname(c, tab, o) is Some
            &&& n.left_entry_offset != 0xffff && n.right_entry_offset != 0xffff
            &&& forall|i: int| #[trigger] contains(*l, i) ==> dname(c, tab, i) is Some && name_ord(dname(c, tab, i)->Some_0, dname(c, tab, o)->Some_0) == Ordering::Less
            &&& forall|i: int| #[trigger] contains(*r, i) ==> dname(c, tab, i) is Some && name_ord(dname(c, tab, i)->Some_0, dname(c, tab, o)->Some_0) == Ordering::Greater
            &&& dsorted(c, tab, *l)
            &&& dsorted(c, tab, *r)
        },
    }
}
/// some entry of the tree has the name `name`, letter case aside
pub open spec fn has_name(c: Seq<u8>, tab: DirectoryEntryTable, t: DTree, o: int, name: Seq<char>) -> bool {
    contains(t, o) && dname(c, tab, o) is Some && name_ord(name, dname(c, tab, o)->Some_0) == Ordering::Equal
}
pub proof fn less_greater(a: Seq<char>, b: Seq<char>)
    ensures name_ord(b, a) == flip(name_ord(a, b)),
{
    ord_flip(fold(a), fold(b));
}
/// a name that compares below a node is not in its right subtree, and the like
pub proof fn not_elsewhere(c: Seq<u8>, tab: DirectoryEntryTable, t: DTree, name: Seq<char>)
    requires dsorted(c, tab, t), t is Node,
    ensures
        name_ord(name, dname(c, tab, t->Node_0)->Some_0) == Ordering::Less ==>
            forall|o: int| #[trigger] has_name(c, tab, t, o, name) ==> has_name(c, tab, *t->Node_1, o, name),
        name_ord(name, dname(c, tab, t->Node_0)->Some_0) == Ordering::Greater ==>
            forall|o: int| #[trigger] has_name(c, tab, t, o, name) ==> has_name(c, tab, *t->Node_2, o, name),
{
    let m = dname(c, tab, t->Node_0)->Some_0;
    assert forall|o: int| #[trigger] has_name(c, tab, t, o, name) && o != t->Node_0 implies
        (contains(*t->Node_1, o) ==> name_ord(name, m) == Ordering::Less) && (contains(*t->Node_2, o) ==> name_ord(name, m) == Ordering::Greater) by {
        let n = dname(c, tab, o)->Some_0;
        ord_equal(fold(name), fold(n));
        assert(name_ord(name, m) == name_ord(n, m));
    }
}

//@file xdvdfs-core/src/read.rs
impl DirectoryEntryTable {
//@fn find_dirent in impl DirectoryEntryTable
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub cmp_ignore_case_utf8(name, &dirent_name) ==> cmp_ignore_case_utf8(name, dirent_name.as_str())
//@sub util::cmp_ignore_case_utf8 ==> cmp_ignore_case_utf8
//@spec
    requires
        old(dev).dev_ok(),
        old(dev).max_offset() >= MAX_OFFSET,
    ensures
        final(dev).dev_ok(),
        final(dev).max_offset() == old(dev).max_offset(),
        final(dev).contents() == old(dev).contents(),
        self.region.size == 0 ==> r is Err && r->Err_0 is DirectoryEmpty,
        // whatever is returned is an entry of this table, as stored, with that name
        r is Ok ==> {
            &&& self.region.start() <= r->Ok_0.offset < self.region.start() + self.region.size
            &&& entry_at(r->Ok_0, old(dev).contents(), r->Ok_0.offset as int)
            &&& dec1252(r->Ok_0.nm()) is Some
            &&& name_ord(name@, dec1252(r->Ok_0.nm())->Some_0) == Ordering::Equal
        },
        // and on a sorted table every entry is found
        forall|t: DTree| #[trigger] dtable(old(dev).contents(), *self, t) && dsorted(old(dev).contents(), *self, t) && self.region.size > 0 ==> {
            &&& (r is Ok ==> has_name(old(dev).contents(), *self, t, r->Ok_0.offset - self.region.start(), name@))
            &&& (r is Err ==> r->Err_0 is IOError || r->Err_0 is DoesNotExist)
            &&& (r is Err && r->Err_0 is DoesNotExist ==> forall|o: int| !#[trigger] has_name(old(dev).contents(), *self, t, o, name@))
        },
//@beforeloop 0
        let ghost c = dev.contents();
        let ghost tab = *self;
        let ghost good = exists|t: DTree| #[trigger] dtable(c, tab, t) && dsorted(c, tab, t);
        let ghost whole: DTree = choose|t: DTree| #[trigger] dtable(c, tab, t) && dsorted(c, tab, t);
        let ghost mut t: DTree = whole;
        proof {
            assert forall|u: DTree| #[trigger] dtable(c, tab, u) && good implies u == whole by { dtable_unique(c, tab, u, whole); }
        }
//@loop 0 loop
        invariant
            dev.dev_ok(), dev.max_offset() == old(dev).max_offset(), dev.max_offset() >= MAX_OFFSET,
            dev.contents() == old(dev).contents(), c == dev.contents(), tab == *self, tab.region.size > 0,
            tab.region.start() <= offset < tab.region.start() + tab.region.size, offset <= MAX_OFFSET - 0x1000,
            good == (exists|t: DTree| #[trigger] dtable(c, tab, t) && dsorted(c, tab, t)),
            good ==> {
                &&& forall|u: DTree| #[trigger] dtable(c, tab, u) ==> u == whole
                &&& dlinked(c, tab, offset - tab.region.start(), t)
                &&& dsorted(c, tab, t)
                &&& forall|o: int| #[trigger] contains(t, o) ==> contains(whole, o)
                &&& forall|o: int| #[trigger] has_name(c, tab, whole, o, name@) ==> has_name(c, tab, t, o, name@)
            },
//@before let next_offset
            proof { if good { assert(t is Node); assert(contains(t, t->Node_0)); assert(dsorted(c, tab, t)); } }
//@before if next_offset == 0
            let ghost before = t;
            proof {
                if good {
                    assert(t is Node);
                    not_elsewhere(c, tab, t, name@);
                    t = if cmp == Ordering::Less { *before->Node_1 } else { *before->Node_2 };
                    assert(dchild(c, tab, next_offset, t));
                    assert forall|o: int| #[trigger] contains(t, o) implies contains(whole, o) by { assert(contains(before, o)); }
                    assert forall|o: int| #[trigger] has_name(c, tab, whole, o, name@) implies has_name(c, tab, t, o, name@) by { assert(has_name(c, tab, before, o, name@)); }
                }
            }
//@end
}
