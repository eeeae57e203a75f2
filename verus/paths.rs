//@deps lookup
// Looking a path up: each component in turn.
use crate::{bincode, layout, util};
use crate::blockdev::*;
use crate::layout::*;
use crate::codec::*;
use crate::records::*;
use crate::names::*;
use crate::lookup::*;
use core::cmp::Ordering;

/// the path without leading slashes
pub open spec fn trimmed(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && s[0] == '/' { trimmed(s.drop_first()) } else { s }
}
/// the components of a path: what lies between slashes, the last one left out if empty
pub open spec fn segments(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { segments_from(s, 0) }
}
pub open spec fn segments_from(s: Seq<char>, i: int) -> Seq<Seq<char>>
    decreases s.len(), s.len() - i,
{
    if i < 0 || i >= s.len() { seq![s] }
    else if s[i] == '/' { seq![s.take(i)] + segments(s.skip(i + 1)) }
    else { segments_from(s, i + 1) }
}
pub proof fn segments_some(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures segments_from(s, i).len() > 0,
    decreases s.len() - i,
{
    if i < s.len() && s[i] != '/' { segments_some(s, i + 1); }
}

/// stands for `Peekable<SplitTerminator<char>>`
#[verifier::external_body]
pub struct VxSegments<'a> { p: core::iter::Peekable<core::str::SplitTerminator<'a, char>> }
impl<'a> VxSegments<'a> {
    pub uninterp spec fn rem(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures
            old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r is Some && r->Some_0@ == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&&'a str>)
        ensures
            final(self).rem() == old(self).rem(),
            r is None <==> old(self).rem().len() == 0,
            r is Some ==> r->Some_0@ == old(self).rem()[0],
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_trim_slashes<'a>(s: &'a str) -> (r: &'a str)
    ensures r@ == trimmed(s@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_segments<'a>(s: &'a str) -> (r: VxSegments<'a>)
    ensures r.rem() == segments(s@),
{ unimplemented!() }

pub open spec fn table_of(n: DirectoryEntryDiskNode) -> DirectoryEntryTable { DirectoryEntryTable { region: n.dirent.data } }

/// an entry of `tab` stored at `p` has the name `name`
pub open spec fn named(c: Seq<u8>, tab: DirectoryEntryTable, name: Seq<char>, p: int) -> bool {
    &&& tab.region.start() <= p < tab.region.start() + tab.region.size
    &&& !blank(c, p)
    &&& dec1252(name_at(c, p)) is Some
    &&& name_ord(name, dec1252(name_at(c, p))->Some_0) == Ordering::Equal
}
/// following `segs` from `tab` ends at the record stored at `p`
pub open spec fn on_path(c: Seq<u8>, tab: DirectoryEntryTable, segs: Seq<Seq<char>>, p: int) -> bool
    decreases segs.len(),
{
    if segs.len() == 0 { false }
    else if segs.len() == 1 { named(c, tab, segs[0], p) }
    else { exists|q: int| #[trigger] named(c, tab, segs[0], q) && node_at(c, q).dirent.attributes.spec_directory()
        && on_path(c, table_of(node_at(c, q)), segs.drop_first(), p) }
}

// ---- on tables that are search trees, a path that leads somewhere is found
pub open spec fn dgood(c: Seq<u8>, tab: DirectoryEntryTable) -> bool { exists|t: DTree| #[trigger] dtable(c, tab, t) && dsorted(c, tab, t) }
/// an entry reached by the links of `tab`
pub open spec fn member(c: Seq<u8>, tab: DirectoryEntryTable, name: Seq<char>, p: int) -> bool {
    exists|t: DTree| #[trigger] dtable(c, tab, t) && has_name(c, tab, t, p - tab.region.start(), name)
}
pub open spec fn all_good(c: Seq<u8>, tab: DirectoryEntryTable, segs: Seq<Seq<char>>) -> bool
    decreases segs.len(),
{
    segs.len() > 0 ==> dgood(c, tab) && (forall|q: int| #[trigger] member(c, tab, segs[0], q) ==> all_good(c, table_of(node_at(c, q)), segs.drop_first()))
}
pub open spec fn tree_path(c: Seq<u8>, tab: DirectoryEntryTable, segs: Seq<Seq<char>>, p: int) -> bool
    decreases segs.len(),
{
    if segs.len() == 0 { false }
    else if segs.len() == 1 { member(c, tab, segs[0], p) }
    else { exists|q: int| #[trigger] member(c, tab, segs[0], q) && node_at(c, q).dirent.attributes.spec_directory()
        && tree_path(c, table_of(node_at(c, q)), segs.drop_first(), p) }
}
/// a sorted tree has one entry of a name
pub proof fn one_name(c: Seq<u8>, tab: DirectoryEntryTable, t: DTree, name: Seq<char>, o: int, x: int)
    requires dsorted(c, tab, t), has_name(c, tab, t, o, name), has_name(c, tab, t, x, name),
    ensures o == x,
    decreases t,
{
    let m = dname(c, tab, t->Node_0)->Some_0;
    not_elsewhere(c, tab, t, name);
    match name_ord(name, m) {
        Ordering::Less => { one_name(c, tab, *t->Node_1, name, o, x); },
        Ordering::Greater => { one_name(c, tab, *t->Node_2, name, o, x); },
        Ordering::Equal => {
            assert(contains(t, o) && contains(t, x));
            elsewhere_differs(c, tab, t, name, o);
            elsewhere_differs(c, tab, t, name, x);
        },
    }
}
pub proof fn elsewhere_differs(c: Seq<u8>, tab: DirectoryEntryTable, t: DTree, name: Seq<char>, o: int)
    requires dsorted(c, tab, t), has_name(c, tab, t, o, name), name_ord(name, dname(c, tab, t->Node_0)->Some_0) == Ordering::Equal, t is Node,
    ensures o == t->Node_0,
{
    let m = dname(c, tab, t->Node_0)->Some_0;
    let n = dname(c, tab, o)->Some_0;
    assert(t is Node && contains(t, o));
    ord_equal(fold(name), fold(m));
    ord_equal(fold(name), fold(n));
    ord_refl(fold(n));
    assert(fold(n) == fold(m));
    assert(ord_seq(fold(n), fold(m)) == Ordering::Equal);
    if o != t->Node_0 {
        assert(contains(*t->Node_1, o) || contains(*t->Node_2, o));
        if contains(*t->Node_1, o) { assert(name_ord(n, m) == Ordering::Less); } else { assert(name_ord(n, m) == Ordering::Greater); }
    }
}
/// what a successful lookup in a table means for the rest of the path
pub proof fn step(c: Seq<u8>, tab: DirectoryEntryTable, segs: Seq<Seq<char>>, q: int)
    requires all_good(c, tab, segs), segs.len() > 0, member(c, tab, segs[0], q),
    ensures
        all_good(c, table_of(node_at(c, q)), segs.drop_first()),
        forall|p: int| #[trigger] member(c, tab, segs[0], p) ==> p == q,
        segs.len() > 1 ==> forall|p: int| #[trigger] tree_path(c, tab, segs, p) ==>
            node_at(c, q).dirent.attributes.spec_directory() && tree_path(c, table_of(node_at(c, q)), segs.drop_first(), p),
{
    let t = choose|t: DTree| #[trigger] dtable(c, tab, t) && dsorted(c, tab, t);
    assert forall|p: int| #[trigger] member(c, tab, segs[0], p) implies p == q by {
        let u = choose|u: DTree| #[trigger] dtable(c, tab, u) && has_name(c, tab, u, p - tab.region.start(), segs[0]);
        let v = choose|u: DTree| #[trigger] dtable(c, tab, u) && has_name(c, tab, u, q - tab.region.start(), segs[0]);
        dtable_unique(c, tab, u, t);
        dtable_unique(c, tab, v, t);
        one_name(c, tab, t, segs[0], p - tab.region.start(), q - tab.region.start());
    }
}

/// no entry of the first name: the path leads nowhere
pub proof fn nowhere(c: Seq<u8>, tab: DirectoryEntryTable, segs: Seq<Seq<char>>)
    requires all_good(c, tab, segs), segs.len() > 0,
    ensures
        tab.region.size == 0 ==> forall|p: int| !#[trigger] tree_path(c, tab, segs, p),
        (exists|t: DTree| #[trigger] dtable(c, tab, t) && dsorted(c, tab, t) && (forall|o: int| !#[trigger] has_name(c, tab, t, o, segs[0])))
            ==> forall|p: int| !#[trigger] tree_path(c, tab, segs, p),
{
    let none = exists|t: DTree| #[trigger] dtable(c, tab, t) && dsorted(c, tab, t) && (forall|o: int| !#[trigger] has_name(c, tab, t, o, segs[0]));
    assert forall|q: int| !(#[trigger] member(c, tab, segs[0], q) && (none || tab.region.size == 0)) by {
        if member(c, tab, segs[0], q) && (none || tab.region.size == 0) {
            let u = choose|u: DTree| #[trigger] dtable(c, tab, u) && has_name(c, tab, u, q - tab.region.start(), segs[0]);
            if tab.region.size > 0 {
                let t = choose|t: DTree| #[trigger] dtable(c, tab, t) && dsorted(c, tab, t) && (forall|o: int| !#[trigger] has_name(c, tab, t, o, segs[0]));
                dtable_unique(c, tab, t, u);
                assert(!has_name(c, tab, t, q - tab.region.start(), segs[0]));
            } else {
                assert(!contains(u, q - tab.region.start()));
            }
        }
    }
}

//@file xdvdfs-core/src/read.rs
impl DirectoryEntryTable {
//@fn walk_path in impl DirectoryEntryTable
//@ret r
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@sub path.trim_start_matches('/') ==> vx_trim_slashes(path)
//@sub path.split_terminator('/').peekable() ==> vx_segments(path)
//@spec
    requires
        old(dev).dev_ok(),
        old(dev).max_offset() >= MAX_OFFSET,
    ensures
        final(dev).dev_ok(),
        final(dev).max_offset() == old(dev).max_offset(),
        final(dev).contents() == old(dev).contents(),
        trimmed(path@).len() == 0 ==> r is Err && r->Err_0 is NoDirent,
        // what is returned is an entry as stored, at the end of that path
        r is Ok ==> {
            &&& entry_at(r->Ok_0, old(dev).contents(), r->Ok_0.offset as int)
            &&& on_path(old(dev).contents(), *self, segments(trimmed(path@)), r->Ok_0.offset as int)
        },
        // when the tables on the way are search trees, a path leads nowhere if none is found
        r is Ok && all_good(old(dev).contents(), *self, segments(trimmed(path@))) ==>
            tree_path(old(dev).contents(), *self, segments(trimmed(path@)), r->Ok_0.offset as int),
        r is Err && !(r->Err_0 is IOError) && all_good(old(dev).contents(), *self, segments(trimmed(path@))) ==>
            forall|p: int| !#[trigger] tree_path(old(dev).contents(), *self, segments(trimmed(path@)), p),
//@beforeloop 0
        let ghost c = dev.contents();
        let ghost segs = segments(path@);
        proof { segments_some(path@, 0); }
//@loop 0 while
        invariant
            dev.dev_ok(), dev.max_offset() == old(dev).max_offset(), dev.max_offset() >= MAX_OFFSET,
            dev.contents() == old(dev).contents(), c == dev.contents(),
            path_iter.rem().len() > 0,
            forall|p: int| #[trigger] on_path(c, dirent_tab, path_iter.rem(), p) ==> on_path(c, *self, segs, p),
            all_good(c, *self, segs) ==> {
                &&& all_good(c, dirent_tab, path_iter.rem())
                &&& forall|p: int| #[trigger] tree_path(c, *self, segs, p) <==> tree_path(c, dirent_tab, path_iter.rem(), p)
            },
        ensures false,
        decreases path_iter.rem().len(),
//@loopstart 0
            let ghost tab0 = dirent_tab;
            let ghost rem0 = seq![segment@] + path_iter.rem();
            proof {
                assert forall|s: Seq<Seq<char>>| s.len() > 0 && s[0] == segment@ && #[trigger] s.drop_first() == path_iter.rem() implies s == rem0 by { assert(s =~= rem0); }
                assert(rem0.drop_first() =~= path_iter.rem());
                if all_good(c, *self, segs) { nowhere(c, tab0, rem0); }
            }
//@before let dirent_data
            let ghost q = dirent.offset as int;
            proof {
                assert(named(c, tab0, rem0[0], q));
                if path_iter.rem().len() == 0 { assert(on_path(c, tab0, rem0, q)); }
                else if node_at(c, q).dirent.attributes.spec_directory() {
                    assert forall|p: int| #[trigger] on_path(c, table_of(node_at(c, q)), path_iter.rem(), p) implies on_path(c, *self, segs, p) by {
                        assert(on_path(c, tab0, rem0, p));
                    }
                }
                if all_good(c, *self, segs) {
                    let t = choose|t: DTree| #[trigger] dtable(c, tab0, t) && dsorted(c, tab0, t);
                    assert(has_name(c, tab0, t, q - tab0.region.start(), rem0[0]));
                    assert(member(c, tab0, rem0[0], q));
                    step(c, tab0, rem0, q);
                }
            }
//@end
}
