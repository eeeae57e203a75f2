//@deps imgtree
// The image that is written: for every source, what is where.
use crate::{dirtab, bincode, layout, sector};
use crate::hier as fs;
use crate::hier::*;
use crate::btree::*;
use crate::blockdev::*;
use crate::avl::*;
use crate::avlorder::*;
use crate::layout::*;
use crate::codec::*;
use crate::records::*;
use crate::names::*;
use crate::dirent::*;
use crate::sector::*;
use crate::lookup::*;
use crate::walk::*;
use crate::scan::*;
use crate::dirtab::*;
use crate::tables::*;
use crate::imgtree::*;
use alloc::{boxed::Box, string::String, vec::Vec};
use core::cmp::Ordering;

//@file xdvdfs-core/src/write/mod.rs
//@item enum WriteError
impl<BDE, FSHE, FSCE> From<FileStructureError> for WriteError<BDE, FSHE, FSCE> {
//@fn from in impl<BDE, FSHE, FSCE> From<FileStructureError> for WriteError<BDE, FSHE, FSCE>
//@end
}
impl<BDE, FSHE, FSCE> vstd::std_specs::convert::FromSpecImpl<FileStructureError> for WriteError<BDE, FSHE, FSCE> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: FileStructureError) -> Self { WriteError::InvalidFileStructureError(v) }
}

// ---- what an image of a source is
/// which file (false) or directory (true) a sector belongs to
pub type Owners = IMap<int, (Path, bool)>;
pub type Places = Map<Path, DirectoryEntryTable>;
/// every sector of the region belongs to `who`: regions of different owners do not overlap
pub open spec fn owns(own: Owners, who: (Path, bool), sector: int, size: int) -> bool {
    forall|s: int| sector <= s < sector + sectors_of(size) ==> #[trigger] own.contains_key(s) && own[s] == who
}
/// the record at offset `o` of the table `tab` of directory `p` is that of the entry `e`, and its data is in place
pub open spec fn entry_image(f: Files, c: Seq<u8>, at: Places, own: Owners, p: Path, e: Entry, tab: DirectoryEntryTable, o: int) -> bool {
    let r = node_at(c, tab.region.start() + o).dirent; let q = p.push(e.name);
    &&& dname(c, tab, o) == Some(e.name)
    &&& r.attributes.0 == (if e.is_dir { 0x10u8 } else { 0x20u8 })
    &&& r.data.sector >= 33
    &&& e.is_dir ==> at.contains_key(q) && at[q].region == r.data
    &&& !e.is_dir ==> {
        &&& r.data.size == e.len
        &&& owns(own, (q, false), r.data.sector as int, r.data.size as int)
        &&& r.data.size > 0 ==> r.in_device(c) && r.bytes(c) == f(q)
    }
}
/// the table `tab` holds the directory `p`: a balanced search tree of exactly its entries, which walking,
/// scanning and looking up all agree on
pub open spec fn dir_image(l: Listing, f: Files, c: Seq<u8>, at: Places, own: Owners, p: Path, tab: DirectoryEntryTable, t: DTree) -> bool {
    &&& tab.region.sector >= 33 && tab.region.size > 0
    &&& owns(own, (p, true), tab.region.sector as int, tab.region.size as int)
    &&& tab.region.start() + sectors_of(tab.region.size as int) * 2048 <= c.len()
    &&& dtable(c, tab, t) && dsorted(c, tab, t) && dbal(t)
    &&& once(worder(t)) && worder(t).len() == l(p).len()
    &&& scans(c, tab, t, l(p).len())
    &&& holds_all(l, f, c, at, own, p, tab, t)
    &&& holds_only(l, f, c, at, own, p, tab, t)
}
/// every entry of the listing has its record
pub open spec fn holds_all(l: Listing, f: Files, c: Seq<u8>, at: Places, own: Owners, p: Path, tab: DirectoryEntryTable, t: DTree) -> bool {
    forall|k: int| #![trigger l(p)[k]] 0 <= k < l(p).len() ==> recorded(f, c, at, own, p, l(p)[k], tab, t)
}
pub open spec fn recorded(f: Files, c: Seq<u8>, at: Places, own: Owners, p: Path, e: Entry, tab: DirectoryEntryTable, t: DTree) -> bool {
    exists|o: int| #[trigger] contains(t, o) && entry_image(f, c, at, own, p, e, tab, o)
}
/// every record is that of an entry of the listing
pub open spec fn holds_only(l: Listing, f: Files, c: Seq<u8>, at: Places, own: Owners, p: Path, tab: DirectoryEntryTable, t: DTree) -> bool {
    forall|o: int| #[trigger] contains(t, o) ==> exists|k: int| 0 <= k < l(p).len() && entry_image(f, c, at, own, p, #[trigger] l(p)[k], tab, o)
}
pub open spec fn has_header(c: Seq<u8>, root: DirectoryEntryTable) -> bool {
    exists|v: VolumeDescriptor| v.valid() && v.root_table == root && #[trigger] v.laid_out(c.subrange(65536, 67584))
}
/// `c` is an image of the source
pub open spec fn image(l: Listing, f: Files, c: Seq<u8>, at: Places, own: Owners) -> bool {
    &&& c.len() % 65536 == 0
    &&& 65536 + 2048 <= c.len()
    &&& at.contains_key(root_path())
    &&& has_header(c, at[root_path()])
    &&& forall|s: int| #[trigger] own.contains_key(s) ==> s >= 33
    &&& forall|p: Path| #[trigger] at.contains_key(p) ==> exists|t: DTree| dir_image(l, f, c, at, own, p, at[p], t)
}
pub open spec fn packed(l: Listing, f: Files, c: Seq<u8>) -> bool { exists|at: Places, own: Owners| image(l, f, c, at, own) }

// ---- the tables to be written
pub type Tables = Map<Path, DirectoryEntryTableWriter>;
/// `m` has the tables of the source
pub open spec fn of_source(l: Listing, m: Tables) -> bool {
    &&& m.contains_key(root_path())
    &&& forall|p: Path| #[trigger] m.contains_key(p) ==> complete(m[p]) && names_differ(l(p), l(p).len() as int) && built(m[p], l(p), p, m, l(p).len() as int)
    &&& forall|p: Path| #[trigger] m.contains_key(p) ==> p == root_path() || (m.contains_key(p.drop_last()) && p.len() > 0 && has_dir(l(p.drop_last()), p.last()))
}
pub open spec fn has_dir(es: Seq<Entry>, n: Seq<char>) -> bool { exists|k: int| 0 <= k < es.len() && (#[trigger] es[k]).is_dir && es[k].name == n }
pub proof fn source_tables(l: Listing, d: Seq<DirectoryTreeEntry>, m: Tables)
    requires
        tree_of(d), all_tables(d, m),
        forall|i: int| #![trigger d[i]] 0 <= i < d.len() ==> entat(d, i) == l(pathat(d, i)),
    ensures of_source(l, m),
{
    let par = choose|par: Seq<(int, int)>| #[trigger] is_tree(d, par);
    assert(m.contains_key(pathat(d, 0)));
    assert forall|p: Path| #[trigger] m.contains_key(p) implies complete(m[p]) && names_differ(l(p), l(p).len() as int) && built(m[p], l(p), p, m, l(p).len() as int)
        && (p == root_path() || (m.contains_key(p.drop_last()) && p.len() > 0 && has_dir(l(p.drop_last()), p.last()))) by {
        let j = choose|j: int| 0 <= j < d.len() && #[trigger] pathat(d, j) == p;
        let x = d[j];
        assert(entat(d, j) == l(p));
        if j > 0 {
            let a = par[j];
            assert(child_of(d, a, p));
            assert(p.drop_last() =~= pathat(d, a.0));
            let y = d[a.0];
            assert(l(p.drop_last())[a.1].is_dir);
        }
    }
}
pub open spec fn sizes_agree(l: Listing, f: Files) -> bool {
    forall|p: Path, k: int| #![trigger l(p)[k]] 0 <= k < l(p).len() && !l(p)[k].is_dir ==> f(p.push(l(p)[k].name)).len() == l(p)[k].len
}

// ---- entries of a table and of the listing
pub open spec fn hits(q: Seq<usize>, k: int) -> bool { exists|j: int| 0 <= j < q.len() && #[trigger] q[j] == k }
/// `v` has the entries of `w` in another order
pub proof fn permuted(w: DirectoryEntryTableWriter, v: AvlTree<DirectoryEntryData>) -> (q: Seq<usize>)
    requires w.ok(), renumbered(w.table, v),
    ensures
        q.len() == w.entries().len(), v.tree@.len() == w.entries().len(), ordered(w.table, datas(v.tree@)),
        forall|j: int| #![trigger q[j]] 0 <= j < q.len() ==> q[j] < w.entries().len() && datas(v.tree@)[j] == *w.entries()[q[j] as int].data,
        forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() ==> q[i] != q[j],
        forall|k: int| 0 <= k < w.entries().len() ==> #[trigger] hits(q, k),
{
    let t = choose|t: Tree| #[trigger] w.table.shows(t) && datas(v.tree@) == data_of(w.table.tree@, preord(t));
    assert(w.table.shows(t) && datas(v.tree@) == data_of(w.table.tree@, preord(t))) by { reveal(renumbered); }
    shows_len(w.table, t);
    let q = preord(t);
    assert(datas(v.tree@).len() == q.len());
    assert(ordered(w.table, datas(v.tree@))) by { reveal(ordered); }
    assert forall|k: int| 0 <= k < w.entries().len() implies #[trigger] hits(q, k) by {
        assert(inn(t, k as usize));
        among_preord(t, k as usize);
        let j = choose|j: int| 0 <= j < q.len() && q[j] == k as usize;
        assert(q[j] == k);
    }
    q
}
/// entry `j` of the table as written is the entry `k` of the listing
pub proof fn entry_known(l: Listing, m: Tables, p: Path, v: AvlTree<DirectoryEntryData>, j: int) -> (k: int)
    requires of_source(l, m), m.contains_key(p), renumbered(m[p].table, v), 0 <= j < v.tree@.len(),
    ensures 0 <= k < l(p).len(), added(datas(v.tree@)[j], l(p)[k], p, m), v.tree@.len() == l(p).len(),
{
    let q = permuted(m[p], v);
    assert(m[p].entries().len() == l(p).len()) by { reveal(built); }
    let k = q[j] as int;
    assert(added(*m[p].entries()[k].data, l(p)[k], p, m)) by { reveal(built); }
    k
}
pub proof fn entry_written(l: Listing, m: Tables, p: Path, v: AvlTree<DirectoryEntryData>, k: int) -> (j: int)
    requires of_source(l, m), m.contains_key(p), renumbered(m[p].table, v), 0 <= k < l(p).len(),
    ensures 0 <= j < v.tree@.len(), added(datas(v.tree@)[j], l(p)[k], p, m), v.tree@.len() == l(p).len(),
{
    let q = permuted(m[p], v);
    assert(m[p].entries().len() == l(p).len()) by { reveal(built); }
    assert(hits(q, k));
    let j = choose|j: int| 0 <= j < q.len() && #[trigger] q[j] == k;
    assert(added(*m[p].entries()[k].data, l(p)[k], p, m)) by { reveal(built); }
    j
}
pub proof fn written_names_differ(l: Listing, m: Tables, p: Path, v: AvlTree<DirectoryEntryData>, i: int, j: int)
    requires of_source(l, m), m.contains_key(p), renumbered(m[p].table, v), 0 <= i < v.tree@.len(), 0 <= j < v.tree@.len(), i != j,
    ensures datas(v.tree@)[i].nm() != datas(v.tree@)[j].nm(),
{
    let q = permuted(m[p], v); let d = datas(v.tree@); let es = l(p);
    reveal(built); reveal(names_differ);
    let a = q[i] as int; let b = q[j] as int;
    assert(added(*m[p].entries()[a].data, es[a], p, m) && added(*m[p].entries()[b].data, es[b], p, m));
    if i < j { assert(q[i] != q[j]); } else { assert(q[j] != q[i]); }
    same_name_equal(es[a].name);
    if a < b { assert(name_ord(es[b].name, es[a].name) != Ordering::Equal); } else { assert(name_ord(es[a].name, es[b].name) != Ordering::Equal); }
}
/// the bytes of a table take the sectors that were set aside for it
pub proof fn table_fits(w: DirectoryEntryTableWriter, v: AvlTree<DirectoryEntryData>, sec0: int, b: Seq<u8>, size: int)
    requires complete(w), renumbered(w.table, v), table_bytes(v.tree@, sec0, b), size == w.tsize() || size == up(w.tsize()),
    ensures
        0 < size <= b.len(), size + 2048 > b.len(), b.len() == sectors_of(size) * 2048,
        end(lens_of(datas(v.tree@)), v.tree@.len() as int) <= size,
{
    hide(place); hide(lens_of); hide(datas); hide(sectors_of);
    let q = permuted(w, v); let d = datas(v.tree@); let n = v.tree@.len() as int;
    assert(d.len() == n) by { reveal(datas); }
    let e = end(lens_of(d), n);
    if n > 0 {
        assert(w.sized(w.size->Some_0 as int));
        assert(w.tsize() == e);
        sectors_filled(e, size);
    } else { sectors_filled(2048, size); }
}
pub proof fn sectors_filled(e: int, size: int)
    requires 0 < e, size == e || size == up(e),
    ensures size <= roundup(e) < size + 2048, roundup(e) == sectors_of(size) * 2048, e <= size,
{
}

// ---- while the image is being written
pub ghost struct Out { pub v: AvlTree<DirectoryEntryData>, pub sec0: int, pub b: Seq<u8> }
/// the table of `w` is on the device
#[verifier::opaque]
pub open spec fn table_in(c: Seq<u8>, tab: DirectoryEntryTable, w: DirectoryEntryTableWriter, o: Out) -> bool {
    renumbered(w.table, o.v) && table_bytes(o.v.tree@, o.sec0, o.b) && stored(c, tab, o.v.tree@, o.b)
}
/// the data of the entry `x` of directory `p` is at sector `sec`
pub open spec fn child_in(f: Files, c: Seq<u8>, at: Places, own: Owners, p: Path, x: DirectoryEntryData, sec: int) -> bool {
    let q = p.push(x.nm()); let size = x.node.data.size;
    &&& 33 <= sec <= u32::MAX
    &&& x.node.attributes.spec_directory() ==> at.contains_key(q) && at[q].region.sector == sec && at[q].region.size == size
    &&& !x.node.attributes.spec_directory() ==> {
        &&& owns(own, (q, false), sec, size as int)
        &&& size > 0 ==> sec * 2048 + size <= c.len() && c.subrange(sec * 2048, sec * 2048 + size) == f(q)
    }
}
/// so it is for the first `n` entries
#[verifier::opaque]
pub open spec fn children_in(f: Files, c: Seq<u8>, at: Places, own: Owners, p: Path, d: Seq<DirectoryEntryData>, sec0: int, n: int) -> bool {
    forall|j: int| #![trigger d[j]] 0 <= j < n ==> child_in(f, c, at, own, p, d[j], sec0 + taken(d, j))
}
pub open spec fn dir_done(f: Files, c: Seq<u8>, at: Places, own: Owners, p: Path, w: DirectoryEntryTableWriter, o: Out) -> bool {
    &&& at.contains_key(p)
    &&& table_in(c, at[p], w, o)
    &&& children_in(f, c, at, own, p, datas(o.v.tree@), o.sec0, o.v.tree@.len() as int)
}
pub open spec fn key<'a>(es: Seq<(&'a PathVec, DirectoryEntryTableWriter)>, a: int) -> Path { es[a].0.p() }
/// the first `i` directories are done
#[verifier::opaque]
pub open spec fn done_upto(f: Files, c: Seq<u8>, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, i: int) -> bool {
    &&& outs.len() == i
    &&& forall|a: int| #![trigger outs[a]] 0 <= a < i ==> dir_done(f, c, at, own, key(es, a), es[a].1, outs[a])
}
pub open spec fn before(es: Seq<(&PathVec, DirectoryEntryTableWriter)>, i: int, p: Path) -> bool { exists|a: int| 0 <= a < i && #[trigger] key(es, a) == p }
/// the sectors that were handed out
#[verifier::opaque]
pub open spec fn placed_in(m: Tables, at: Places, own: Owners, nf: int) -> bool {
    &&& forall|p: Path| #[trigger] at.contains_key(p) ==> m.contains_key(p) && place_ok(m, at, own, p)
    &&& forall|s: int| #[trigger] own.contains_key(s) ==> 33 <= s < nf
}
pub open spec fn place_ok(m: Tables, at: Places, own: Owners, p: Path) -> bool {
    &&& owns(own, (p, true), at[p].region.sector as int, at[p].region.size as int)
    &&& at[p].region.sector >= 33
    &&& at[p].region.size == m[p].tsize() || at[p].region.size == up(m[p].tsize())
}
/// only directories found so far have a place: the root, those in directories that are done, and the
/// first `j` entries of `p`
#[verifier::opaque]
pub open spec fn known(at: Places, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, i: int, p: Path, d: Seq<DirectoryEntryData>, j: int) -> bool {
    forall|q: Path| #[trigger] at.contains_key(q) ==> q == root_path() || (q.len() > 0 && (before(es, i, q.drop_last()) || (q.drop_last() == p && named(d, j, q.last()))))
}
pub open spec fn named(d: Seq<DirectoryEntryData>, n: int, x: Seq<char>) -> bool { exists|j: int| 0 <= j < n && (#[trigger] d[j]).nm() == x }
/// sectors that belong to nothing that was written
pub open spec fn open_region(own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, i: int, o: int, n: int) -> bool {
    &&& o >= 0 && o % 2048 == 0 && n >= 0
    &&& forall|s: int| o / 2048 <= s < o / 2048 + sectors_of(n) && #[trigger] own.contains_key(s) ==> own[s].1 && !before(es, i, own[s].0)
}
/// what is not written yet can be written
#[verifier::opaque]
pub open spec fn free<B: BlockDeviceWrite + ?Sized>(img: &B, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, i: int) -> bool {
    forall|o: int, n: int| #[trigger] open_region(own, es, i, o, n) ==> img.writable(o, n)
}
pub open spec fn ready<B: BlockDeviceWrite + ?Sized>(img: &B) -> bool {
    forall|o: int, n: int| o >= 0 && o % 2048 == 0 && n >= 0 ==> #[trigger] img.writable(o, n)
}
/// no bytes were changed that belong to others than `who`
pub open spec fn touched(c0: Seq<u8>, c1: Seq<u8>, own: Owners, who: (Path, bool)) -> bool {
    &&& c0.len() <= c1.len()
    &&& forall|x: int| #![trigger c1[x]] 0 <= x < c0.len() ==> c1[x] == c0[x] || !own.contains_key(x / 2048) || own[x / 2048] == who
}
pub open spec fn grows(at: Places, at1: Places, own: Owners, own1: Owners) -> bool {
    &&& forall|p: Path| #[trigger] at.contains_key(p) ==> at1.contains_key(p) && at1[p] == at[p]
    &&& forall|s: int| #[trigger] own.contains_key(s) ==> own1.contains_key(s) && own1[s] == own[s]
}

/// bytes of others stay
pub proof fn kept_bytes(c0: Seq<u8>, c1: Seq<u8>, own: Owners, who: (Path, bool), me: (Path, bool), sec: int, size: int, n: int)
    requires
        touched(c0, c1, own, who), owns(own, me, sec, size), me != who, sec >= 0,
        0 <= n <= sectors_of(size) * 2048, sec * 2048 + n <= c0.len(),
    ensures c1.subrange(sec * 2048, sec * 2048 + n) == c0.subrange(sec * 2048, sec * 2048 + n), c0.len() <= c1.len(),
{
    let a = sec * 2048;
    assert forall|x: int| a <= x < a + n implies c1[x] == c0[x] by {
        let s = x / 2048;
        assert(sec <= s < sec + sectors_of(size));
        assert(own.contains_key(s));
    }
    assert(c1.subrange(a, a + n) =~= c0.subrange(a, a + n));
}
pub proof fn keep_table(c0: Seq<u8>, c1: Seq<u8>, own: Owners, who: (Path, bool), p: Path, tab: DirectoryEntryTable, w: DirectoryEntryTableWriter, o: Out)
    requires
        touched(c0, c1, own, who), owns(own, (p, true), tab.region.sector as int, tab.region.size as int), (p, true) != who,
        table_in(c0, tab, w, o), complete(w), tab.region.size == w.tsize() || tab.region.size == up(w.tsize()),
    ensures table_in(c1, tab, w, o),
{
    reveal(table_in);
    table_fits(w, o.v, o.sec0, o.b, tab.region.size as int);
    kept_bytes(c0, c1, own, who, (p, true), tab.region.sector as int, tab.region.size as int, o.b.len() as int);
}
pub proof fn keep_children(f: Files, c0: Seq<u8>, c1: Seq<u8>, at: Places, own: Owners, p: Path, d: Seq<DirectoryEntryData>, sec0: int, n: int, who: (Path, bool))
    requires
        children_in(f, c0, at, own, p, d, sec0, n), touched(c0, c1, own, who),
        forall|j: int| #![trigger d[j]] 0 <= j < n ==> (p.push(d[j].nm()), false) != who,
    ensures children_in(f, c1, at, own, p, d, sec0, n),
{
    reveal(children_in);
    assert forall|j: int| #![trigger d[j]] 0 <= j < n implies child_in(f, c1, at, own, p, d[j], sec0 + taken(d, j)) by {
        let sec = sec0 + taken(d, j); let size = d[j].node.data.size as int;
        assert(child_in(f, c0, at, own, p, d[j], sec));
        if !d[j].node.attributes.spec_directory() && size > 0 {
            kept_bytes(c0, c1, own, who, (p.push(d[j].nm()), false), sec, size, size);
        }
    }
}
pub proof fn grow_owns(own: Owners, own1: Owners, who: (Path, bool), sec: int, size: int)
    requires owns(own, who, sec, size), forall|s: int| #[trigger] own.contains_key(s) ==> own1.contains_key(s) && own1[s] == own[s],
    ensures owns(own1, who, sec, size),
{
    assert forall|s: int| sec <= s < sec + sectors_of(size) implies #[trigger] own1.contains_key(s) && own1[s] == who by {
        assert(own.contains_key(s));
    }
}
pub proof fn grow_children(f: Files, c: Seq<u8>, at: Places, own: Owners, at1: Places, own1: Owners, p: Path, d: Seq<DirectoryEntryData>, sec0: int, n: int)
    requires children_in(f, c, at, own, p, d, sec0, n), grows(at, at1, own, own1),
    ensures children_in(f, c, at1, own1, p, d, sec0, n),
{
    reveal(children_in);
    assert forall|j: int| #![trigger d[j]] 0 <= j < n implies child_in(f, c, at1, own1, p, d[j], sec0 + taken(d, j)) by {
        let sec = sec0 + taken(d, j); let x = d[j];
        assert(child_in(f, c, at, own, p, x, sec));
        if !x.node.attributes.spec_directory() {
            grow_owns(own, own1, (p.push(x.nm()), false), sec, x.node.data.size as int);
        }
    }
}
pub proof fn push_not(p: Path, n: Seq<char>, q: Path)
    requires q.len() > 0 ==> q.drop_last() != p,
    ensures p.push(n) != q,
{
    assert(p.push(n).drop_last() =~= p);
}
pub proof fn keep_dir(f: Files, c0: Seq<u8>, c1: Seq<u8>, m: Tables, at: Places, own: Owners, p: Path, w: DirectoryEntryTableWriter, o: Out, who: (Path, bool))
    requires
        dir_done(f, c0, at, own, p, w, o), touched(c0, c1, own, who), place_ok(m, at, own, p), m[p] == w, complete(w),
        who.1 ==> who.0 != p,
        !who.1 && who.0.len() > 0 ==> who.0.drop_last() != p,
    ensures dir_done(f, c1, at, own, p, w, o),
{
    let d = datas(o.v.tree@);
    keep_table(c0, c1, own, who, p, at[p], w, o);
    assert forall|j: int| #![trigger d[j]] 0 <= j < o.v.tree@.len() implies (p.push(d[j].nm()), false) != who by {
        if !who.1 { push_not(p, d[j].nm(), who.0); }
    }
    keep_children(f, c0, c1, at, own, p, d, o.sec0, o.v.tree@.len() as int, who);
}
pub proof fn keep_done(f: Files, c0: Seq<u8>, c1: Seq<u8>, m: Tables, at: Places, own: Owners, nf: int, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, i: int, who: (Path, bool))
    requires
        done_upto(f, c0, at, own, es, outs, i), touched(c0, c1, own, who), placed_in(m, at, own, nf), in_key_order(es, m), i <= es.len(),
        forall|p: Path| #[trigger] m.contains_key(p) ==> complete(m[p]),
        who.1 ==> !before(es, i, who.0),
        !who.1 && who.0.len() > 0 ==> !before(es, i, who.0.drop_last()),
    ensures done_upto(f, c1, at, own, es, outs, i),
{
    reveal(done_upto);
    assert forall|a: int| #![trigger outs[a]] 0 <= a < i implies dir_done(f, c1, at, own, key(es, a), es[a].1, outs[a]) by {
        let p = key(es, a);
        assert(dir_done(f, c0, at, own, p, es[a].1, outs[a]));
        assert(m[p] == es[a].1 && m.contains_key(p));
        assert(place_ok(m, at, own, p)) by { reveal(placed_in); }
        assert(before(es, i, p));
        keep_dir(f, c0, c1, m, at, own, p, es[a].1, outs[a], who);
    }
}
/// what belongs to nothing can be changed
pub proof fn keep_all(f: Files, c0: Seq<u8>, c1: Seq<u8>, m: Tables, at: Places, own: Owners, nf: int, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>)
    requires
        done_upto(f, c0, at, own, es, outs, es.len() as int), placed_in(m, at, own, nf), in_key_order(es, m),
        forall|p: Path| #[trigger] m.contains_key(p) ==> complete(m[p]),
        c0.len() <= c1.len(), forall|x: int| #![trigger c1[x]] 0 <= x < c0.len() ==> c1[x] == c0[x] || !own.contains_key(x / 2048),
    ensures done_upto(f, c1, at, own, es, outs, es.len() as int),
{
    reveal(done_upto);
    assert forall|a: int| #![trigger outs[a]] 0 <= a < es.len() implies dir_done(f, c1, at, own, key(es, a), es[a].1, outs[a]) by {
        let p = key(es, a); let who = (p, false);
        assert(dir_done(f, c0, at, own, p, es[a].1, outs[a]));
        assert(m[p] == es[a].1 && m.contains_key(p));
        assert(place_ok(m, at, own, p)) by { reveal(placed_in); }
        assert(touched(c0, c1, own, who));
        if p.len() > 0 { assert(p.drop_last().len() != p.len()); }
        keep_dir(f, c0, c1, m, at, own, p, es[a].1, outs[a], who);
    }
}
pub proof fn grow_done(f: Files, c: Seq<u8>, at: Places, own: Owners, at1: Places, own1: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, i: int)
    requires done_upto(f, c, at, own, es, outs, i), grows(at, at1, own, own1),
    ensures done_upto(f, c, at1, own1, es, outs, i),
{
    reveal(done_upto);
    assert forall|a: int| #![trigger outs[a]] 0 <= a < i implies dir_done(f, c, at1, own1, key(es, a), es[a].1, outs[a]) by {
        let o = outs[a];
        assert(dir_done(f, c, at, own, key(es, a), es[a].1, o));
        grow_children(f, c, at, own, at1, own1, key(es, a), datas(o.v.tree@), o.sec0, o.v.tree@.len() as int);
    }
}
/// `own` with the sectors of a new region
pub open spec fn claim(own: Owners, who: (Path, bool), sec: int, size: int) -> Owners {
    IMap::new(|s: int| own.contains_key(s) || sec <= s < sec + sectors_of(size), |s: int| if own.contains_key(s) { own[s] } else { who })
}
pub proof fn claimed(m: Tables, at: Places, own: Owners, who: (Path, bool), sec: int, size: int)
    requires placed_in(m, at, own, sec), sec >= 33,
    ensures
        owns(claim(own, who, sec, size), who, sec, size), grows(at, at, own, claim(own, who, sec, size)),
        placed_in(m, at, claim(own, who, sec, size), sec + sectors_of(size)),
{
    reveal(placed_in);
    let own1 = claim(own, who, sec, size);
    assert forall|s: int| sec <= s < sec + sectors_of(size) implies #[trigger] own1.contains_key(s) && own1[s] == who by {
        assert(!own.contains_key(s));
    }
    assert forall|p: Path| #[trigger] at.contains_key(p) implies m.contains_key(p) && place_ok(m, at, own1, p) by {
        assert(place_ok(m, at, own, p));
    }
}

pub open spec fn dirs_agree(dirs: Map<Path, u64>, at: Places) -> bool {
    forall|p: Path| #![trigger dirs.contains_key(p)] #![trigger at.contains_key(p)] (dirs.contains_key(p) <==> at.contains_key(p)) && (at.contains_key(p) ==> dirs[p] == at[p].region.sector)
}
pub open spec fn no_data() -> Seq<DirectoryEntryData> { Seq::empty() }
/// before the directory `i` is written
pub open spec fn at_dir(f: Files, c: Seq<u8>, m: Tables, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, i: int, nf: int, dirs: Map<Path, u64>) -> bool {
    &&& 0 <= i <= es.len()
    &&& in_key_order(es, m)
    &&& nf >= 33
    &&& at.contains_key(root_path())
    &&& placed_in(m, at, own, nf)
    &&& done_upto(f, c, at, own, es, outs, i)
    &&& known(at, es, i, root_path(), no_data(), 0)
    &&& dirs_agree(dirs, at)
}
/// before the entry `j` of the directory `i` is written
pub open spec fn at_entry(f: Files, c: Seq<u8>, m: Tables, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, i: int, o: Out, j: int, dirs: Map<Path, u64>) -> bool {
    let p = key(es, i); let d = datas(o.v.tree@);
    &&& 0 <= i < es.len()
    &&& in_key_order(es, m)
    &&& o.sec0 >= 33
    &&& 0 <= j <= d.len()
    &&& at.contains_key(root_path()) && at.contains_key(p)
    &&& placed_in(m, at, own, o.sec0 + taken(d, j))
    &&& done_upto(f, c, at, own, es, outs, i)
    &&& table_in(c, at[p], es[i].1, o)
    &&& children_in(f, c, at, own, p, d, o.sec0, j)
    &&& known(at, es, i, p, d, j)
    &&& dirs_agree(dirs, at)
}
pub open spec fn all_complete(m: Tables) -> bool { forall|p: Path| #[trigger] m.contains_key(p) ==> complete(m[p]) }

pub open spec fn first_place(root: DirectoryEntryTable) -> Places { Map::empty().insert(root_path(), root) }
pub open spec fn first_owner(root: DirectoryEntryTable) -> Owners { claim(IMap::empty(), (root_path(), true), root.region.sector as int, root.region.size as int) }
pub proof fn starts<B: BlockDeviceWrite + ?Sized>(f: Files, img: &B, m: Tables, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, root: DirectoryEntryTable, nf: int, dirs: Map<Path, u64>)
    requires
        in_key_order(es, m), m.contains_key(root_path()), all_complete(m), root.region.sector >= 33,
        root.region.size == m[root_path()].tsize(), nf == root.region.sector + sectors_of(root.region.size as int),
        dirs =~= Map::empty().insert(root_path(), root.region.sector as u64), ready(img),
    ensures
        at_dir(f, img.wcontents(), m, first_place(root), first_owner(root), es, Seq::empty(), 0, nf, dirs),
        free(img, first_owner(root), es, 0),
{
    reveal(placed_in); reveal(done_upto); reveal(known); reveal(free);
    let at = first_place(root); let own = first_owner(root);
    assert(place_ok(m, at, own, root_path()));
    assert forall|o: int, n: int| #[trigger] open_region(own, es, 0, o, n) implies img.writable(o, n) by {}
}
pub proof fn first_is_root(p: Path)
    requires p != root_path() ==> path_lt(p, root_path()),
    ensures p == root_path(),
{
}
/// a directory has its place before its turn comes
pub proof fn has_place(l: Listing, f: Files, c: Seq<u8>, m: Tables, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, i: int, nf: int, dirs: Map<Path, u64>)
    requires at_dir(f, c, m, at, own, es, outs, i, nf, dirs), i < es.len(), of_source(l, m),
    ensures
        at.contains_key(key(es, i)), m.contains_key(key(es, i)), m[key(es, i)] == es[i].1, !before(es, i, key(es, i)),
        dirs.contains_key(key(es, i)), dirs[key(es, i)] == at[key(es, i)].region.sector, at[key(es, i)].region.sector >= 33,
{
    let p = key(es, i);
    assert(m.contains_key(p) && m[p] == es[i].1);
    assert(!before(es, i, p)) by {
        if before(es, i, p) { let a = choose|a: int| 0 <= a < i && #[trigger] key(es, a) == p; assert(es[a].0.p() != es[i].0.p()); }
    }
    if p != root_path() {
        let pp = p.drop_last(); let a = choose|a: int| 0 <= a < es.len() && (#[trigger] es[a]).0.p() == pp;
        assert(m.contains_key(pp));
        assert(es[a].0.p() == pp);
        assert(p.take(pp.len() as int) =~= pp);
        prefix_first(pp, p);
        if a > i { assert(path_lt(es[i].0.p(), es[a].0.p())); }
        assert(a != i) by { assert(pp.len() != p.len()); }
        reveal(done_upto);
        let o = outs[a]; let d = datas(o.v.tree@);
        assert(dir_done(f, c, at, own, key(es, a), es[a].1, o));
        let k = choose|k: int| 0 <= k < l(pp).len() && (#[trigger] l(pp)[k]).is_dir && l(pp)[k].name == p.last();
        assert(renumbered(m[pp].table, o.v)) by { reveal(table_in); }
        let j = entry_written(l, m, pp, o.v, k);
        assert(child_in(f, c, at, own, pp, d[j], o.sec0 + taken(d, j))) by { reveal(children_in); }
        assert(0x10u8 & 0x10u8 != 0) by (bit_vector);
        assert(pp.push(p.last()) =~= p);
    }
    assert(place_ok(m, at, own, p)) by { reveal(placed_in); }
}

/// sectors owned by `who`, from those that are open at the next step: what was just written stays apart
pub proof fn still_open(own: Owners, own1: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, i: int, i1: int, sec: int, size: int, n: int, who: (Path, bool), o: int, m: int)
    requires
        open_region(own1, es, i1, o, m), owns(own1, who, sec, size), sec >= 0, 0 <= n, up(n) / 2048 <= sectors_of(size),
        !who.1 || before(es, i1, who.0), i <= i1,
        forall|s: int| #[trigger] own.contains_key(s) ==> own1.contains_key(s) && own1[s] == own[s],
    ensures open_region(own, es, i, o, m), apart(sec * 2048, n, o, m),
{
    let so = o / 2048; let a = sec * 2048;
    assert(up(a + n) / 2048 == sec + up(n) / 2048);
    assert(up(o + m) / 2048 == so + up(m) / 2048);
    assert(m > 0 ==> up(m) / 2048 == sectors_of(m));
    assert forall|s: int| so <= s < so + sectors_of(m) && #[trigger] own.contains_key(s) implies own[s].1 && !before(es, i, own[s].0) by {
        assert(own1.contains_key(s));
        if before(es, i, own[s].0) { let x = choose|x: int| 0 <= x < i && #[trigger] key(es, x) == own[s].0; assert(x < i1 && key(es, x) == own1[s].0); }
    }
    if !apart(a, n, o, m) {
        let s = if so < sec { sec } else { so };
        assert(sec <= s < sec + sectors_of(size));
        assert(so <= s < so + sectors_of(m));
        assert(own1.contains_key(s));
    }
}
/// the table of the directory `i` may be written
pub proof fn may_write<B: BlockDeviceWrite + ?Sized>(img: &B, m: Tables, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, i: int, nf: int, o: Out)
    requires
        free(img, own, es, i), placed_in(m, at, own, nf), at.contains_key(key(es, i)), !before(es, i, key(es, i)), m[key(es, i)] == es[i].1,
        complete(es[i].1), renumbered(es[i].1.table, o.v), table_bytes(o.v.tree@, o.sec0, o.b),
    ensures img.writable(at[key(es, i)].region.sector * 2048, o.b.len() as int),
{
    reveal(free);
    let p = key(es, i); let r = at[p].region;
    assert(place_ok(m, at, own, p)) by { reveal(placed_in); }
    table_fits(es[i].1, o.v, o.sec0, o.b, r.size as int);
    assert(open_region(own, es, i, r.sector * 2048, o.b.len() as int)) by {
        assert(sectors_of(o.b.len() as int) == sectors_of(r.size as int));
        assert forall|s: int| r.sector <= s < r.sector + sectors_of(r.size as int) && #[trigger] own.contains_key(s) implies own[s] == (p, true) by {}
    }
}
/// it was written
pub proof fn wrote_table<B: BlockDeviceWrite + ?Sized>(f: Files, img0: &B, img1: &B, m: Tables, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, i: int, o: Out, dirs: Map<Path, u64>)
    requires
        at_dir(f, img0.wcontents(), m, at, own, es, outs, i, o.sec0, dirs), i < es.len(), free(img0, own, es, i), all_complete(m),
        at.contains_key(key(es, i)), !before(es, i, key(es, i)), m[key(es, i)] == es[i].1,
        renumbered(es[i].1.table, o.v), table_bytes(o.v.tree@, o.sec0, o.b),
        write_effect(img0.wcontents(), img1.wcontents(), at[key(es, i)].region.sector * 2048, o.b),
        forall|a: int, n: int| img0.writable(a, n) && apart(at[key(es, i)].region.sector * 2048, o.b.len() as int, a, n) ==> #[trigger] img1.writable(a, n),
    ensures
        at_entry(f, img1.wcontents(), m, at, own, es, outs, i, o, 0, dirs), free(img1, own, es, i + 1),
{
    let p = key(es, i); let r = at[p].region; let c0 = img0.wcontents(); let c1 = img1.wcontents(); let w = es[i].1; let st = r.sector * 2048;
    assert(m.contains_key(p)) by { assert(es[i].0.p() == p); }
    assert(place_ok(m, at, own, p)) by { reveal(placed_in); }
    table_fits(w, o.v, o.sec0, o.b, r.size as int);
    let who = (p, true);
    assert(touched(c0, c1, own, who)) by {
        assert forall|x: int| #![trigger c1[x]] 0 <= x < c0.len() implies c1[x] == c0[x] || !own.contains_key(x / 2048) || own[x / 2048] == who by {
            if st <= x < st + o.b.len() {
                assert(r.sector <= x / 2048 < r.sector + sectors_of(r.size as int));
                assert(own.contains_key(x / 2048));
            }
        }
    }
    keep_done(f, c0, c1, m, at, own, o.sec0, es, outs, i, who);
    assert(table_in(c1, at[p], w, o)) by {
        reveal(table_in);
        assert(c1.subrange(st, st + o.b.len()) =~= o.b);
    }
    let d = datas(o.v.tree@);
    assert(children_in(f, c1, at, own, p, d, o.sec0, 0)) by { reveal(children_in); }
    assert(known(at, es, i, p, d, 0)) by { reveal(known); }
    assert(free(img1, own, es, i + 1)) by {
        reveal(free);
        assert(before(es, i + 1, p)) by { assert(key(es, i) == p); }
        assert forall|a: int, n: int| #[trigger] open_region(own, es, i + 1, a, n) implies img1.writable(a, n) by {
            still_open(own, own, es, i, i + 1, r.sector as int, r.size as int, o.b.len() as int, who, a, n);
        }
    }
}
/// a directory entry gets its place
pub proof fn placed_dir<B: BlockDeviceWrite + ?Sized>(l: Listing, f: Files, img: &B, m: Tables, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, i: int, o: Out, j: int, dirs: Map<Path, u64>, at1: Places, own1: Owners)
    requires
        at_entry(f, img.wcontents(), m, at, own, es, outs, i, o, j, dirs), j < datas(o.v.tree@).len(), free(img, own, es, i + 1), of_source(l, m),
        !before(es, i, key(es, i)), m.contains_key(key(es, i)), m[key(es, i)] == es[i].1,
        datas(o.v.tree@)[j].node.attributes.spec_directory(),
        o.sec0 + taken(datas(o.v.tree@), datas(o.v.tree@).len() as int) <= u32::MAX,
        at1 == at.insert(key(es, i).push(datas(o.v.tree@)[j].nm()), entry_place(o, j)),
        own1 == claim(own, (key(es, i).push(datas(o.v.tree@)[j].nm()), true), o.sec0 + taken(datas(o.v.tree@), j), datas(o.v.tree@)[j].node.data.size as int),
    ensures
        at_entry(f, img.wcontents(), m, at1, own1, es, outs, i, o, j + 1, dirs.insert(key(es, i).push(datas(o.v.tree@)[j].nm()), (o.sec0 + taken(datas(o.v.tree@), j)) as u64)),
        free(img, own1, es, i + 1),
{
    let p = key(es, i); let d = datas(o.v.tree@); let x = d[j]; let q = p.push(x.nm()); let c = img.wcontents();
    let sec = o.sec0 + taken(d, j); let size = x.node.data.size as int; let who = (q, true);
    taken_mono(d, 0, j); taken_mono(d, j + 1, d.len() as int);
    assert(renumbered(m[p].table, o.v)) by { reveal(table_in); }
    assert(q.drop_last() =~= p && q.last() == x.nm());
    assert(!at.contains_key(q)) by {
        reveal(known);
        if at.contains_key(q) {
            let h = choose|h: int| 0 <= h < j && (#[trigger] d[h]).nm() == q.last();
            written_names_differ(l, m, p, o.v, h, j);
        }
    }
    let k = entry_known(l, m, p, o.v, j);
    assert(m.contains_key(q) && size == up(m[q].tsize())) by {
        assert(0x20u8 & 0x10u8 == 0) by (bit_vector);
    }
    claimed(m, at, own, who, sec, size);
    assert(grows(at, at1, own, own1));
    assert(placed_in(m, at1, own1, o.sec0 + taken(d, j + 1))) by {
        reveal(placed_in);
        assert forall|y: Path| #[trigger] at1.contains_key(y) implies m.contains_key(y) && place_ok(m, at1, own1, y) by {
            if y != q { assert(at.contains_key(y)); assert(place_ok(m, at, own1, y)); }
        }
    }
    grow_done(f, c, at, own, at1, own1, es, outs, i);
    grow_children(f, c, at, own, at1, own1, p, d, o.sec0, j);
    assert(children_in(f, c, at1, own1, p, d, o.sec0, j + 1)) by {
        reveal(children_in);
        assert(child_in(f, c, at1, own1, p, x, sec));
    }
    assert(known(at1, es, i, p, d, j + 1)) by {
        reveal(known);
        assert forall|y: Path| #[trigger] at1.contains_key(y) implies y == root_path() || (y.len() > 0 && (before(es, i, y.drop_last()) || (y.drop_last() == p && named(d, j + 1, y.last())))) by {
            if y != q { assert(at.contains_key(y)); if named(d, j, y.last()) { let h = choose|h: int| 0 <= h < j && (#[trigger] d[h]).nm() == y.last(); assert(d[h].nm() == y.last()); } }
            else { assert(d[j].nm() == y.last()); }
        }
    }
    assert(free(img, own1, es, i + 1)) by {
        reveal(free);
        assert forall|a: int, n: int| #[trigger] open_region(own1, es, i + 1, a, n) implies img.writable(a, n) by {
            assert forall|s: int| a / 2048 <= s < a / 2048 + sectors_of(n) && #[trigger] own.contains_key(s) implies own[s].1 && !before(es, i + 1, own[s].0) by { assert(own1.contains_key(s)); }
            assert(open_region(own, es, i + 1, a, n));
        }
    }
}
/// the place of the entry `j`
pub open spec fn entry_place(o: Out, j: int) -> DirectoryEntryTable {
    let d = datas(o.v.tree@);
    DirectoryEntryTable { region: DiskRegion { sector: (o.sec0 + taken(d, j)) as u32, size: d[j].node.data.size } }
}
pub proof fn may_copy<B: BlockDeviceWrite + ?Sized>(img: &B, m: Tables, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, i: int, sec: int, n: int)
    requires free(img, own, es, i), placed_in(m, at, own, sec), sec >= 33, n >= 0,
    ensures img.writable(sec * 2048, n),
{
    reveal(free); reveal(placed_in);
    assert(open_region(own, es, i, sec * 2048, n));
}
pub proof fn copied_bytes(c0: Seq<u8>, c1: Seq<u8>, b: Seq<u8>, st: int, size: int)
    requires copied(c0, c1, b, 0, st, size), b.len() == size, size > 0, st >= 0,
    ensures st + size <= c1.len(), c1.subrange(st, st + size) == b,
{
    assert(part(size, size, 0) == size);
    assert forall|y: int| 0 <= y < size implies #[trigger] c1.subrange(st, st + size)[y] == b[y] by { assert(c1[st + y] == b[0 + y]); }
    assert(c1.subrange(st, st + size) =~= b);
}
/// a file was copied to its place
pub proof fn copied_file<B: BlockDeviceWrite + ?Sized>(l: Listing, f: Files, img0: &B, img1: &B, m: Tables, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, i: int, o: Out, j: int, dirs: Map<Path, u64>, own1: Owners)
    requires
        at_entry(f, img0.wcontents(), m, at, own, es, outs, i, o, j, dirs), j < datas(o.v.tree@).len(), free(img0, own, es, i + 1), of_source(l, m), sizes_agree(l, f), all_complete(m),
        !before(es, i, key(es, i)), m.contains_key(key(es, i)), m[key(es, i)] == es[i].1,
        !datas(o.v.tree@)[j].node.attributes.spec_directory(),
        o.sec0 + taken(datas(o.v.tree@), datas(o.v.tree@).len() as int) <= u32::MAX,
        own1 == claim(own, (key(es, i).push(datas(o.v.tree@)[j].nm()), false), o.sec0 + taken(datas(o.v.tree@), j), datas(o.v.tree@)[j].node.data.size as int),
        copied(img0.wcontents(), img1.wcontents(), f(key(es, i).push(datas(o.v.tree@)[j].nm())), 0, (o.sec0 + taken(datas(o.v.tree@), j)) * 2048, datas(o.v.tree@)[j].node.data.size as int),
        forall|a: int, n: int| img0.writable(a, n) && apart((o.sec0 + taken(datas(o.v.tree@), j)) * 2048, datas(o.v.tree@)[j].node.data.size as int, a, n) ==> #[trigger] img1.writable(a, n),
    ensures
        at_entry(f, img1.wcontents(), m, at, own1, es, outs, i, o, j + 1, dirs),
        free(img1, own1, es, i + 1),
{
    let p = key(es, i); let d = datas(o.v.tree@); let x = d[j]; let q = p.push(x.nm()); let c0 = img0.wcontents(); let c1 = img1.wcontents();
    let sec = o.sec0 + taken(d, j); let size = x.node.data.size as int; let who = (q, false); let st = sec * 2048;
    taken_mono(d, 0, j); taken_mono(d, j + 1, d.len() as int);
    assert(renumbered(m[p].table, o.v)) by { reveal(table_in); }
    assert(q.drop_last() =~= p && q.last() == x.nm());
    let k = entry_known(l, m, p, o.v, j);
    assert(0x10u8 & 0x10u8 != 0) by (bit_vector);
    assert(l(p)[k].name == x.nm() && f(q).len() == size);
    claimed(m, at, own, who, sec, size);
    assert(touched(c0, c1, own1, who)) by {
        assert forall|y: int| #![trigger c1[y]] 0 <= y < c0.len() implies c1[y] == c0[y] || !own1.contains_key(y / 2048) || own1[y / 2048] == who by {
            if st <= y < st + size {
                assert(sec <= y / 2048 < sec + sectors_of(size));
                assert(own1.contains_key(y / 2048));
            }
        }
    }
    grow_done(f, c0, at, own, at, own1, es, outs, i);
    keep_done(f, c0, c1, m, at, own1, o.sec0 + taken(d, j + 1), es, outs, i, who);
    assert(place_ok(m, at, own1, p)) by { reveal(placed_in); }
    keep_table(c0, c1, own1, who, p, at[p], es[i].1, o);
    grow_children(f, c0, at, own, at, own1, p, d, o.sec0, j);
    assert forall|h: int| #![trigger d[h]] 0 <= h < j implies (p.push(d[h].nm()), false) != who by {
        written_names_differ(l, m, p, o.v, h, j);
        assert(p.push(d[h].nm()).last() == d[h].nm());
    }
    keep_children(f, c0, c1, at, own1, p, d, o.sec0, j, who);
    assert(children_in(f, c1, at, own1, p, d, o.sec0, j + 1)) by {
        reveal(children_in);
        if size > 0 {
            copied_bytes(c0, c1, f(q), st, size);
        }
        assert(child_in(f, c1, at, own1, p, x, sec));
    }
    assert(known(at, es, i, p, d, j + 1)) by {
        reveal(known);
        assert forall|y: Path| #[trigger] at.contains_key(y) implies y == root_path() || (y.len() > 0 && (before(es, i, y.drop_last()) || (y.drop_last() == p && named(d, j + 1, y.last())))) by {
            if named(d, j, y.last()) { let h = choose|h: int| 0 <= h < j && (#[trigger] d[h]).nm() == y.last(); assert(d[h].nm() == y.last()); }
        }
    }
    assert(free(img1, own1, es, i + 1)) by {
        reveal(free);
        assert forall|a: int, n: int| #[trigger] open_region(own1, es, i + 1, a, n) implies img1.writable(a, n) by {
            still_open(own, own1, es, i + 1, i + 1, sec, size, size, who, a, n);
        }
    }
}
/// all entries of the directory are done
pub proof fn done_dir(f: Files, c: Seq<u8>, m: Tables, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, i: int, o: Out, dirs: Map<Path, u64>)
    requires at_entry(f, c, m, at, own, es, outs, i, o, datas(o.v.tree@).len() as int, dirs),
    ensures at_dir(f, c, m, at, own, es, outs.push(o), i + 1, o.sec0 + taken(datas(o.v.tree@), datas(o.v.tree@).len() as int), dirs),
{
    let d = datas(o.v.tree@); let p = key(es, i); let outs1 = outs.push(o);
    taken_mono(d, 0, d.len() as int);
    assert(done_upto(f, c, at, own, es, outs1, i + 1)) by {
        reveal(done_upto);
        assert forall|a: int| #![trigger outs1[a]] 0 <= a < i + 1 implies dir_done(f, c, at, own, key(es, a), es[a].1, outs1[a]) by {
            if a < i { assert(dir_done(f, c, at, own, key(es, a), es[a].1, outs[a])); }
        }
    }
    assert(known(at, es, i + 1, root_path(), no_data(), 0)) by {
        reveal(known);
        assert forall|y: Path| #[trigger] at.contains_key(y) && y != root_path() implies y.len() > 0 && before(es, i + 1, y.drop_last()) by {
            if before(es, i, y.drop_last()) { let a = choose|a: int| 0 <= a < i && #[trigger] key(es, a) == y.drop_last(); assert(key(es, a) == y.drop_last()); }
            else { assert(key(es, i) == y.drop_last()); }
        }
    }
}

// ---- what was written is an image of the source
/// the record of entry `j` of the directory `p`, which is the entry `k` of its listing
pub proof fn entry_done(l: Listing, f: Files, c: Seq<u8>, m: Tables, at: Places, own: Owners, p: Path, o: Out, t: DTree, j: int, k: int)
    requires
        children_in(f, c, at, own, p, datas(o.v.tree@), o.sec0, o.v.tree@.len() as int), each_at(o.v.tree@, o.sec0, c, at[p], t),
        0 <= j < o.v.tree@.len(), 0 <= k < l(p).len(), added(datas(o.v.tree@)[j], l(p)[k], p, m),
    ensures
        contains(t, place(lens_of(datas(o.v.tree@)), j)),
        entry_image(f, c, at, own, p, l(p)[k], at[p], place(lens_of(datas(o.v.tree@)), j)),
{
    let s = o.v.tree@; let d = datas(s); let off = place(lens_of(d), j); let x = d[j]; let q = p.push(l(p)[k].name);
    assert(contains(t, off) && seen(s, o.sec0, c, at[p], j)) by { reveal(each_at); assert(s[j] == s[j]); }
    assert(child_in(f, c, at, own, p, x, o.sec0 + taken(d, j))) by { reveal(children_in); }
    assert(0x10u8 & 0x10u8 != 0 && 0x20u8 & 0x10u8 == 0) by (bit_vector);
    assert(node_at(c, at[p].region.start() + off) == disk_node(s, o.sec0, j));
    let r = disk_node(s, o.sec0, j).dirent;
    assert(x == *s[j].data);
    assert(r.data.sector == o.sec0 + taken(d, j) && r.data.size == x.node.data.size);
}
pub proof fn all_there(l: Listing, f: Files, c: Seq<u8>, m: Tables, at: Places, own: Owners, p: Path, o: Out, t: DTree)
    requires
        children_in(f, c, at, own, p, datas(o.v.tree@), o.sec0, o.v.tree@.len() as int), each_at(o.v.tree@, o.sec0, c, at[p], t),
        renumbered(m[p].table, o.v), of_source(l, m), m.contains_key(p),
    ensures holds_all(l, f, c, at, own, p, at[p], t),
{
    hide(entry_image); hide(place); hide(lens_of); hide(of_source); hide(added); hide(datas);
    assert forall|k: int| #![trigger l(p)[k]] 0 <= k < l(p).len() implies recorded(f, c, at, own, p, l(p)[k], at[p], t) by {
        let j = entry_written(l, m, p, o.v, k);
        entry_done(l, f, c, m, at, own, p, o, t, j, k);
        assert(contains(t, place(lens_of(datas(o.v.tree@)), j)));
    }
}
pub proof fn only_there(l: Listing, f: Files, c: Seq<u8>, m: Tables, at: Places, own: Owners, p: Path, o: Out, t: DTree)
    requires
        children_in(f, c, at, own, p, datas(o.v.tree@), o.sec0, o.v.tree@.len() as int), each_at(o.v.tree@, o.sec0, c, at[p], t),
        renumbered(m[p].table, o.v), of_source(l, m), m.contains_key(p),
    ensures holds_only(l, f, c, at, own, p, at[p], t),
{
    hide(entry_image); hide(place); hide(lens_of); hide(of_source); hide(added); hide(datas);
    let s = o.v.tree@;
    assert forall|x: int| #[trigger] contains(t, x) implies exists|k: int| 0 <= k < l(p).len() && entry_image(f, c, at, own, p, #[trigger] l(p)[k], at[p], x) by {
        assert(exists|j: int| 0 <= j < s.len() && x == #[trigger] place(lens_of(datas(s)), j)) by { reveal(each_at); }
        let j = choose|j: int| 0 <= j < s.len() && x == #[trigger] place(lens_of(datas(s)), j);
        let k = entry_known(l, m, p, o.v, j);
        entry_done(l, f, c, m, at, own, p, o, t, j, k);
        assert(entry_image(f, c, at, own, p, l(p)[k], at[p], x));
    }
}
pub proof fn dir_written(l: Listing, f: Files, c: Seq<u8>, m: Tables, at: Places, own: Owners, p: Path, o: Out) -> (t: DTree)
    requires
        dir_done(f, c, at, own, p, m[p], o), place_ok(m, at, own, p), of_source(l, m), m.contains_key(p), complete(m[p]), sizes_agree(l, f),
    ensures dir_image(l, f, c, at, own, p, at[p], t),
{
    hide(holds_all); hide(holds_only); hide(scans); hide(place); hide(lens_of); hide(of_source); hide(owns); hide(table_bytes); hide(dbal); hide(dsorted); hide(dtable); hide(worder); hide(each_at); hide(once);
    let w = m[p]; let tab = at[p]; let s = o.v.tree@;
    assert(renumbered(w.table, o.v) && table_bytes(s, o.sec0, o.b) && stored(c, tab, s, o.b)) by { reveal(table_in); }
    table_fits(w, o.v, o.sec0, o.b, tab.region.size as int);
    let t = written_table(w, o.v, o.sec0, o.b, c, tab);
    assert(w.entries().len() == l(p).len()) by { reveal(of_source); reveal(built); }
    all_there(l, f, c, m, at, own, p, o, t);
    only_there(l, f, c, m, at, own, p, o, t);
    t
}
pub proof fn is_image(l: Listing, f: Files, c: Seq<u8>, m: Tables, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, nf: int, dirs: Map<Path, u64>)
    requires
        at_dir(f, c, m, at, own, es, outs, es.len() as int, nf, dirs), of_source(l, m), sizes_agree(l, f), all_complete(m),
        c.len() % 65536 == 0, 67584 <= c.len(), has_header(c, at[root_path()]),
    ensures packed(l, f, c),
{
    assert forall|p: Path| #[trigger] at.contains_key(p) implies exists|t: DTree| dir_image(l, f, c, at, own, p, at[p], t) by {
        assert(m.contains_key(p) && place_ok(m, at, own, p)) by { reveal(placed_in); }
        let a = choose|a: int| 0 <= a < es.len() && (#[trigger] es[a]).0.p() == p;
        assert(es[a].0.p() == p && m[p] == es[a].1);
        assert(dir_done(f, c, at, own, key(es, a), es[a].1, outs[a])) by { reveal(done_upto); }
        let t = dir_written(l, f, c, m, at, own, p, outs[a]);
    }
    assert forall|s: int| #[trigger] own.contains_key(s) implies s >= 33 by { reveal(placed_in); }
    assert(image(l, f, c, at, own));
}

pub proof fn of_source_complete(l: Listing, m: Tables)
    requires of_source(l, m),
    ensures all_complete(m), m.contains_key(root_path()),
{
}
/// an image stays well below the end of the address space
pub spec const FAR: int = 0x1000_0000_0000;
pub open spec fn small(len0: int, c: Seq<u8>) -> bool { c.len() <= grown(len0, FAR) }
pub proof fn wrote_small(len0: int, c0: Seq<u8>, c1: Seq<u8>, off: int, b: Seq<u8>)
    requires small(len0, c0), write_effect(c0, c1, off, b), off + b.len() <= FAR - 2048,
    ensures small(len0, c1),
{
}
pub proof fn copied_small(len0: int, c0: Seq<u8>, c1: Seq<u8>, b: Seq<u8>, off: int, size: int)
    requires small(len0, c0), copied(c0, c1, b, 0, off, size), off + size <= FAR - 2048,
    ensures small(len0, c1),
{
}
/// all that the main function needs to know about its tables
pub open spec fn turn(l: Listing, f: Files, m: Tables, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, i: int) -> bool {
    &&& of_source(l, m) && sizes_agree(l, f) && all_complete(m)
    &&& 0 <= i < es.len()
    &&& !before(es, i, key(es, i)) && m.contains_key(key(es, i)) && m[key(es, i)] == es[i].1
}
pub proof fn is_small(c: Seq<u8>)
    ensures small(c.len() as int, c),
{
}
/// the directory `i` is next
pub proof fn next_dir(l: Listing, f: Files, c: Seq<u8>, m: Tables, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, i: int, nf: int, dirs: Map<Path, u64>)
    requires at_dir(f, c, m, at, own, es, outs, i, nf, dirs), 0 <= i < es.len(), of_source(l, m), sizes_agree(l, f),
    ensures
        turn(l, f, m, es, i), es[i].1.ok(), complete(es[i].1), nf >= 33, placed_in(m, at, own, nf),
        at.contains_key(key(es, i)), place_ok(m, at, own, key(es, i)),
        dirs.contains_key(key(es, i)), dirs[key(es, i)] == at[key(es, i)].region.sector,
{
    has_place(l, f, c, m, at, own, es, outs, i, nf, dirs);
    assert(place_ok(m, at, own, key(es, i))) by { reveal(placed_in); }
}
/// the entry `j` is next
pub proof fn next_entry<B: BlockDeviceWrite + ?Sized>(f: Files, img: &B, m: Tables, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, i: int, o: Out, j: int, dirs: Map<Path, u64>, fl: Seq<FileListingEntry>, nf: u32)
    requires
        at_entry(f, img.wcontents(), m, at, own, es, outs, i, o, j, dirs), free(img, own, es, i + 1), listed(datas(o.v.tree@), o.sec0, fl, datas(o.v.tree@).len() as int),
        0 <= j < fl.len(), nf == o.sec0 + taken(datas(o.v.tree@), datas(o.v.tree@).len() as int),
    ensures
        j < datas(o.v.tree@).len(), 33 <= o.sec0 + taken(datas(o.v.tree@), j) <= u32::MAX,
        fl[j].name@ == datas(o.v.tree@)[j].nm(),
        fl[j].sector == o.sec0 + taken(datas(o.v.tree@), j),
        fl[j].size == datas(o.v.tree@)[j].node.data.size,
        fl[j].is_dir == datas(o.v.tree@)[j].node.attributes.spec_directory(),
        img.writable((o.sec0 + taken(datas(o.v.tree@), j)) * 2048, datas(o.v.tree@)[j].node.data.size as int),
        key(es, i).push(datas(o.v.tree@)[j].nm()) != root_path(),
{
    let d = datas(o.v.tree@);
    reveal(listed);
    taken_mono(d, 0, j); taken_mono(d, j + 1, d.len() as int);
    may_copy(img, m, at, own, es, i + 1, o.sec0 + taken(d, j), d[j].node.data.size as int);
    assert(key(es, i).push(d[j].nm()).len() > 0);
}

pub proof fn may_header<B: BlockDeviceWrite + ?Sized>(img: &B, f: Files, m: Tables, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, nf: int, dirs: Map<Path, u64>, n: int)
    requires free(img, own, es, es.len() as int), at_dir(f, img.wcontents(), m, at, own, es, outs, es.len() as int, nf, dirs), n == 2048, all_complete(m),
    ensures
        img.writable(65536, n),
        // the table of the root lies behind the header
        img.wcontents().len() >= 67584,
{
    reveal(free); reveal(placed_in);
    let p = root_path();
    assert(m.contains_key(p) && place_ok(m, at, own, p));
    let a = choose|a: int| 0 <= a < es.len() && (#[trigger] es[a]).0.p() == p;
    assert(es[a].0.p() == p && m[p] == es[a].1);
    assert(dir_done(f, img.wcontents(), at, own, key(es, a), es[a].1, outs[a])) by { reveal(done_upto); }
    let o = outs[a];
    assert(key(es, a) == p);
    assert(table_in(img.wcontents(), at[p], es[a].1, o)); reveal(table_in); reveal(all_complete);
    table_fits(es[a].1, o.v, o.sec0, o.b, at[p].region.size as int);
    assert(open_region(own, es, es.len() as int, 65536, n));
}
/// the header, or the padding, was written: nothing else was changed
pub proof fn wrote_rest(f: Files, c0: Seq<u8>, c1: Seq<u8>, m: Tables, at: Places, own: Owners, es: Seq<(&PathVec, DirectoryEntryTableWriter)>, outs: Seq<Out>, nf: int, dirs: Map<Path, u64>, off: int, b: Seq<u8>)
    requires
        at_dir(f, c0, m, at, own, es, outs, es.len() as int, nf, dirs), all_complete(m),
        write_effect(c0, c1, off, b), off >= 0, off + b.len() <= 67584 || off >= c0.len(),
    ensures at_dir(f, c1, m, at, own, es, outs, es.len() as int, nf, dirs),
{
    assert forall|x: int| #![trigger c1[x]] 0 <= x < c0.len() implies c1[x] == c0[x] || !own.contains_key(x / 2048) by {
        reveal(placed_in);
        if own.contains_key(x / 2048) { assert(x / 2048 >= 33); }
    }
    keep_all(f, c0, c1, m, at, own, nf, es, outs);
}
pub proof fn wrote_header(c0: Seq<u8>, c1: Seq<u8>, v: VolumeDescriptor, b: Seq<u8>)
    requires write_effect(c0, c1, 65536, b), v.laid_out(b), v.valid(),
    ensures has_header(c1, v.root_table), c1.len() >= 67584,
{
    assert(c1.subrange(65536, 67584) =~= b) by {
        assert forall|y: int| 0 <= y < 2048 implies #[trigger] c1.subrange(65536, 67584)[y] == b[y] by { assert(c1[65536 + y] == b[y]); }
    }
}
pub proof fn padded(c0: Seq<u8>, c1: Seq<u8>, root: DirectoryEntryTable, b: Seq<u8>)
    requires write_effect(c0, c1, c0.len() as int, b), has_header(c0, root), c0.len() >= 67584, c0.len() % 65536 > 0, b.len() == 65536 - c0.len() % 65536,
    ensures has_header(c1, root), c1.len() >= 67584, c1.len() % 65536 == 0,
{
    let v = choose|v: VolumeDescriptor| v.valid() && v.root_table == root && #[trigger] v.laid_out(c0.subrange(65536, 67584));
    assert(c1.subrange(65536, 67584) =~= c0.subrange(65536, 67584));
}
pub proof fn len_small(len0: int, c: Seq<u8>)
    requires small(len0, c), len0 <= 0x1000_0000_0000_0000,
    ensures c.len() <= 0x1000_0000_0000_0000,
{
}

//@file xdvdfs-core/src/write/img.rs
//@fn create_xdvdfs_image
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub ?mut progress_callback: impl FnMut(ProgressInfo), ==>
//@sub ?progress_callback(__1); ==>
//@sub ?, &mut progress_callback ==>
//@sub GenericWriteError<BDW, FS> ==> WriteError<BDW::WriteError, <FS as FilesystemHierarchy>::Error, <FS as FilesystemCopier<BDW>>::Error>
//@sub ?-> (vx_m: WriteError<_>) ==> -> (vx_m: WriteError<BDW::WriteError, <FS as FilesystemHierarchy>::Error, <FS as FilesystemCopier<BDW>>::Error>)
//@sub ?-> (vx_m: FileStructureError<_>) ==> -> (vx_m: FileStructureError)
//@sub ?.expect(__1) ==> .unwrap()
//@sub for (path, dirtab) in dirent_tables.into_iter() { ==> let mut vx_it = dirent_tables.vx_into_iter(); while let Some((path, dirtab)) = vx_it.next() {
//@sub for entry in dirtab.file_listing { ==> for entry in vx_it2: dirtab.file_listing.iter() {
//@sub ?dirtab_sector * layout::SECTOR_SIZE ==> *dirtab_sector * layout::SECTOR_SIZE
//@sub ?&dirtab.entry_table ==> &*dirtab.entry_table
//@sub ?layout::VolumeDescriptor ==> VolumeDescriptor
//@sub ?layout::DirectoryEntryTable ==> DirectoryEntryTable
//@sub ?let volume_info = VolumeDescriptor::new(root_table); ==> let volume_info = VolumeDescriptor::new(root_table); let ghost vx_v = volume_info;
//@spec
    requires
        sizes_agree(listings(old(fs)), files(old(fs))),
        forall|p: Path| (#[trigger] old(fs).listing(p)).len() <= MAX_ENTRIES,
        ready(old(image)), old(image).wdev_ok(),
        old(image).wcontents().len() <= 0x1000_0000_0000_0000,
    ensures
        same_source(old(fs), final(fs)),
        r is Ok ==> packed(listings(old(fs)), files(old(fs)), final(image).wcontents()) && final(image).wdev_ok(),
//@start
        hide(at_dir); hide(at_entry); hide(table_bytes); hide(write_effect); hide(copied); hide(of_source); hide(all_complete); hide(in_key_order); hide(sizes_agree); hide(packed);
        hide(claim); hide(first_owner); hide(before); hide(small); hide(complete); hide(ready); hide(taken);
        let ghost l = listings(fs);
        let ghost f = files(fs);
        let ghost len0 = image.wcontents().len() as int;
        proof { is_small(image.wcontents()); }
//@before let dirent_tables = create_dirent_tables
        proof {
            same_listings(old(fs), fs);
            assert forall|i: int| 0 <= i < dirtree@.len() implies (#[trigger] entat(dirtree@, i)).len() <= MAX_ENTRIES by { assert(entat(dirtree@, i) == old(fs).listing(pathat(dirtree@, i))); }
        }
//@after let dirent_tables = create_dirent_tables(&dirtree)?;
        let ghost m = dirent_tables@;
        proof {
            source_tables(l, dirtree@, m);
            of_source_complete(l, m);
        }
//@before let root_dirtab_size
        proof { first_is_root(root_dirtab.0.p()); reveal(all_complete); reveal(complete); }
//@before while let Some((path, dirtab))
        let ghost es = vx_it.all();
        let ghost mut at = first_place(root_table);
        let ghost mut own = first_owner(root_table);
        let ghost mut outs: Seq<Out> = Seq::empty();
        let ghost mut i: int = 0;
        proof { starts(f, image, m, es, root_table, sector_allocator.next_free as int, dir_sectors@); }
//@loop 0 while
        invariant
            same_source(old(fs), fs), l == listings(old(fs)), f == files(old(fs)), sizes_agree(l, f), image.wdev_ok(),
            of_source(l, m), all_complete(m), 0 <= i <= es.len(),
            es == vx_it.all(), i == vx_it.pos(),
            at_dir(f, image.wcontents(), m, at, own, es, outs, i, sector_allocator.next_free as int, dir_sectors@),
            free(image, own, es, i),
            at[root_path()] == root_table,
            len0 <= 0x1000_0000_0000_0000, small(len0, image.wcontents()),
        ensures
            i == es.len(),
//@loopstart 0
            let ghost sec0 = sector_allocator.next_free as int;
            let ghost w = dirtab;
            proof { next_dir(l, f, image.wcontents(), m, at, own, es, outs, i, sec0, dir_sectors@); }
//@before BlockDeviceWrite::write #0
            let ghost v = choose|v: AvlTree<DirectoryEntryData>| #[trigger] renumbered(w.table, v)
                && table_bytes(v.tree@, sec0, dirtab.entry_table@) && listed(datas(v.tree@), sec0, dirtab.file_listing@, v.tree@.len() as int)
                && sector_allocator.next_free == sec0 + taken(datas(v.tree@), v.tree@.len() as int);
            let ghost o = Out { v, sec0, b: dirtab.entry_table@ };
            let ghost d = datas(v.tree@);
            let ghost image0 = *image;
            proof {
                may_write(image, m, at, own, es, i, sec0, o);
                table_fits(w, v, sec0, o.b, at[key(es, i)].region.size as int);
            }
//@beforeloop 1
            proof {
                wrote_table(f, &image0, image, m, at, own, es, outs, i, o, dir_sectors@);
                wrote_small(len0, image0.wcontents(), image.wcontents(), at[key(es, i)].region.sector * 2048, o.b);
                assert(dirtab.file_listing@.len() == d.len()) by { reveal(listed); }
            }
//@loop 1 for
            invariant
                same_source(old(fs), fs), l == listings(old(fs)), f == files(old(fs)), sizes_agree(l, f), image.wdev_ok(),
                turn(l, f, m, es, i), path.p() == key(es, i),
                d == datas(o.v.tree@), dirtab.file_listing@.len() == d.len(), listed(d, o.sec0, dirtab.file_listing@, d.len() as int),
                sector_allocator.next_free == o.sec0 + taken(d, d.len() as int),
                at_entry(f, image.wcontents(), m, at, own, es, outs, i, o, vx_it2.index@ as int, dir_sectors@),
                free(image, own, es, i + 1),
                at[root_path()] == root_table,
                len0 <= 0x1000_0000_0000_0000, small(len0, image.wcontents()),
//@loopstart 1
                let ghost j = vx_it2.index@ as int;
                let ghost sec = o.sec0 + taken(d, j);
                let ghost q = key(es, i).push(d[j].nm());
                let ghost dirs0 = dir_sectors@;
                let ghost image1 = *image;
                proof {
                    next_entry(f, image, m, at, own, es, outs, i, o, j, dir_sectors@, dirtab.file_listing@, sector_allocator.next_free);
                    same_listings(old(fs), fs);
                }
//@loopend 1
                proof {
                    assert(same_source(old(fs), fs)) by { reveal(same_source); }
                    if d[j].node.attributes.spec_directory() {
                        let at1 = at.insert(q, entry_place(o, j));
                        let own1 = claim(own, (q, true), sec, d[j].node.data.size as int);
                        placed_dir(l, f, image, m, at, own, es, outs, i, o, j, dirs0, at1, own1);
                        at = at1; own = own1;
                    } else {
                        copied_small(len0, image1.wcontents(), image.wcontents(), f(q), sec * 2048, d[j].node.data.size as int);
                        let own1 = claim(own, (q, false), sec, d[j].node.data.size as int);
                        copied_file(l, f, &image1, image, m, at, own, es, outs, i, o, j, dirs0, own1);
                        own = own1;
                    }
                }
//@loopend 0
            proof {
                done_dir(f, image.wcontents(), m, at, own, es, outs, i, o, dir_sectors@);
                outs = outs.push(o);
                i = i + 1;
            }
//@before BlockDeviceWrite::write #1
        let ghost imageh = *image;
        proof { may_header(image, f, m, at, own, es, outs, sector_allocator.next_free as int, dir_sectors@, volume_info@.len() as int); }
//@before let len
        proof {
            wrote_rest(f, imageh.wcontents(), image.wcontents(), m, at, own, es, outs, sector_allocator.next_free as int, dir_sectors@, 65536, volume_info@);
            wrote_header(imageh.wcontents(), image.wcontents(), vx_v, volume_info@);
            wrote_small(len0, imageh.wcontents(), image.wcontents(), 65536, volume_info@);
        }
//@before if len %
        let ghost imagel = *image;
        proof { len_small(len0, image.wcontents()); }
//@after padding)__1?;
            proof {
                padded(imagel.wcontents(), image.wcontents(), root_table, padding@);
                wrote_rest(f, imagel.wcontents(), image.wcontents(), m, at, own, es, outs, sector_allocator.next_free as int, dir_sectors@, imagel.wcontents().len() as int, padding@);
            }
//@before Ok(())
        proof { is_image(l, f, image.wcontents(), m, at, own, es, outs, sector_allocator.next_free as int, dir_sectors@); }
//@end
