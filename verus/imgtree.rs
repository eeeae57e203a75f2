//@deps hier tables
// The directories of an image: found top-down, sized bottom-up.
use crate::{dirtab, bincode};
use crate::hier as fs;
use crate::hier::*;
use crate::btree::*;
use crate::blockdev::*;
use crate::avl::*;
use crate::avlorder::*;
use crate::layout::*;
use crate::names::*;
use crate::dirent::*;
use crate::dirtab::*;
use alloc::{boxed::Box, string::String, vec::Vec};
use core::cmp::Ordering;

// ---- the directories, parents first
pub open spec fn pathat(d: Seq<DirectoryTreeEntry>, i: int) -> Path { d[i].dir.p() }
pub open spec fn entat(d: Seq<DirectoryTreeEntry>, i: int) -> Seq<Entry> { entries_of(d[i].listing@) }
/// `x` is the directory `a.1` of the listing `a.0`
pub open spec fn child_of(d: Seq<DirectoryTreeEntry>, a: (int, int), x: Path) -> bool {
    &&& 0 <= a.0 < d.len()
    &&& 0 <= a.1 < entat(d, a.0).len()
    &&& entat(d, a.0)[a.1].is_dir
    &&& x == pathat(d, a.0).push(entat(d, a.0)[a.1].name)
}
pub open spec fn nowhere() -> (int, int) { (-1, -1) }
/// `par` says where each directory was found
pub open spec fn is_tree(d: Seq<DirectoryTreeEntry>, par: Seq<(int, int)>) -> bool {
    &&& d.len() == par.len() && d.len() > 0
    &&& pathat(d, 0) == root_path()
    &&& forall|i: int| #![trigger par[i]] 0 < i < d.len() ==> par[i].0 < i && child_of(d, par[i], pathat(d, i))
    &&& forall|i: int, j: int| #![trigger par[i], par[j]] 0 <= i < j < d.len() ==> par[i] != par[j]
    &&& forall|i: int, k: int| #![trigger entat(d, i)[k]] 0 <= i < d.len() && 0 <= k < entat(d, i).len() && entat(d, i)[k].is_dir ==> exists|j: int| i < j < d.len() && #[trigger] par[j] == (i, k)
}
pub open spec fn tree_of(d: Seq<DirectoryTreeEntry>) -> bool { exists|par: Seq<(int, int)>| #[trigger] is_tree(d, par) }

pub type Listing = spec_fn(Path) -> Seq<Entry>;
pub type Files = spec_fn(Path) -> Seq<u8>;
pub open spec fn listings<S: Source + ?Sized>(s: &S) -> Listing { |p: Path| s.listing(p) }
pub open spec fn files<S: Source + ?Sized>(s: &S) -> Files { |p: Path| s.file(p) }
pub proof fn same_listings<S: Source + ?Sized>(a: &S, b: &S)
    requires same_source(a, b),
    ensures listings(a) == listings(b), files(a) == files(b),
{
    assert(listings(a) =~= listings(b)) by { assert forall|p: Path| #[trigger] a.listing(p) == b.listing(p) by {} }
    assert(files(a) =~= files(b)) by { assert forall|p: Path| #[trigger] a.file(p) == b.file(p) by {} }
}
/// while directories are still to be visited: `dirs` found at `todo`
pub open spec fn part_tree(d: Seq<DirectoryTreeEntry>, par: Seq<(int, int)>, dirs: Seq<PathVec>, todo: Seq<(int, int)>) -> bool {
    &&& d.len() == par.len() && dirs.len() == todo.len()
    &&& d.len() == 0 ==> dirs.len() == 1 && dirs[0].p() == root_path() && todo[0] == nowhere()
    &&& d.len() > 0 ==> pathat(d, 0) == root_path() && par[0] == nowhere()
    &&& forall|i: int| #![trigger par[i]] 0 < i < d.len() ==> par[i].0 < i && child_of(d, par[i], pathat(d, i))
    &&& d.len() > 0 ==> forall|i: int| #![trigger todo[i]] 0 <= i < dirs.len() ==> child_of(d, todo[i], dirs[i].p())
    &&& forall|i: int, j: int| #![trigger par[i], par[j]] 0 <= i < j < par.len() ==> par[i] != par[j]
    &&& forall|i: int, j: int| #![trigger todo[i], todo[j]] 0 <= i < j < todo.len() ==> todo[i] != todo[j]
    &&& forall|i: int, j: int| #![trigger par[i], todo[j]] 0 <= i < par.len() && 0 <= j < todo.len() ==> par[i] != todo[j]
}
pub open spec fn visited(d: Seq<DirectoryTreeEntry>, par: Seq<(int, int)>, todo: Seq<(int, int)>, i: int, k: int) -> bool {
    (exists|j: int| i < j < d.len() && #[trigger] par[j] == (i, k)) || (exists|j: int| 0 <= j < todo.len() && #[trigger] todo[j] == (i, k))
}
pub open spec fn all_visited(d: Seq<DirectoryTreeEntry>, par: Seq<(int, int)>, todo: Seq<(int, int)>) -> bool {
    forall|i: int, k: int| #![trigger entat(d, i)[k]] 0 <= i < d.len() && 0 <= k < entat(d, i).len() && entat(d, i)[k].is_dir ==> visited(d, par, todo, i, k)
}

/// the first `k` entries of a listing have been looked at: its directories are in `dirs` from `n` on
pub open spec fn found(es: Seq<Entry>, p: Path, i: int, k: int, dirs: Seq<PathVec>, todo: Seq<(int, int)>, n: int) -> bool {
    &&& dirs.len() == todo.len() && n <= dirs.len()
    &&& forall|j: int| #![trigger todo[j]] n <= j < dirs.len() ==> todo[j].0 == i && 0 <= todo[j].1 < k && es[todo[j].1].is_dir && dirs[j].p() == p.push(es[todo[j].1].name)
    &&& forall|j: int, h: int| #![trigger todo[j], todo[h]] n <= j < h < dirs.len() ==> todo[j] != todo[h]
    &&& forall|x: int| #![trigger es[x]] 0 <= x < k && es[x].is_dir ==> exists|j: int| n <= j < dirs.len() && #[trigger] todo[j] == (i, x)
}
pub proof fn more_found(es: Seq<Entry>, p: Path, i: int, k: int, dirs: Seq<PathVec>, todo: Seq<(int, int)>, n: int, x: PathVec)
    requires found(es, p, i, k, dirs, todo, n), 0 <= k < es.len(), es[k].is_dir, x.p() == p.push(es[k].name),
    ensures found(es, p, i, k + 1, dirs.push(x), todo.push((i, k)), n),
{
    let d1 = dirs.push(x); let t1 = todo.push((i, k));
    assert forall|y: int| #![trigger es[y]] 0 <= y < k + 1 && es[y].is_dir implies exists|j: int| n <= j < d1.len() && #[trigger] t1[j] == (i, y) by {
        if y == k { assert(t1[todo.len() as int] == (i, y)); }
        else { let j = choose|j: int| n <= j < dirs.len() && #[trigger] todo[j] == (i, y); assert(t1[j] == (i, y)); }
    }
}
pub open spec fn based(dirs: Seq<PathVec>, todo: Seq<(int, int)>, dirs0: Seq<PathVec>, todo0: Seq<(int, int)>, m: int) -> bool {
    &&& m <= dirs.len() && m <= todo.len()
    &&& forall|j: int| #![trigger todo[j]] 0 <= j < m ==> todo[j] == todo0[j] && dirs[j] == dirs0[j]
}
/// visiting the directory on top of `dirs0`
pub proof fn step(d: Seq<DirectoryTreeEntry>, par: Seq<(int, int)>, dirs0: Seq<PathVec>, todo0: Seq<(int, int)>, x: DirectoryTreeEntry, dirs: Seq<PathVec>, todo: Seq<(int, int)>)
    requires
        part_tree(d, par, dirs0, todo0), all_visited(d, par, todo0), dirs0.len() > 0,
        x.dir.p() == dirs0.last().p(),
        found(entries_of(x.listing@), x.dir.p(), d.len() as int, entries_of(x.listing@).len() as int, dirs, todo, dirs0.len() - 1),
        based(dirs, todo, dirs0, todo0, dirs0.len() - 1),
    ensures
        part_tree(d.push(x), par.push(todo0.last()), dirs, todo), all_visited(d.push(x), par.push(todo0.last()), todo),
{
    let d1 = d.push(x); let n = d.len() as int; let m = dirs0.len() - 1; let p1 = par.push(todo0.last());
    assert(entat(d1, n) == entries_of(x.listing@));
    assert forall|i: int| 0 <= i < n implies entat(d1, i) == entat(d, i) && #[trigger] pathat(d1, i) == pathat(d, i) by {}
    assert forall|a: (int, int), y: Path| #[trigger] child_of(d, a, y) implies child_of(d1, a, y) by {
        assert(pathat(d1, a.0) == pathat(d, a.0));
    }
    assert forall|i: int| #![trigger p1[i]] 0 < i < d1.len() implies p1[i].0 < i && child_of(d1, p1[i], pathat(d1, i)) by {
        if i < n { assert(p1[i] == par[i]); assert(pathat(d1, i) == pathat(d, i)); }
        else { assert(p1[i] == todo0[m]); assert(child_of(d, todo0[m], dirs0[m].p())); }
    }
    assert forall|j: int| #![trigger todo[j]] 0 <= j < dirs.len() implies child_of(d1, todo[j], dirs[j].p()) by {
        if j < m {
            assert(todo[j] == todo0[j]);
            if n == 0 { assert(m == 0); }
        } else { assert(pathat(d1, n) == x.dir.p()); }
    }
    // an entry of the listing just read was not known before
    assert forall|j: int| #![trigger todo[j]] m <= j < todo.len() implies todo[j].0 == n by {}
    assert forall|j: int| #![trigger todo0[j]] 0 <= j < todo0.len() implies todo0[j].0 < n by { if n > 0 { assert(child_of(d, todo0[j], dirs0[j].p())); } }
    assert forall|i: int| #![trigger par[i]] 0 <= i < n implies par[i].0 < n by { if i > 0 { assert(child_of(d, par[i], pathat(d, i))); } }
    assert forall|i: int, j: int| #![trigger p1[i], p1[j]] 0 <= i < j < p1.len() implies p1[i] != p1[j] by {
        assert(p1[i] == par[i]);
        if j == n { assert(p1[j] == todo0[m]); } else { assert(p1[j] == par[j]); }
    }
    assert forall|i: int, j: int| #![trigger todo[i], todo[j]] 0 <= i < j < todo.len() implies todo[i] != todo[j] by {
        if i < m { assert(todo[i] == todo0[i]); if j < m { assert(todo[j] == todo0[j]); } }
    }
    assert forall|i: int, j: int| #![trigger p1[i], todo[j]] 0 <= i < p1.len() && 0 <= j < todo.len() implies p1[i] != todo[j] by {
        if i < n { assert(p1[i] == par[i]); } else { assert(p1[i] == todo0[m]); }
        if j < m { assert(todo[j] == todo0[j]); }
    }
    assert forall|i: int, k: int| #![trigger entat(d1, i)[k]] 0 <= i < d1.len() && 0 <= k < entat(d1, i).len() && entat(d1, i)[k].is_dir implies visited(d1, p1, todo, i, k) by {
        if i < n {
            assert(entat(d1, i) == entat(d, i));
            assert(entat(d, i)[k].is_dir);
            assert(visited(d, par, todo0, i, k));
            if exists|j: int| i < j < d.len() && #[trigger] par[j] == (i, k) {
                let j = choose|j: int| i < j < d.len() && #[trigger] par[j] == (i, k);
                assert(p1[j] == (i, k));
            } else {
                let j = choose|j: int| 0 <= j < todo0.len() && #[trigger] todo0[j] == (i, k);
                if j < m { assert(todo[j] == (i, k)); } else { assert(p1[n] == (i, k)); }
            }
        } else {
            let j = choose|j: int| m <= j < dirs.len() && #[trigger] todo[j] == (n, k);
            assert(todo[j] == (i, k));
        }
    }
}
pub proof fn finished(d: Seq<DirectoryTreeEntry>, par: Seq<(int, int)>, dirs: Seq<PathVec>, todo: Seq<(int, int)>)
    requires part_tree(d, par, dirs, todo), all_visited(d, par, todo), dirs.len() == 0,
    ensures tree_of(d),
{
    assert forall|i: int, k: int| #![trigger entat(d, i)[k]] 0 <= i < d.len() && 0 <= k < entat(d, i).len() && entat(d, i)[k].is_dir implies exists|j: int| i < j < d.len() && #[trigger] par[j] == (i, k) by {
        assert(visited(d, par, todo, i, k));
    }
    assert(is_tree(d, par));
}

//@file xdvdfs-core/src/write/img.rs
//@fn dir_tree
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub ?progress_callback: &mut impl FnMut(ProgressInfo), ==>
//@sub ?progress_callback(__1); ==>
//@sub for entry in listing.iter() { ==> for entry in vx_it: listing.iter() {
//@spec
    ensures
        same_source(old(fs), final(fs)),
        r is Ok ==> tree_of(r->Ok_0@),
        r is Ok ==> forall|i: int| #![trigger r->Ok_0@[i]] 0 <= i < r->Ok_0@.len() ==> entat(r->Ok_0@, i) == old(fs).listing(pathat(r->Ok_0@, i)),
//@before while let Some(dir)
        let ghost mut par: Seq<(int, int)> = Seq::empty();
        let ghost mut todo: Seq<(int, int)> = seq![nowhere()];
//@loop 0 while
        invariant
            same_source(old(fs), fs),
            part_tree(out@, par, dirs@, todo), all_visited(out@, par, todo),
            forall|i: int| #![trigger out@[i]] 0 <= i < out@.len() ==> entat(out@, i) == old(fs).listing(pathat(out@, i)),
        ensures
            dirs@.len() == 0, out@.len() > 0,
//@loopstart 0
            let ghost m = dirs@.len() as int;
            let ghost dirs0 = dirs@.push(dir);
            let ghost todo0 = todo;
            proof { todo = todo.drop_last(); }
//@beforeloop 1
            let ghost es = entries_of(listing@);
            let ghost p = dir.p();
//@loop 1 for
            invariant
                es == entries_of(listing@), p == dir.p(), dirs0.len() == m + 1, todo0.len() == m + 1,
                found(es, p, out@.len() as int, vx_it.index@ as int, dirs@, todo, m),
                based(dirs@, todo, dirs0, todo0, m),
//@loopend 0
            proof {
                step(out0, par, dirs0, todo0, out@.last(), dirs@, todo);
                assert(out@ =~= out0.push(out@.last()));
                par = par.push(todo0.last());
            }
//@before out.push
            let ghost out0 = out@;
//@loopstart 1
            let ghost dirs1 = dirs@;
            let ghost k = vx_it.index@ as int;
            proof { assert(es[k] == listing@[k].e()); }
//@loopend 1
            proof {
                if es[k].is_dir {
                    more_found(es, p, out@.len() as int, k, dirs1, todo, m, dirs@.last());
                    assert(dirs@ =~= dirs1.push(dirs@.last()));
                    todo = todo.push((out@.len() as int, k));
                }
            }
//@before Ok(out)
        proof { finished(out@, par, dirs@, todo); }
//@end

// ---- the tables, children first
/// the first `k` entries of a listing are in the table `w`; `m` has the tables of its directories
#[verifier::opaque]
pub open spec fn built(w: DirectoryEntryTableWriter, es: Seq<Entry>, p: Path, m: Map<Path, DirectoryEntryTableWriter>, k: int) -> bool {
    &&& w.entries().len() == k
    &&& 0 <= k <= es.len()
    &&& forall|i: int| #![trigger w.entries()[i]] 0 <= i < k ==> added(*w.entries()[i].data, es[i], p, m)
}
/// `x` is the entry `e` of the directory `p`
pub open spec fn added(x: DirectoryEntryData, e: Entry, p: Path, m: Map<Path, DirectoryEntryTableWriter>) -> bool {
    &&& x.nm() == e.name
    &&& !e.is_dir ==> x.node.attributes.0 == 0x20u8 && x.node.data.size == e.len
    &&& e.is_dir ==> x.node.attributes.0 == 0x10u8 && m.contains_key(p.push(e.name)) && x.node.data.size == up(m[p.push(e.name)].tsize())
}
/// the first `k` names differ, whatever their case
#[verifier::opaque]
pub open spec fn names_differ(es: Seq<Entry>, k: int) -> bool {
    forall|i: int, j: int| #![trigger es[i], es[j]] 0 <= i < j < k ==> name_ord(es[j].name, es[i].name) != Ordering::Equal
}
/// a table whose size is known
pub open spec fn complete(w: DirectoryEntryTableWriter) -> bool {
    &&& w.ok()
    &&& w.entries().len() > 0 ==> w.size is Some
    &&& 0 < w.tsize() <= u32::MAX - 2047
}
/// the tables of the directories from `i` on
pub open spec fn tables_from(d: Seq<DirectoryTreeEntry>, m: Map<Path, DirectoryEntryTableWriter>, i: int) -> bool {
    &&& forall|q: Path| #[trigger] m.contains_key(q) ==> complete(m[q]) && exists|j: int| i <= j < d.len() && #[trigger] pathat(d, j) == q
    &&& forall|j: int| i <= j < d.len() ==> m.contains_key(#[trigger] pathat(d, j)) && names_differ(entat(d, j), entat(d, j).len() as int)
    &&& paths_differ(d) ==> forall|j: int| i <= j < d.len() ==> built(m[#[trigger] pathat(d, j)], entat(d, j), pathat(d, j), m, entat(d, j).len() as int)
}
pub open spec fn paths_differ(d: Seq<DirectoryTreeEntry>) -> bool { forall|i: int, j: int| 0 <= i < j < d.len() ==> #[trigger] pathat(d, i) != #[trigger] pathat(d, j) }

pub proof fn same_name_equal(a: Seq<char>)
    ensures name_ord(a, a) == Ordering::Equal,
{
    ord_refl(fold(a));
}
/// directories are found once: their paths differ, because names in one directory do
pub proof fn differ(d: Seq<DirectoryTreeEntry>, par: Seq<(int, int)>, i: int, j: int)
    requires
        is_tree(d, par), 0 <= i < j < d.len(),
        forall|x: int| 0 <= x < d.len() ==> names_differ(#[trigger] entat(d, x), entat(d, x).len() as int),
    ensures pathat(d, i) != pathat(d, j),
    decreases j,
{
    if pathat(d, i) == pathat(d, j) {
        let q = pathat(d, j);
        assert(child_of(d, par[j], q));
        assert(q.len() > 0);
        if i > 0 {
            assert(child_of(d, par[i], q));
            let a = par[i]; let b = par[j];
            let ea = entat(d, a.0); let eb = entat(d, b.0);
            assert(pathat(d, a.0) =~= q.drop_last() && pathat(d, b.0) =~= q.drop_last());
            assert(ea[a.1].name == q.last() && eb[b.1].name == q.last());
            if a.0 < b.0 { differ(d, par, a.0, b.0); }
            if b.0 < a.0 { differ(d, par, b.0, a.0); }
            assert(par[i] != par[j]);
            reveal(names_differ);
            same_name_equal(q.last());
            if a.1 < b.1 { assert(name_ord(ea[b.1].name, ea[a.1].name) != Ordering::Equal); } else { assert(name_ord(ea[a.1].name, ea[b.1].name) != Ordering::Equal); }
        }
    }
}
pub proof fn all_differ(d: Seq<DirectoryTreeEntry>)
    requires
        tree_of(d),
        forall|x: int| 0 <= x < d.len() ==> names_differ(#[trigger] entat(d, x), entat(d, x).len() as int),
    ensures paths_differ(d),
{
    let par = choose|par: Seq<(int, int)>| #[trigger] is_tree(d, par);
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] pathat(d, i) != #[trigger] pathat(d, j) by { differ(d, par, i, j); }
}
/// the size of a table fits its field
pub proof fn size_bound(w: DirectoryEntryTableWriter)
    requires w.ok(), w.entries().len() > 0 ==> w.size is Some,
    ensures complete(w),
{
    let t = choose|t: Tree| w.table.shows(t);
    shows_len(w.table, t);
    let d = data_of(w.entries(), preord(t)); let n = d.len() as int;
    assert(ordered(w.table, d)) by { reveal(ordered); }
    if n > 0 {
        assert(w.sized(w.size->Some_0 as int));
        storable_lens(d);
        placed(lens_of(d), n - 1);
        assert(lens_of(d)[n - 1] <= 272);
    }
}
pub proof fn one_more(w0: DirectoryEntryTableWriter, w: DirectoryEntryTableWriter, es: Seq<Entry>, p: Path, m: Map<Path, DirectoryEntryTableWriter>, k: int)
    requires
        built(w0, es, p, m, k), 0 <= k < es.len(),
        w.entries().len() == k + 1,
        forall|j: int| #![trigger w.entries()[j]] 0 <= j < k ==> w.entries()[j].data == w0.entries()[j].data,
        added(*w.entries()[k].data, es[k], p, m),
    ensures built(w, es, p, m, k + 1),
{
    reveal(built);
    assert forall|i: int| #![trigger w.entries()[i]] 0 <= i < k + 1 implies added(*w.entries()[i].data, es[i], p, m) by {
        if i < k { assert(w0.entries()[i].data == w.entries()[i].data); }
    }
}
pub proof fn one_name(w0: DirectoryEntryTableWriter, es: Seq<Entry>, p: Path, m: Map<Path, DirectoryEntryTableWriter>, k: int)
    requires
        names_differ(es, k), 0 <= k < es.len(), w0.entries().len() == k,
        forall|i: int| #![trigger w0.entries()[i]] 0 <= i < k ==> (*w0.entries()[i].data).nm() == es[i].name,
        forall|j: int| 0 <= j < k ==> name_ord(es[k].name, (*(#[trigger] w0.entries()[j]).data).nm()) != Ordering::Equal,
    ensures names_differ(es, k + 1),
{
    reveal(names_differ);
    assert forall|i: int, j: int| #![trigger es[i], es[j]] 0 <= i < j < k + 1 implies name_ord(es[j].name, es[i].name) != Ordering::Equal by {
        if j == k { assert((*w0.entries()[i].data).nm() == es[i].name); }
    }
}
pub proof fn nothing_built(w: DirectoryEntryTableWriter, es: Seq<Entry>, p: Path, m: Map<Path, DirectoryEntryTableWriter>)
    requires w.entries().len() == 0,
    ensures built(w, es, p, m, 0), names_differ(es, 0),
{
    reveal(built); reveal(names_differ);
}
pub proof fn step_tables(d: Seq<DirectoryTreeEntry>, m: Map<Path, DirectoryEntryTableWriter>, i: int, w: DirectoryEntryTableWriter)
    requires
        tree_of(d), 0 <= i < d.len(), tables_from(d, m, i + 1), complete(w),
        names_differ(entat(d, i), entat(d, i).len() as int),
        paths_differ(d) ==> built(w, entat(d, i), pathat(d, i), m, entat(d, i).len() as int),
    ensures tables_from(d, m.insert(pathat(d, i), w), i),
{
    let m1 = m.insert(pathat(d, i), w);
    let par = choose|par: Seq<(int, int)>| #[trigger] is_tree(d, par);
    assert forall|q: Path| #[trigger] m1.contains_key(q) implies complete(m1[q]) && exists|j: int| i <= j < d.len() && #[trigger] pathat(d, j) == q by {
        if q == pathat(d, i) {} else {
            assert(m.contains_key(q));
            let j = choose|j: int| i + 1 <= j < d.len() && #[trigger] pathat(d, j) == q;
            assert(i <= j && pathat(d, j) == q);
        }
    }
    if paths_differ(d) {
        reveal(built);
        assert forall|j: int| i <= j < d.len() implies built(m1[#[trigger] pathat(d, j)], entat(d, j), pathat(d, j), m1, entat(d, j).len() as int) by {
            let es = entat(d, j); let p = pathat(d, j); let x = m1[p];
            assert(j > i ==> x == m[p]);
            assert(built(x, es, p, m, es.len() as int));
            assert forall|k: int| #![trigger x.entries()[k]] 0 <= k < es.len() implies added(*x.entries()[k].data, es[k], p, m1) by {
                assert(added(*x.entries()[k].data, es[k], p, m));
                if es[k].is_dir {
                    let c = choose|c: int| j < c < d.len() && #[trigger] par[c] == (j, k);
                    assert(child_of(d, par[c], pathat(d, c)));
                    assert(pathat(d, c) == p.push(es[k].name));
                    assert(pathat(d, i) != pathat(d, c));
                }
            }
        }
    }
}
/// where the table of the directory `k` of directory `i` is
pub proof fn child_known(d: Seq<DirectoryTreeEntry>, m: Map<Path, DirectoryEntryTableWriter>, i: int, k: int)
    requires tree_of(d), 0 <= i < d.len(), tables_from(d, m, i + 1), 0 <= k < entat(d, i).len(), entat(d, i)[k].is_dir,
    ensures m.contains_key(pathat(d, i).push(entat(d, i)[k].name)),
{
    let par = choose|par: Seq<(int, int)>| #[trigger] is_tree(d, par);
    let c = choose|c: int| i < c < d.len() && #[trigger] par[c] == (i, k);
    assert(child_of(d, par[c], pathat(d, c)));
}
/// every table is there, with exactly the entries of its directory
pub open spec fn all_tables(d: Seq<DirectoryTreeEntry>, m: Map<Path, DirectoryEntryTableWriter>) -> bool {
    tables_from(d, m, 0) && paths_differ(d)
}

// derived in the source
impl Default for DirectoryEntryTableWriter {
    fn default() -> (r: Self)
        ensures r.ok(), r.entries().len() == 0, r.size is None,
    { DirectoryEntryTableWriter { table: AvlTree::default(), size: None } }
}

//@file xdvdfs-core/src/write/img.rs
//@fn create_dirent_tables
//@ret r
//@sub ?progress_callback: &mut impl FnMut(ProgressInfo), ==>
//@sub ?progress_callback(__1); ==>
//@sub ?count += 1; ==>
//@sub for entry in dirtree.iter().rev() { ==> let mut vx_k = dirtree.len(); while vx_k > 0 { vx_k -= 1; let entry = &dirtree[vx_k];
//@sub for entry in dir_entries { ==> for entry in vx_it: dir_entries.iter() {
//@sub .map_err(|_vx_p| FileStructureError::FileTooLarge) ==> .map_err(|_vx_p| -> (vx_m: FileStructureError) ensures vx_m is FileTooLarge { FileStructureError::FileTooLarge })
//@spec
    requires
        tree_of(dirtree@),
        forall|i: int| 0 <= i < dirtree@.len() ==> (#[trigger] entat(dirtree@, i)).len() <= MAX_ENTRIES,
    ensures
        r is Ok ==> all_tables(dirtree@, r->Ok_0@),
//@loop 0 while
        invariant
            vx_k <= dirtree@.len(), tree_of(dirtree@),
            forall|i: int| 0 <= i < dirtree@.len() ==> (#[trigger] entat(dirtree@, i)).len() <= MAX_ENTRIES,
            tables_from(dirtree@, dirent_tables@, vx_k as int),
        decreases vx_k,
//@beforeloop 1
            let ghost d = dirtree@;
            let ghost es = entat(d, vx_k as int);
            let ghost p = pathat(d, vx_k as int);
            let ghost m = dirent_tables@;
            proof { nothing_built(dirtab, es, p, m); }
//@loop 1 for
            invariant
                d == dirtree@, vx_k < d.len(), tree_of(d), es == entat(d, vx_k as int), p == pathat(d, vx_k as int), m == dirent_tables@,
                es.len() <= MAX_ENTRIES, es == entries_of(dir_entries@), p == path.p(),
                tables_from(d, m, vx_k + 1),
                dirtab.ok(), dirtab.entries().len() == vx_it.index@,
                built(dirtab, es, p, m, vx_it.index@ as int), names_differ(es, vx_it.index@ as int),
//@loopstart 1
                let ghost w0 = dirtab;
                let ghost k = vx_it.index@ as int;
                proof {
                    assert(es[k] == dir_entries@[k].e());
                    if es[k].is_dir { child_known(d, m, vx_k as int, k); }
                }
//@loopend 1
                proof {
                    reveal(built);
                    one_more(w0, dirtab, es, p, m, k);
                    one_name(w0, es, p, m, k);
                }
//@loopend 0
            proof { step_tables(d, m, vx_k as int, dirent_tables@[p]); assert(dirent_tables@ =~= m.insert(p, dirent_tables@[p])); }
//@before dirent_tables.insert(
            proof { size_bound(dirtab); assert(built(dirtab, es, p, m, es.len() as int)) by { reveal(built); } }
//@before Ok(dirent_tables)
        proof {
            assert forall|x: int| 0 <= x < dirtree@.len() implies names_differ(#[trigger] entat(dirtree@, x), entat(dirtree@, x).len() as int) by { let q = pathat(dirtree@, x); }
            all_differ(dirtree@);
        }
//@end
