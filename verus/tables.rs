//@deps dirtab lookup walk scan
// The tables that are written are the trees that the readers rely on: what disk_repr promises implies
// what find_dirent, walk_dirent_tree and the linear scan require, with exactly the entries that were added.
use crate::{arrayvec, avl, bincode, layout};
use crate::avl::*;
use crate::avlorder::*;
use crate::layout::*;
use crate::codec::*;
use crate::records::*;
use crate::names::*;
use crate::encoding_rs::*;
use crate::dirent::*;
use crate::sector::*;
use crate::lookup::*;
use crate::walk::*;
use crate::scan::*;
use crate::dirtab::*;
use alloc::{boxed::Box, string::String, vec::Vec};
use core::cmp::Ordering;

/// an image holding `c` has the bytes `b` at the table `tab`, whose recorded size covers the records
pub open spec fn stored(c: Seq<u8>, tab: DirectoryEntryTable, s: Seq<AvlNode<DirectoryEntryData>>, b: Seq<u8>) -> bool {
    let st = tab.region.start();
    &&& st + b.len() <= c.len()
    &&& c.subrange(st, st + b.len() as int) == b
    &&& 0 < tab.region.size <= b.len()
    &&& end(lens_of(datas(s)), s.len() as int) <= tab.region.size
    &&& tab.region.size + 2048 > b.len()
}
pub open spec fn plain(s: Seq<AvlNode<DirectoryEntryData>>) -> bool {
    forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> (*s[j].data).node.attributes.0 == 0x10u8 || (*s[j].data).node.attributes.0 == 0x20u8
}
/// all that is used below about what was written
#[verifier::opaque]
pub open spec fn good(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable) -> bool {
    &&& table_bytes(s, sec0, b)
    &&& plain(s)
    &&& stored(c, tab, s, b)
}

/// the record of entry `j`, as a reader sees it
pub open spec fn seen(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, c: Seq<u8>, tab: DirectoryEntryTable, j: int) -> bool {
    let d = datas(s); let o = place(lens_of(d), j); let p = tab.region.start() + o;
    &&& 0 <= o && o + 16 <= tab.region.size
    &&& o % 4 == 0
    &&& o % 2048 + 14 + d[j].enc().len() <= 2048
    &&& p + 14 + d[j].enc().len() <= c.len()
    &&& node_at(c, p) == disk_node(s, sec0, j)
    &&& node_at(c, p).dirent.filename_length == d[j].enc().len()
    &&& name_at(c, p) == d[j].enc()
    &&& !blank(c, p)
    &&& dname(c, tab, o) == Some(d[j].nm())
    &&& link_to(lens_of(d), s[j].left_node) <= 0xffff && link_to(lens_of(d), s[j].right_node) <= 0xffff
}
pub proof fn good_lens(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable)
    requires good(s, sec0, b, c, tab),
    ensures lens_ok(lens_of(datas(s))), storables(datas(s)),
{
    reveal(good);
    storable_lens(datas(s));
}
pub proof fn all_seen(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable, j: int)
    requires good(s, sec0, b, c, tab), 0 <= j < s.len(),
    ensures seen(s, sec0, c, tab, j),
{
    reveal(good);
    let d = datas(s); let ls = lens_of(d); let st = tab.region.start(); let o = place(ls, j); let p = st + o;
    storable_lens(d);
    placed(ls, j); placed_before(ls, j, s.len() as int);
    assert(d[j].storable()); assert(ls[j] == d[j].dlen());
    assert(rec_in(s, sec0, b, j)) by { reveal(recs); }
    let len = d[j].enc().len() as int;
    assert(rec_ok(b, o, disk_node(s, sec0, j), d[j].enc())) by { reveal(rec_in); }
    assert(c.subrange(p, p + 14) =~= b.subrange(o, o + 14));
    assert(node_at(c, p) == disk_node(s, sec0, j));
    assert(*s[j].data == d[j]);
    assert((len as u8) == len);
    assert(name_at(c, p) =~= b.subrange(o + 14, o + 14 + len));
    let y = c.subrange(p, p + 14);
    assert(node_at(c, p).dirent.attributes.0 == y[12]);
    assert(!blank(c, p));
    axiom_1252_round_trip(d[j].nm());
    assert(o % 2048 + 14 + len <= 2048) by { crossing(o, ls[j]); }
    assert(link_to(ls, s[j].left_node) <= 0xffff && link_to(ls, s[j].right_node) <= 0xffff) by { reveal(recs); }
}
pub proof fn crossing(o: int, l: int)
    requires o >= 0, l > 0, o / 2048 == (o + l - 1) / 2048,
    ensures o % 2048 + l <= 2048,
{
}
/// every byte of the table that belongs to no record is 0xff
pub proof fn filler(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable, i: int, o: int)
    requires
        good(s, sec0, b, c, tab), 0 <= i <= s.len(),
        end(lens_of(datas(s)), i) <= o, o + 14 <= b.len(),
        i < s.len() ==> o + 14 <= place(lens_of(datas(s)), i),
    ensures blank(c, tab.region.start() + o),
{
    reveal(good);
    let d = datas(s); let ls = lens_of(d); let st = tab.region.start();
    storable_lens(d);
    if i > 0 { placed(ls, i - 1); }
    let y = c.subrange(st + o, st + o + 14);
    assert forall|x: int| 0 <= x < y.len() implies #[trigger] y[x] == 0xff by {
        let k = o + x;
        assert(y[x] == c.subrange(st, st + b.len() as int)[k]);
        assert(b[k] == 0xff || covered(d, s.len() as int, k)) by { reveal(recs); }
        if covered(d, s.len() as int, k) {
            let j = choose|j: int| 0 <= j < s.len() && #[trigger] place(lens_of(d), j) <= k < place(lens_of(d), j) + 14 + d[j].enc().len();
            assert(ls[j] == d[j].dlen());
            placed(ls, j);
            if j < i { placed_before(ls, j, i); if i < s.len() { placed(ls, i); } }
            else if j > i { placed_before(ls, i, j); }
        }
    }
}

/// the tree of table offsets that the tree of entries becomes
pub open spec fn dt(ls: Seq<int>, t: Tree) -> DTree
    decreases t,
{
    match t { Tree::Leaf => DTree::Leaf, Tree::Node(i, l, r) => DTree::Node(place(ls, i as int), Box::new(dt(ls, *l)), Box::new(dt(ls, *r))) }
}
pub proof fn dt_contains(ls: Seq<int>, t: Tree, o: int)
    ensures contains(dt(ls, t), o) <==> exists|j: usize| #[trigger] inn(t, j) && o == place(ls, j as int),
    decreases t,
{
    match t {
        Tree::Leaf => {},
        Tree::Node(i, l, r) => {
            dt_contains(ls, *l, o); dt_contains(ls, *r, o);
            if contains(dt(ls, t), o) {
                if o == place(ls, i as int) { assert(inn(t, i)); }
                else if contains(dt(ls, *l), o) { let j = choose|j: usize| #[trigger] inn(*l, j) && o == place(ls, j as int); assert(inn(t, j)); }
                else { let j = choose|j: usize| #[trigger] inn(*r, j) && o == place(ls, j as int); assert(inn(t, j)); }
            }
            assert forall|j: usize| #[trigger] inn(t, j) && o == place(ls, j as int) implies contains(dt(ls, t), o) by {
                if j != i { assert(inn(*l, j) || inn(*r, j)); }
            }
        },
    }
}
/// a link that is stored is neither of the two "no link" values
pub proof fn real_link(ls: Seq<int>, k: int)
    requires lens_ok(ls), 0 < k < ls.len(), place(ls, k) / 4 <= 0xffff,
    ensures !no_link((place(ls, k) / 4) as u16), 4 * ((place(ls, k) / 4) as u16) == place(ls, k),
{
    placed(ls, k); placed(ls, 0); placed_before(ls, 0, k);
    assert(ls[0] >= 16); assert(ls[k] >= 16);
    let o = place(ls, k);
    if o / 4 == 0xffff { assert(o == 262140); }
}
pub proof fn linked_tree(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable, link: Option<usize>, p: Option<usize>, t: Tree)
    requires
        good(s, sec0, b, c, tab), rep(s, link, p, t), t is Node,
        s[0].parent is None,
    ensures
        dlinked(c, tab, place(lens_of(datas(s)), link->Some_0 as int), dt(lens_of(datas(s)), t)),
    decreases t, 0nat,
{
    let d = datas(s); let ls = lens_of(d);
    let i = link->Some_0 as int;
    good_lens(s, sec0, b, c, tab);
    all_seen(s, sec0, b, c, tab, i);
    let n = node_at(c, tab.region.start() + place(ls, i));
    match t {
        Tree::Node(_, l, r) => {
            child(s, sec0, b, c, tab, s[i].left_node, i as usize, *l, n.left_entry_offset);
            child(s, sec0, b, c, tab, s[i].right_node, i as usize, *r, n.right_entry_offset);
        },
        _ => {},
    }
}
pub proof fn child(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable, link: Option<usize>, p: usize, t: Tree, x: u16)
    requires
        good(s, sec0, b, c, tab), rep(s, link, Some(p), t), s.len() > 0, s[0].parent is None,
        x == link_to(lens_of(datas(s)), link) as u16, link_to(lens_of(datas(s)), link) <= 0xffff,
    ensures dchild(c, tab, x, dt(lens_of(datas(s)), t)),
    decreases t, 1nat,
{
    let ls = lens_of(datas(s));
    match t {
        Tree::Leaf => {},
        Tree::Node(i, l, r) => {
            good_lens(s, sec0, b, c, tab);
            assert(i != 0);
            real_link(ls, i as int);
            linked_tree(s, sec0, b, c, tab, link, Some(p), t);
        },
    }
}
/// the names in the table are in the order of the tree
pub proof fn sorted_tree(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable, t: Tree)
    requires
        good(s, sec0, b, c, tab), sorted(s, inord(t)), s.len() > 0, s[0].parent is None,
        forall|j: usize| inn(t, j) ==> j < s.len(),
        forall|j: usize| #[trigger] inn(t, j) ==> (s[j as int].left_node is Some ==> s[j as int].left_node != Some(0usize) && s[j as int].left_node->Some_0 < s.len())
            && (s[j as int].right_node is Some ==> s[j as int].right_node != Some(0usize) && s[j as int].right_node->Some_0 < s.len()),
    ensures dsorted(c, tab, dt(lens_of(datas(s)), t)),
    decreases t,
{
    let d = datas(s); let ls = lens_of(d);
    match t {
        Tree::Leaf => {},
        Tree::Node(i, l, r) => {
            let ql = inord(*l); let qr = inord(*r); let q = inord(t); let m = ql.len() as int;
            assert(q[m] == i);
            assert forall|x: int, y: int| #![trigger ql[x], ql[y]] 0 <= x < y < ql.len() implies lt(*s[ql[x] as int].data, *s[ql[y] as int].data) by { assert(q[x] == ql[x] && q[y] == ql[y]); }
            assert forall|x: int, y: int| #![trigger qr[x], qr[y]] 0 <= x < y < qr.len() implies lt(*s[qr[x] as int].data, *s[qr[y] as int].data) by { assert(q[m + 1 + x] == qr[x] && q[m + 1 + y] == qr[y]); }
            assert forall|j: usize| #[trigger] inn(*l, j) implies inn(t, j) by {}
            assert forall|j: usize| #[trigger] inn(*r, j) implies inn(t, j) by {}
            sorted_tree(s, sec0, b, c, tab, *l);
            sorted_tree(s, sec0, b, c, tab, *r);
            assert(inn(t, i));
            good_lens(s, sec0, b, c, tab);
            all_seen(s, sec0, b, c, tab, i as int);
            let o = place(ls, i as int);
            let n = node_at(c, tab.region.start() + o);
            if s[i as int].left_node is Some { real_link(ls, s[i as int].left_node->Some_0 as int); }
            if s[i as int].right_node is Some { real_link(ls, s[i as int].right_node->Some_0 as int); }
            assert forall|k: int| #[trigger] contains(dt(ls, *l), k) implies dname(c, tab, k) is Some && name_ord(dname(c, tab, k)->Some_0, dname(c, tab, o)->Some_0) == Ordering::Less by {
                dt_contains(ls, *l, k);
                let j = choose|j: usize| #[trigger] inn(*l, j) && k == place(ls, j as int);
                assert(inn(t, j));
                all_seen(s, sec0, b, c, tab, j as int);
                inord_has(*l, j);
                let x = choose|x: int| 0 <= x < inord(*l).len() && inord(*l)[x] == j;
                assert(q[x] == j);
                assert(lt(*s[q[x] as int].data, *s[q[m] as int].data));
                assert(d[j as int] == *s[j as int].data && d[i as int] == *s[i as int].data);
            }
            assert forall|k: int| #[trigger] contains(dt(ls, *r), k) implies dname(c, tab, k) is Some && name_ord(dname(c, tab, k)->Some_0, dname(c, tab, o)->Some_0) == Ordering::Greater by {
                dt_contains(ls, *r, k);
                let j = choose|j: usize| #[trigger] inn(*r, j) && k == place(ls, j as int);
                assert(inn(t, j));
                all_seen(s, sec0, b, c, tab, j as int);
                inord_has(*r, j);
                let x = choose|x: int| 0 <= x < inord(*r).len() && inord(*r)[x] == j;
                assert(q[m + 1 + x] == j);
                assert(lt(*s[q[m] as int].data, *s[q[m + 1 + x] as int].data));
                assert(d[j as int] == *s[j as int].data && d[i as int] == *s[i as int].data);
                less_greater(d[i as int].nm(), d[j as int].nm());
            }
        },
    }
}

// ---- shape: a listing has every entry once, and the tree on the disk is balanced
pub open spec fn once(q: Seq<int>) -> bool { forall|x: int, y: int| #![trigger q[x], q[y]] 0 <= x < y < q.len() ==> q[x] != q[y] }
pub open spec fn dht(t: DTree) -> int
    decreases t,
{
    match t { DTree::Leaf => 0, DTree::Node(_, l, r) => 1 + (if dht(*l) > dht(*r) { dht(*l) } else { dht(*r) }) }
}
pub open spec fn dbal(t: DTree) -> bool
    decreases t,
{
    match t { DTree::Leaf => true, DTree::Node(_, l, r) => dbal(*l) && dbal(*r) && -1 <= dht(*l) - dht(*r) <= 1 }
}
pub proof fn dt_shape(ls: Seq<int>, t: Tree)
    ensures dht(dt(ls, t)) == ht(t), bal(t) ==> dbal(dt(ls, t)),
    decreases t,
{
    match t { Tree::Leaf => {}, Tree::Node(i, l, r) => { dt_shape(ls, *l); dt_shape(ls, *r); } }
}
pub proof fn places_differ(ls: Seq<int>, i: int, j: int)
    requires lens_ok(ls), 0 <= i < ls.len(), 0 <= j < ls.len(), i != j,
    ensures place(ls, i) != place(ls, j),
{
    if i < j { placed_before(ls, i, j); assert(ls[i] >= 16); } else { placed_before(ls, j, i); assert(ls[j] >= 16); }
}
pub proof fn dt_once(ls: Seq<int>, t: Tree)
    requires lens_ok(ls), dis(t), forall|j: usize| inn(t, j) ==> j < ls.len(),
    ensures once(worder(dt(ls, t))), worder(dt(ls, t)).len() == sz(t),
    decreases t,
{
    match t {
        Tree::Leaf => {},
        Tree::Node(i, l, r) => {
            assert forall|j: usize| #[trigger] inn(*l, j) implies j < ls.len() by { assert(inn(t, j)); }
            assert forall|j: usize| #[trigger] inn(*r, j) implies j < ls.len() by { assert(inn(t, j)); }
            dt_once(ls, *l); dt_once(ls, *r);
            let q = worder(dt(ls, t)); let ql = worder(dt(ls, *l)); let qr = worder(dt(ls, *r)); let m = qr.len() as int;
            assert(q =~= seq![place(ls, i as int)] + qr + ql);
            assert forall|x: int, y: int| #![trigger q[x], q[y]] 0 <= x < y < q.len() implies q[x] != q[y] by {
                assert(inn(t, i));
                if y > m {
                    assert(q[y] == ql[y - m - 1]);
                    let k = in_worder(ls, *l, q[y]);
                    if x == 0 { places_differ(ls, i as int, k as int); }
                    else if x <= m { assert(q[x] == qr[x - 1]); let h = in_worder(ls, *r, q[x]); places_differ(ls, h as int, k as int); }
                    else { assert(q[x] == ql[x - m - 1]); }
                } else {
                    assert(q[y] == qr[y - 1]);
                    let k = in_worder(ls, *r, q[y]);
                    if x == 0 { places_differ(ls, i as int, k as int); }
                    else { assert(q[x] == qr[x - 1]); }
                }
            }
        },
    }
}
pub proof fn in_worder(ls: Seq<int>, t: Tree, o: int) -> (k: usize)
    requires worder(dt(ls, t)).contains(o),
    ensures inn(t, k), o == place(ls, k as int),
{
    worder_contains(dt(ls, t), o); dt_contains(ls, t, o);
    choose|j: usize| #[trigger] inn(t, j) && o == place(ls, j as int)
}

// ---- the linear scan
/// the record a scan of `tab` returns when it is asked for the `k`-th time
pub open spec fn nth(c: Seq<u8>, tab: DirectoryEntryTable, e: int, k: nat) -> Option<(int, int)>
    decreases k,
{
    if k == 0 { first_at(c, tab.region.sector as int, 0, e) }
    else {
        match nth(c, tab, e, (k - 1) as nat) {
            None => None,
            Some((s, o)) => {
                let (s1, o1) = advance(s, o + 14 + node_at(c, s * 2048 + o).dirent.filename_length);
                first_at(c, s1, o1, e)
            },
        }
    }
}
pub open spec fn scan_end(tab: DirectoryEntryTable) -> int { tab.region.sector + sectors_of(tab.region.size as int) }
/// record `k` as the scan reports it
pub open spec fn spot(ls: Seq<int>, tab: DirectoryEntryTable, k: int) -> Option<(int, int)> {
    if k < ls.len() { Some((tab.region.sector + place(ls, k) / 2048, place(ls, k) % 2048)) } else { None }
}
pub proof fn scan_one(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable, k: int)
    requires good(s, sec0, b, c, tab), 0 <= k <= s.len(),
    ensures nth(c, tab, scan_end(tab), k as nat) == spot(lens_of(datas(s)), tab, k),
    decreases k,
{
    if k == 0 {
        scan_first(s, sec0, b, c, tab);
    } else {
        scan_one(s, sec0, b, c, tab, k - 1);
        scan_step(s, sec0, b, c, tab, k);
        all_seen(s, sec0, b, c, tab, k - 1);
        let o = place(lens_of(datas(s)), k - 1);
        assert((tab.region.sector + o / 2048) * 2048 + o % 2048 == tab.region.start() + o);
    }
}
pub proof fn extent(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable)
    requires good(s, sec0, b, c, tab),
    ensures
        scan_end(tab) == tab.region.sector + b.len() / 2048, b.len() % 2048 == 0, b.len() > 0, tab.region.size <= b.len(),
        s.len() == 0 ==> b.len() == 2048,
        s.len() > 0 ==> b.len() == roundup(end(lens_of(datas(s)), s.len() as int)),
{
    let ls = lens_of(datas(s)); let n = s.len() as int;
    good_lens(s, sec0, b, c, tab);
    reveal(good);
    if n > 0 { placed(ls, n - 1); assert(ls[n - 1] >= 16); }
    table_sectors(b.len() as int, tab.region.size as int);
}
pub proof fn scan_first(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable)
    requires good(s, sec0, b, c, tab),
    ensures nth(c, tab, scan_end(tab), 0) == spot(lens_of(datas(s)), tab, 0),
{
    extent(s, sec0, b, c, tab);
    assert(place(lens_of(datas(s)), 0) == 0);
    if s.len() == 0 { filler(s, sec0, b, c, tab, 0, 0); } else { all_seen(s, sec0, b, c, tab, 0); }
}
/// where a scan goes from the end of a record to the next one
pub proof fn scan_step(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable, k: int)
    requires good(s, sec0, b, c, tab), 0 < k <= s.len(),
    ensures
        ({
            let ls = lens_of(datas(s)); let o = place(ls, k - 1);
            let at = advance(tab.region.sector + o / 2048, o % 2048 + 14 + datas(s)[k - 1].enc().len());
            first_at(c, at.0, at.1, scan_end(tab)) == spot(ls, tab, k)
        }),
{
    hide(first_at); hide(blank); hide(advance); hide(gap); hide(node_at); hide(lens_of); hide(datas);
    let d = datas(s); let ls = lens_of(d); let n = s.len() as int; let s0 = tab.region.sector as int;
    assert(ls.len() == n) by { reveal(lens_of); reveal(datas); }
    let o = place(ls, k - 1); let len = d[k - 1].enc().len() as int; let l = ls[k - 1];
    good_lens(s, sec0, b, c, tab);
    extent(s, sec0, b, c, tab);
    assert(l == round4(14 + len)) by { reveal(lens_of); reveal(datas); }
    assert(len <= 255) by { assert(d.len() == n) by { reveal(datas); } assert(d[k - 1].storable()); }
    placed(ls, k - 1);
    crossing(o, l);
    let en = o + l;
    assert(en == end(ls, k));
    let e = scan_end(tab);
    if k < n {
        let p = place(ls, k); let m = ls[k];
        placed(ls, k);
        placed_before(ls, k, n);
        assert(p == en + gap(en, m));
        assert(16 <= m <= 272);
        all_seen(s, sec0, b, c, tab, k);
        assert(tab.region.start() + p == s0 * 2048 + p);
        if o % 2048 + l + 14 < 2048 && gap(en, m) > 0 {
            fit(en, m);
            next_sector_place(o, l, m);
            filler(s, sec0, b, c, tab, k, en);
        }
        step_next(c, s0, o, len, l, m, b.len() as int);
    } else {
        last_sector(o, l);
        if o % 2048 + l + 14 < 2048 { filler(s, sec0, b, c, tab, k, en); }
        step_last(c, s0, o, len, l, b.len() as int);
    }
}
pub proof fn step_next(c: Seq<u8>, s0: int, o: int, len: int, l: int, m: int, n: int)
    requires
        o >= 0, o % 4 == 0, 0 <= len <= 255, l == round4(14 + len), o % 2048 + l <= 2048, 16 <= m <= 272, n % 2048 == 0,
        o + l + gap(o + l, m) < n,
        !blank(c, s0 * 2048 + (o + l + gap(o + l, m))),
        o % 2048 + l + 14 < 2048 && gap(o + l, m) > 0 ==> blank(c, s0 * 2048 + o + l),
    ensures
        ({
            let p = o + l + gap(o + l, m);
            let at = advance(s0 + o / 2048, o % 2048 + 14 + len);
            first_at(c, at.0, at.1, s0 + n / 2048) == Some((s0 + p / 2048, p % 2048))
        }),
{
    hide(first_at); hide(blank);
    let q = o / 2048; let r = o % 2048; let en = o + l; let p = en + gap(en, m); let e = s0 + n / 2048;
    aligned(o, 14 + len);
    assert(aligned4(r + 14 + len) == r + l);
    let at = advance(s0 + q, r + 14 + len);
    let edge = r + l + 14 >= 2048;
    if edge || gap(en, m) > 0 {
        next_sector_place(o, l, m);
        assert(p == (q + 1) * 2048 && p / 2048 == q + 1 && p % 2048 == 0);
        before_end(p, n);
        assert(s0 * 2048 + p == (s0 + q + 1) * 2048);
        found(c, s0 + q + 1, 0, e);
        if !edge {
            assert((s0 + q) * 2048 + (r + l) == s0 * 2048 + o + l);
            skipped(c, s0 + q, r + l, e);
        }
    } else {
        assert(gap(en, m) == 0) by { fit(en, m); }
        assert(p / 2048 == q && p % 2048 == r + l);
        before_end(p, n);
        assert((s0 + q) * 2048 + (r + l) == s0 * 2048 + p);
        found(c, s0 + q, r + l, e);
    }
}
pub proof fn step_last(c: Seq<u8>, s0: int, o: int, len: int, l: int, n: int)
    requires
        o >= 0, o % 4 == 0, 0 <= len <= 255, l == round4(14 + len), o % 2048 + l <= 2048,
        n == (o / 2048 + 1) * 2048,
        o % 2048 + l + 14 < 2048 ==> blank(c, s0 * 2048 + o + l),
    ensures
        ({
            let at = advance(s0 + o / 2048, o % 2048 + 14 + len);
            first_at(c, at.0, at.1, s0 + n / 2048) is None
        }),
{
    hide(first_at); hide(blank);
    let q = o / 2048; let r = o % 2048; let e = s0 + n / 2048;
    aligned(o, 14 + len);
    assert(aligned4(r + 14 + len) == r + l);
    let at = advance(s0 + q, r + 14 + len);
    assert(e == s0 + q + 1);
    if r + l + 14 >= 2048 { done(c, s0 + q + 1, 0, e); }
    else {
        assert((s0 + q) * 2048 + (r + l) == s0 * 2048 + o + l);
        done(c, s0 + q, r + l, e);
    }
}
pub proof fn before_end(p: int, n: int)
    requires 0 <= p < n, n % 2048 == 0,
    ensures p / 2048 < n / 2048,
{
}
pub proof fn found(c: Seq<u8>, s: int, o: int, e: int)
    requires s < e, !blank(c, s * 2048 + o),
    ensures first_at(c, s, o, e) == Some((s, o)),
{
}
pub proof fn skipped(c: Seq<u8>, s: int, o: int, e: int)
    requires s + 1 < e, blank(c, s * 2048 + o),
    ensures first_at(c, s, o, e) == first_at(c, s + 1, 0, e),
{
}
pub proof fn done(c: Seq<u8>, s: int, o: int, e: int)
    requires s >= e || s + 1 == e && blank(c, s * 2048 + o),
    ensures first_at(c, s, o, e) is None,
{
}
pub proof fn table_sectors(n: int, m: int)
    requires n % 2048 == 0, 0 < m <= n < m + 2048,
    ensures sectors_of(m) == n / 2048,
{
}
pub proof fn aligned(o: int, l: int)
    requires o >= 0, o % 4 == 0, l > 0,
    ensures aligned4(o % 2048 + l) == o % 2048 + round4(l),
{
    assert((o % 2048) % 4 == 0);
}
pub proof fn last_sector(o: int, l: int)
    requires o >= 0, l > 0, o % 2048 + l <= 2048,
    ensures roundup(o + l) == (o / 2048 + 1) * 2048,
{
    let q = o / 2048; let r = o % 2048;
    assert(o == 2048 * q + r);
    if r + l == 2048 { assert((o + l) % 2048 == 0); } else { assert((o + l) % 2048 == r + l); }
}
pub proof fn next_sector_place(o: int, l: int, m: int)
    requires o >= 0, l > 0, o % 2048 + l <= 2048, 16 <= m <= 272, (o + l) % 4 == 0, o % 2048 + l + 14 >= 2048 || gap(o + l, m) > 0,
    ensures o + l + gap(o + l, m) == (o / 2048 + 1) * 2048,
{
    let q = o / 2048; let r = o % 2048; let e = o + l;
    assert(o == 2048 * q + r);
    if r + l == 2048 {
        assert(e % 2048 == 0);
    } else {
        assert(e % 2048 == r + l);
        assert(sectors_of(e) == q + 1);
        if gap(e, m) == 0 { assert(sectors_of(e + m) == q + 2); }
    }
}

/// what is true of a table as written, whatever names were added in whatever order
pub open spec fn readable(o: AvlTree<DirectoryEntryData>, c: Seq<u8>, tab: DirectoryEntryTable, t: DTree) -> bool {
    // the links form a balanced search tree, listed without repetition
    &&& dtable(c, tab, t) && dsorted(c, tab, t) && dbal(t)
    &&& once(worder(t)) && worder(t).len() == o.tree@.len()
}
/// the record at table offset `k` is that of the entry `x`
pub open spec fn record_of(x: DirectoryEntryData, c: Seq<u8>, tab: DirectoryEntryTable, k: int) -> bool {
    &&& dname(c, tab, k) == Some(x.nm())
    &&& node_at(c, tab.region.start() + k).dirent.data.size == x.node.data.size
    &&& node_at(c, tab.region.start() + k).dirent.attributes == x.node.attributes
}
/// a scan returns the records of the tree and nothing else, each once
pub open spec fn scans(c: Seq<u8>, tab: DirectoryEntryTable, t: DTree, n: nat) -> bool {
    &&& forall|k: nat| #![trigger nth(c, tab, scan_end(tab), k)] k < n ==> nth(c, tab, scan_end(tab), k) is Some
    &&& nth(c, tab, scan_end(tab), n) is None
    &&& forall|o: int| #[trigger] contains(t, o) ==> exists|k: nat| k < n && #[trigger] nth(c, tab, scan_end(tab), k) == Some((tab.region.sector + o / 2048, o % 2048))
    &&& forall|k: nat| k < n ==> contains(t, (#[trigger] nth(c, tab, scan_end(tab), k))->Some_0.0 * 2048 + nth(c, tab, scan_end(tab), k)->Some_0.1 - tab.region.start())
    &&& forall|j: nat, k: nat| #![trigger nth(c, tab, scan_end(tab), j), nth(c, tab, scan_end(tab), k)] j < k < n ==> nth(c, tab, scan_end(tab), j) != nth(c, tab, scan_end(tab), k)
}
/// every entry that was added has a record, and every record is that of an entry that was added
#[verifier::opaque]
pub open spec fn same_set(w: AvlTree<DirectoryEntryData>, c: Seq<u8>, tab: DirectoryEntryTable, t: DTree) -> bool {
    &&& forall|i: int| #![trigger w.tree@[i]] 0 <= i < w.tree@.len() ==> exists|k: int| #[trigger] contains(t, k) && record_of(*w.tree@[i].data, c, tab, k)
    &&& forall|k: int| #[trigger] contains(t, k) ==> exists|i: int| 0 <= i < w.tree@.len() && record_of(*(#[trigger] w.tree@[i]).data, c, tab, k)
}
/// the records of the tree are those of the entries
#[verifier::opaque]
pub open spec fn each_at(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, c: Seq<u8>, tab: DirectoryEntryTable, t: DTree) -> bool {
    &&& forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> contains(t, place(lens_of(datas(s)), j)) && seen(s, sec0, c, tab, j)
    &&& forall|k: int| #[trigger] contains(t, k) ==> exists|j: int| 0 <= j < s.len() && k == #[trigger] place(lens_of(datas(s)), j)
}
pub proof fn written_table(w: DirectoryEntryTableWriter, v: AvlTree<DirectoryEntryData>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable) -> (t: DTree)
    requires
        w.ok(), renumbered(w.table, v), table_bytes(v.tree@, sec0, b), stored(c, tab, v.tree@, b),
    ensures
        readable(w.table, c, tab, t),
        same_set(w.table, c, tab, t),
        scans(c, tab, t, w.table.tree@.len()),
        each_at(v.tree@, sec0, c, tab, t),
{
    let s = v.tree@; let ls = lens_of(datas(s));
    let u = choose|u: Tree| in_preorder(v, u);
    assert(in_preorder(v, u)) by { reveal(renumbered); }
    facts(w, v, sec0, b, c, tab);
    written_tree(v, sec0, b, c, tab, u);
    written_set(w, v, sec0, b, c, tab, u);
    scanned(s, sec0, b, c, tab, u);
    records_at(s, sec0, b, c, tab, u);
    dt(ls, u)
}
pub proof fn records_at(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable, u: Tree)
    requires good(s, sec0, b, c, tab), forall|j: usize| inn(u, j) <==> j < s.len(), s.len() <= MAX_ENTRIES,
    ensures each_at(s, sec0, c, tab, dt(lens_of(datas(s)), u)),
{
    hide(seen);
    let ls = lens_of(datas(s)); let t = dt(ls, u);
    assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies contains(t, place(ls, j)) && seen(s, sec0, c, tab, j) by {
        all_seen(s, sec0, b, c, tab, j);
        assert(inn(u, j as usize));
        dt_contains(ls, u, place(ls, j));
    }
    assert forall|k: int| #[trigger] contains(t, k) implies exists|j: int| 0 <= j < s.len() && k == #[trigger] place(lens_of(datas(s)), j) by {
        dt_contains(ls, u, k);
        let j = choose|j: usize| #[trigger] inn(u, j) && k == place(ls, j as int);
        assert(0 <= j as int && (j as int) < s.len() && k == place(lens_of(datas(s)), j as int));
    }
    assert(each_at(s, sec0, c, tab, t)) by { reveal(each_at); }
}
pub proof fn facts(w: DirectoryEntryTableWriter, v: AvlTree<DirectoryEntryData>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable)
    requires
        w.ok(), renumbered(w.table, v), table_bytes(v.tree@, sec0, b), stored(c, tab, v.tree@, b),
    ensures good(v.tree@, sec0, b, c, tab), v.tree@.len() == w.table.tree@.len(),
{
    let s = v.tree@; let d = datas(s);
    let q = choose|q: Tree| #[trigger] w.table.shows(q) && d == data_of(w.table.tree@, preord(q));
    assert(w.table.shows(q) && d == data_of(w.table.tree@, preord(q))) by { reveal(renumbered); }
    shows_len(w.table, q);
    assert(d.len() == preord(q).len());
    assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies (*s[j].data).node.attributes.0 == 0x10u8 || (*s[j].data).node.attributes.0 == 0x20u8 by {
        assert(d[j] == *s[j].data);
        assert(d[j] == *w.table.tree@[preord(q)[j] as int].data);
    }
    reveal(good);
}
pub proof fn written_tree(v: AvlTree<DirectoryEntryData>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable, u: Tree)
    requires in_preorder(v, u), good(v.tree@, sec0, b, c, tab), v.tree@.len() <= MAX_ENTRIES,
    ensures readable(v, c, tab, dt(lens_of(datas(v.tree@)), u)),
{
    let s = v.tree@; let ls = lens_of(datas(s)); let n = s.len() as int;
    let t = dt(ls, u);
    good_lens(s, sec0, b, c, tab);
    dt_shape(ls, u);
    dt_once(ls, u);
    preord_nodup(u);
    assert(tab.region.size > 0) by { reveal(good); }
    if n > 0 {
        assert(u is Node) by { if u is Leaf { assert(preord(u).len() == 0); } }
        assert(preord(u)[0] == 0);
        assert(v.root == Some(0usize));
        assert(place(ls, 0) == 0);
        linked_tree(s, sec0, b, c, tab, v.root, None, u);
        shows_linked(v, u);
        assert forall|j: usize| #[trigger] inn(u, j) implies (s[j as int].left_node is Some ==> s[j as int].left_node != Some(0usize) && s[j as int].left_node->Some_0 < s.len())
            && (s[j as int].right_node is Some ==> s[j as int].right_node != Some(0usize) && s[j as int].right_node->Some_0 < s.len()) by {
            assert(node_ok(v, j));
        }
        sorted_tree(s, sec0, b, c, tab, u);
    } else {
        assert(u is Leaf) by { if u is Node { assert(preord(u).len() > 0); } }
        extent(s, sec0, b, c, tab);
        filler(s, sec0, b, c, tab, 0, 0);
        assert(tab.region.start() + 14 <= c.len()) by { reveal(good); }
        assert(dlinked(c, tab, 0, t));
    }
}
pub proof fn written_set(w: DirectoryEntryTableWriter, v: AvlTree<DirectoryEntryData>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable, u: Tree)
    requires in_preorder(v, u), good(v.tree@, sec0, b, c, tab), w.ok(), renumbered(w.table, v), v.tree@.len() <= MAX_ENTRIES,
    ensures same_set(w.table, c, tab, dt(lens_of(datas(v.tree@)), u)),
{
    let s = v.tree@; let d = datas(s); let ls = lens_of(d); let t = dt(ls, u); let ws = w.table.tree@;
    let q = choose|q: Tree| #[trigger] w.table.shows(q) && d == data_of(ws, preord(q));
    assert(w.table.shows(q) && d == data_of(ws, preord(q))) by { reveal(renumbered); }
    shows_len(w.table, q);
    assert(d.len() == preord(q).len());
    let pq = preord(q);
    assert forall|k: int| #[trigger] contains(t, k) implies exists|i: int| 0 <= i < ws.len() && record_of(*(#[trigger] ws[i]).data, c, tab, k) by {
        dt_contains(ls, u, k);
        let j = choose|j: usize| #[trigger] inn(u, j) && k == place(ls, j as int);
        entry_record(s, sec0, b, c, tab, j as int);
        let i = pq[j as int] as int;
        assert(d[j as int] == *ws[i].data);
        assert(record_of(*ws[i].data, c, tab, k));
    }
    assert forall|i: int| #![trigger ws[i]] 0 <= i < ws.len() implies exists|k: int| #[trigger] contains(t, k) && record_of(*ws[i].data, c, tab, k) by {
        assert(inn(q, i as usize));
        among_preord(q, i as usize);
        let j = choose|j: int| 0 <= j < pq.len() && pq[j] == i as usize;
        assert(d[j] == *ws[i].data);
        assert(inn(u, j as usize));
        dt_contains(ls, u, place(ls, j));
        entry_record(s, sec0, b, c, tab, j);
        assert(contains(t, place(ls, j)) && record_of(*ws[i].data, c, tab, place(ls, j)));
    }
    reveal(same_set);
}
pub proof fn entry_record(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable, j: int)
    requires good(s, sec0, b, c, tab), 0 <= j < s.len(),
    ensures record_of(datas(s)[j], c, tab, place(lens_of(datas(s)), j)),
{
    all_seen(s, sec0, b, c, tab, j);
    assert(datas(s)[j] == *s[j].data);
}
pub proof fn scanned(s: Seq<AvlNode<DirectoryEntryData>>, sec0: int, b: Seq<u8>, c: Seq<u8>, tab: DirectoryEntryTable, u: Tree)
    requires good(s, sec0, b, c, tab), forall|j: usize| inn(u, j) <==> j < s.len(), s.len() <= usize::MAX,
    ensures scans(c, tab, dt(lens_of(datas(s)), u), s.len()),
{
    hide(nth);
    let ls = lens_of(datas(s)); let n = s.len(); let t = dt(ls, u); let e = scan_end(tab);
    good_lens(s, sec0, b, c, tab);
    assert forall|k: nat| k <= n implies #[trigger] nth(c, tab, e, k) == spot(ls, tab, k as int) by {
        scan_one(s, sec0, b, c, tab, k as int);
    }
    assert forall|o: int| #[trigger] contains(t, o) implies exists|k: nat| k < n && #[trigger] nth(c, tab, e, k) == Some((tab.region.sector + o / 2048, o % 2048)) by {
        dt_contains(ls, u, o);
        let j = choose|j: usize| #[trigger] inn(u, j) && o == place(ls, j as int);
        assert(nth(c, tab, e, j as nat) == Some((tab.region.sector + o / 2048, o % 2048)));
    }
    assert forall|k: nat| k < n implies contains(t, (#[trigger] nth(c, tab, e, k))->Some_0.0 * 2048 + nth(c, tab, e, k)->Some_0.1 - tab.region.start()) by {
        assert(inn(u, k as usize));
        dt_contains(ls, u, place(ls, k as int));
    }
    assert forall|j: nat, k: nat| #![trigger nth(c, tab, e, j), nth(c, tab, e, k)] j < k < n implies nth(c, tab, e, j) != nth(c, tab, e, k) by {
        places_differ(ls, j as int, k as int);
    }
}

pub open spec fn was_added(w: AvlTree<DirectoryEntryData>, name: Seq<char>) -> bool {
    exists|i: int| 0 <= i < w.tree@.len() && name_ord(name, (*(#[trigger] w.tree@[i]).data).nm()) == Ordering::Equal
}
pub open spec fn is_there(c: Seq<u8>, tab: DirectoryEntryTable, t: DTree, name: Seq<char>) -> bool { exists|k: int| #[trigger] has_name(c, tab, t, k, name) }
/// looking a name up in a written table finds an entry exactly when one was added under that name
pub proof fn lookup_agrees(w: AvlTree<DirectoryEntryData>, c: Seq<u8>, tab: DirectoryEntryTable, t: DTree, name: Seq<char>)
    requires same_set(w, c, tab, t),
    ensures is_there(c, tab, t, name) <==> was_added(w, name),
{
    if is_there(c, tab, t, name) { there_added(w, c, tab, t, name); }
    if was_added(w, name) { added_there(w, c, tab, t, name); }
}
pub proof fn there_added(w: AvlTree<DirectoryEntryData>, c: Seq<u8>, tab: DirectoryEntryTable, t: DTree, name: Seq<char>)
    requires same_set(w, c, tab, t), is_there(c, tab, t, name),
    ensures was_added(w, name),
{
    hide(name_ord);
    let k = choose|k: int| #[trigger] has_name(c, tab, t, k, name);
    let i = choose|i: int| 0 <= i < w.tree@.len() && record_of(*(#[trigger] w.tree@[i]).data, c, tab, k);
    assert(0 <= i < w.tree@.len() && record_of(*(w.tree@[i]).data, c, tab, k)) by { reveal(same_set); }
}
pub proof fn added_there(w: AvlTree<DirectoryEntryData>, c: Seq<u8>, tab: DirectoryEntryTable, t: DTree, name: Seq<char>)
    requires same_set(w, c, tab, t), was_added(w, name),
    ensures is_there(c, tab, t, name),
{
    hide(name_ord);
    let i = choose|i: int| 0 <= i < w.tree@.len() && name_ord(name, (*(#[trigger] w.tree@[i]).data).nm()) == Ordering::Equal;
    let k = choose|k: int| #[trigger] contains(t, k) && record_of(*w.tree@[i].data, c, tab, k);
    assert(contains(t, k) && record_of(*w.tree@[i].data, c, tab, k)) by { reveal(same_set); }
    assert(has_name(c, tab, t, k, name));
}
