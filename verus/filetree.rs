//@deps walk paths
// The whole file tree of an image.
use crate::{bincode, layout, util};
use crate::blockdev::*;
use crate::layout::*;
use crate::codec::*;
use crate::records::*;
use crate::lookup::*;
use crate::paths::table_of;
use crate::walk::*;

/// `tab` holds an entry at table offset `o`
pub open spec fn listed(c: Seq<u8>, tab: DirectoryEntryTable, o: int) -> bool { exists|t: DTree| #[trigger] dtable(c, tab, t) && contains(t, o) }
pub open spec fn is_dir(c: Seq<u8>, tab: DirectoryEntryTable, o: int) -> bool { node_at(c, tab.region.start() + o).dirent.attributes.spec_directory() }
pub open spec fn sub_table(c: Seq<u8>, tab: DirectoryEntryTable, o: int) -> DirectoryEntryTable { table_of(node_at(c, tab.region.start() + o)) }
pub open spec fn joined(q: Seq<char>, name: Seq<char>) -> Seq<char> { q + seq!['/'] + name }
pub open spec fn child_dir(c: Seq<u8>, tab: DirectoryEntryTable, o: int, q: Seq<char>, p: Seq<char>, sub: DirectoryEntryTable) -> bool {
    &&& listed(c, tab, o)
    &&& is_dir(c, tab, o)
    &&& dname(c, tab, o) is Some
    &&& p == joined(q, dname(c, tab, o)->Some_0)
    &&& sub == sub_table(c, tab, o)
}
/// `tab` is a directory of the image, `n` levels below the root, with the path `p`
pub open spec fn reach(c: Seq<u8>, root: DirectoryEntryTable, n: nat, p: Seq<char>, tab: DirectoryEntryTable) -> bool
    decreases n,
{
    if n == 0 { p.len() == 0 && tab == root }
    else { exists|q: Seq<char>, t: DirectoryEntryTable, o: int| reach(c, root, (n - 1) as nat, q, t) && #[trigger] child_dir(c, t, o, q, p, tab) }
}
pub open spec fn reachable(c: Seq<u8>, root: DirectoryEntryTable, p: Seq<char>, tab: DirectoryEntryTable) -> bool { exists|n: nat| #[trigger] reach(c, root, n, p, tab) }
/// the links of every directory form a tree
pub open spec fn all_trees(c: Seq<u8>, root: DirectoryEntryTable) -> bool {
    forall|p: Seq<char>, tab: DirectoryEntryTable| #[trigger] reachable(c, root, p, tab) ==> exists|t: DTree| #[trigger] dtable(c, tab, t)
}
pub open spec fn has_item(c: Seq<u8>, v: Seq<(String, DirectoryEntryNode)>, p: Seq<char>, pos: int) -> bool {
    exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == p && v[i].1.offset == pos && entry_at(v[i].1, c, pos)
}
pub open spec fn item_ok(c: Seq<u8>, root: DirectoryEntryTable, x: (String, DirectoryEntryNode)) -> bool {
    exists|tab: DirectoryEntryTable| #[trigger] reachable(c, root, x.0@, tab) && listed(c, tab, x.1.offset - tab.region.start()) && entry_at(x.1, c, x.1.offset as int)
}
pub open spec fn covered(seen: Set<(Seq<char>, DirectoryEntryTable)>, stack: Seq<(String, DirectoryEntryTable)>, p: Seq<char>, tab: DirectoryEntryTable) -> bool {
    seen.contains((p, tab)) || exists|i: int| 0 <= i < stack.len() && (#[trigger] stack[i]).0@ == p && stack[i].1 == tab
}
/// an entry has been listed, and queued if it is a directory
pub open spec fn entry_done(c: Seq<u8>, seen: Set<(Seq<char>, DirectoryEntryTable)>, stack: Seq<(String, DirectoryEntryTable)>, v: Seq<(String, DirectoryEntryNode)>, q: Seq<char>, tab: DirectoryEntryTable, o: int) -> bool {
    has_item(c, v, q, tab.region.start() + o) && (is_dir(c, tab, o) && dname(c, tab, o) is Some ==> covered(seen, stack, joined(q, dname(c, tab, o)->Some_0), sub_table(c, tab, o)))
}
pub open spec fn closed(c: Seq<u8>, seen: Set<(Seq<char>, DirectoryEntryTable)>, stack: Seq<(String, DirectoryEntryTable)>, v: Seq<(String, DirectoryEntryNode)>, q: Seq<char>, tab: DirectoryEntryTable) -> bool {
    forall|o: int| #[trigger] listed(c, tab, o) ==> entry_done(c, seen, stack, v, q, tab, o)
}
/// the step from one state of the walk to a later one: nothing is forgotten
pub open spec fn kept(c: Seq<u8>, seen: Set<(Seq<char>, DirectoryEntryTable)>, stack: Seq<(String, DirectoryEntryTable)>, v: Seq<(String, DirectoryEntryNode)>,
    seen2: Set<(Seq<char>, DirectoryEntryTable)>, stack2: Seq<(String, DirectoryEntryTable)>, v2: Seq<(String, DirectoryEntryNode)>) -> bool
{
    &&& forall|p: Seq<char>, t: DirectoryEntryTable| #[trigger] covered(seen, stack, p, t) ==> covered(seen2, stack2, p, t)
    &&& forall|p: Seq<char>, x: int| #[trigger] has_item(c, v, p, x) ==> has_item(c, v2, p, x)
}
pub proof fn kept_closed(c: Seq<u8>, seen: Set<(Seq<char>, DirectoryEntryTable)>, stack: Seq<(String, DirectoryEntryTable)>, v: Seq<(String, DirectoryEntryNode)>,
    seen2: Set<(Seq<char>, DirectoryEntryTable)>, stack2: Seq<(String, DirectoryEntryTable)>, v2: Seq<(String, DirectoryEntryNode)>, q: Seq<char>, tab: DirectoryEntryTable)
    requires kept(c, seen, stack, v, seen2, stack2, v2), closed(c, seen, stack, v, q, tab),
    ensures closed(c, seen2, stack2, v2, q, tab),
{
    assert forall|o: int| #[trigger] listed(c, tab, o) implies entry_done(c, seen2, stack2, v2, q, tab, o) by {
        assert(entry_done(c, seen, stack, v, q, tab, o));
    }
}
/// listing an entry and queueing it keeps what there was
pub proof fn kept_push(c: Seq<u8>, seen: Set<(Seq<char>, DirectoryEntryTable)>, stack: Seq<(String, DirectoryEntryTable)>, v: Seq<(String, DirectoryEntryNode)>,
    stack2: Seq<(String, DirectoryEntryTable)>, x: (String, DirectoryEntryNode))
    requires stack2 == stack || (stack2.len() == stack.len() + 1 && stack2.drop_last() == stack),
    ensures kept(c, seen, stack, v, seen, stack2, v.push(x)),
{
    assert forall|p: Seq<char>, t: DirectoryEntryTable| #[trigger] covered(seen, stack, p, t) implies covered(seen, stack2, p, t) by {
        if !seen.contains((p, t)) {
            let i = choose|i: int| 0 <= i < stack.len() && (#[trigger] stack[i]).0@ == p && stack[i].1 == t;
            assert(stack2[i] == stack[i]);
        }
    }
    assert forall|p: Seq<char>, y: int| #[trigger] has_item(c, v, p, y) implies has_item(c, v.push(x), p, y) by {
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == p && v[i].1.offset == y && entry_at(v[i].1, c, y);
        assert(v.push(x)[i] == v[i]);
    }
}
pub proof fn kept_trans(c: Seq<u8>, s1: Set<(Seq<char>, DirectoryEntryTable)>, k1: Seq<(String, DirectoryEntryTable)>, v1: Seq<(String, DirectoryEntryNode)>,
    s2: Set<(Seq<char>, DirectoryEntryTable)>, k2: Seq<(String, DirectoryEntryTable)>, v2: Seq<(String, DirectoryEntryNode)>,
    s3: Set<(Seq<char>, DirectoryEntryTable)>, k3: Seq<(String, DirectoryEntryTable)>, v3: Seq<(String, DirectoryEntryNode)>)
    requires kept(c, s1, k1, v1, s2, k2, v2), kept(c, s2, k2, v2, s3, k3, v3),
    ensures kept(c, s1, k1, v1, s3, k3, v3),
{
}
pub proof fn kept_pop(c: Seq<u8>, seen: Set<(Seq<char>, DirectoryEntryTable)>, stack: Seq<(String, DirectoryEntryTable)>, v: Seq<(String, DirectoryEntryNode)>)
    requires stack.len() > 0,
    ensures kept(c, seen, stack, v, seen.insert((stack.last().0@, stack.last().1)), stack.drop_last(), v),
{
    let seen2 = seen.insert((stack.last().0@, stack.last().1));
    assert forall|p: Seq<char>, t: DirectoryEntryTable| #[trigger] covered(seen, stack, p, t) implies covered(seen2, stack.drop_last(), p, t) by {
        if !seen.contains((p, t)) {
            let i = choose|i: int| 0 <= i < stack.len() && (#[trigger] stack[i]).0@ == p && stack[i].1 == t;
            if i < stack.len() - 1 { assert(stack.drop_last()[i] == stack[i]); }
        }
    }
}
/// at the end every directory has been seen
pub proof fn all_seen(c: Seq<u8>, root: DirectoryEntryTable, seen: Set<(Seq<char>, DirectoryEntryTable)>, v: Seq<(String, DirectoryEntryNode)>, n: nat, p: Seq<char>, tab: DirectoryEntryTable)
    requires
        seen.contains((Seq::<char>::empty(), root)),
        forall|q: Seq<char>, t: DirectoryEntryTable| #[trigger] seen.contains((q, t)) ==> closed(c, seen, Seq::empty(), v, q, t),
        reach(c, root, n, p, tab),
    ensures seen.contains((p, tab)),
    decreases n,
{
    if n == 0 { assert(p =~= Seq::<char>::empty()); }
    else {
        let (q, t, o) = choose|q: Seq<char>, t: DirectoryEntryTable, o: int| reach(c, root, (n - 1) as nat, q, t) && #[trigger] child_dir(c, t, o, q, p, tab);
        all_seen(c, root, seen, v, (n - 1) as nat, q, t);
        assert(entry_done(c, seen, Seq::empty(), v, q, t, o));
    }
}
/// the children a listing returned are the entries of the table
pub proof fn listing(c: Seq<u8>, tab: DirectoryEntryTable, ch: Seq<DirectoryEntryNode>)
    requires
        forall|t: DTree| #[trigger] dtable(c, tab, t) ==> offsets(ch, tab.region.start()) == worder(t),
        exists|t: DTree| #[trigger] dtable(c, tab, t),
    ensures
        forall|i: int| 0 <= i < ch.len() ==> listed(c, tab, (#[trigger] ch[i]).offset - tab.region.start()),
        forall|o: int| #[trigger] listed(c, tab, o) ==> exists|i: int| 0 <= i < ch.len() && (#[trigger] ch[i]).offset == tab.region.start() + o,
{
    let t = choose|t: DTree| #[trigger] dtable(c, tab, t);
    let s = tab.region.start();
    assert forall|i: int| 0 <= i < ch.len() implies listed(c, tab, (#[trigger] ch[i]).offset - s) by {
        assert(offsets(ch, s)[i] == ch[i].offset - s);
        worder_contains(t, ch[i].offset - s);
    }
    assert forall|o: int| #[trigger] listed(c, tab, o) implies exists|i: int| 0 <= i < ch.len() && (#[trigger] ch[i]).offset == s + o by {
        let u = choose|u: DTree| #[trigger] dtable(c, tab, u) && contains(u, o);
        worder_contains(u, o);
        let i = worder(u).index_of(o);
        assert(offsets(ch, s)[i] == o);
        assert(ch[i].offset == s + o);
    }
}

/// state of the walk between directories
#[verifier::opaque]
pub open spec fn outer(c: Seq<u8>, root: DirectoryEntryTable, seen: Set<(Seq<char>, DirectoryEntryTable)>, stack: Seq<(String, DirectoryEntryTable)>, v: Seq<(String, DirectoryEntryNode)>) -> bool {
    &&& covered(seen, stack, Seq::empty(), root)
    &&& forall|i: int| 0 <= i < stack.len() ==> reachable(c, root, (#[trigger] stack[i]).0@, stack[i].1)
    &&& forall|q: Seq<char>, tab: DirectoryEntryTable| #[trigger] seen.contains((q, tab)) ==> closed(c, seen, stack, v, q, tab)
    &&& forall|i: int| 0 <= i < v.len() ==> item_ok(c, root, #[trigger] v[i])
}
/// ... and inside the directory (`p`, `tree`), `k` of whose entries `ch` have been handled
#[verifier::opaque]
pub open spec fn inner(c: Seq<u8>, root: DirectoryEntryTable, seen: Set<(Seq<char>, DirectoryEntryTable)>, stack: Seq<(String, DirectoryEntryTable)>, v: Seq<(String, DirectoryEntryNode)>,
    p: Seq<char>, tree: DirectoryEntryTable, ch: Seq<DirectoryEntryNode>, k: int) -> bool
{
    &&& covered(seen, stack, Seq::empty(), root)
    &&& seen.contains((p, tree))
    &&& reachable(c, root, p, tree)
    &&& forall|i: int| 0 <= i < stack.len() ==> reachable(c, root, (#[trigger] stack[i]).0@, stack[i].1)
    &&& forall|q: Seq<char>, tab: DirectoryEntryTable| #[trigger] seen.contains((q, tab)) && (q, tab) != (p, tree) ==> closed(c, seen, stack, v, q, tab)
    &&& forall|i: int| 0 <= i < v.len() ==> item_ok(c, root, #[trigger] v[i])
    &&& forall|i: int| 0 <= i < ch.len() ==> listed(c, tree, (#[trigger] ch[i]).offset - tree.region.start())
    &&& forall|o: int| #[trigger] listed(c, tree, o) ==> exists|i: int| 0 <= i < ch.len() && (#[trigger] ch[i]).offset == tree.region.start() + o
    &&& forall|i: int| 0 <= i < k ==> entry_done(c, seen, stack, v, p, tree, (#[trigger] ch[i]).offset - tree.region.start())
}
pub proof fn enter(c: Seq<u8>, root: DirectoryEntryTable, seen: Set<(Seq<char>, DirectoryEntryTable)>, stack: Seq<(String, DirectoryEntryTable)>, v: Seq<(String, DirectoryEntryNode)>, ch: Seq<DirectoryEntryNode>)
    requires
        outer(c, root, seen, stack, v), stack.len() > 0, all_trees(c, root),
        forall|t: DTree| #[trigger] dtable(c, stack.last().1, t) ==> offsets(ch, stack.last().1.region.start()) == worder(t),
    ensures inner(c, root, seen.insert((stack.last().0@, stack.last().1)), stack.drop_last(), v, stack.last().0@, stack.last().1, ch, 0),
{
    reveal(outer); reveal(inner);
    let p = stack.last().0@; let tree = stack.last().1; let seen2 = seen.insert((p, tree));
    assert(reachable(c, root, stack[stack.len() - 1].0@, stack[stack.len() - 1].1));
    listing(c, tree, ch);
    kept_pop(c, seen, stack, v);
    assert forall|q: Seq<char>, tab: DirectoryEntryTable| #[trigger] seen2.contains((q, tab)) && (q, tab) != (p, tree) implies closed(c, seen2, stack.drop_last(), v, q, tab) by {
        assert(seen.contains((q, tab)));
        kept_closed(c, seen, stack, v, seen2, stack.drop_last(), v, q, tab);
    }
    assert forall|i: int| 0 <= i < stack.drop_last().len() implies reachable(c, root, (#[trigger] stack.drop_last()[i]).0@, stack.drop_last()[i].1) by { assert(stack[i] == stack.drop_last()[i]); }
}
pub proof fn one_more(c: Seq<u8>, root: DirectoryEntryTable, seen: Set<(Seq<char>, DirectoryEntryTable)>, stack: Seq<(String, DirectoryEntryTable)>, v: Seq<(String, DirectoryEntryNode)>,
    p: Seq<char>, tree: DirectoryEntryTable, ch: Seq<DirectoryEntryNode>, k: int, stack2: Seq<(String, DirectoryEntryTable)>, x: (String, DirectoryEntryNode))
    requires
        inner(c, root, seen, stack, v, p, tree, ch, k), 0 <= k < ch.len(),
        x.0@ == p, x.1 == ch[k], entry_at(ch[k], c, ch[k].offset as int), tree.region.start() <= ch[k].offset,
        ch[k].node.dirent.attributes.spec_directory() ==> dec1252(ch[k].nm()) is Some
            && stack2.len() == stack.len() + 1 && stack2.drop_last() == stack
            && stack2.last().0@ == joined(p, dec1252(ch[k].nm())->Some_0) && stack2.last().1 == table_of(ch[k].node),
        !ch[k].node.dirent.attributes.spec_directory() ==> stack2 == stack,
    ensures inner(c, root, seen, stack2, v.push(x), p, tree, ch, k + 1),
{
    reveal(inner);
    let o = ch[k].offset - tree.region.start();
    let v2 = v.push(x);
    kept_push(c, seen, stack, v, stack2, x);
    assert(listed(c, tree, o));
    if stack2.len() > stack.len() {
        assert(child_dir(c, tree, o, p, stack2.last().0@, stack2.last().1));
        let n = choose|n: nat| #[trigger] reach(c, root, n, p, tree);
        assert(reach(c, root, n + 1, stack2.last().0@, stack2.last().1));
        assert(stack2[stack2.len() - 1] == stack2.last());
    }
    assert forall|i: int| 0 <= i < stack2.len() implies reachable(c, root, (#[trigger] stack2[i]).0@, stack2[i].1) by {
        if i < stack.len() { assert(stack[i] == stack2[i]); }
    }
    assert(item_ok(c, root, x)) by { assert(reachable(c, root, x.0@, tree)); }
    assert forall|i: int| 0 <= i < v2.len() implies item_ok(c, root, #[trigger] v2[i]) by { if i < v.len() { assert(v2[i] == v[i]); } }
    assert forall|q: Seq<char>, tab: DirectoryEntryTable| #[trigger] seen.contains((q, tab)) && (q, tab) != (p, tree) implies closed(c, seen, stack2, v2, q, tab) by {
        kept_closed(c, seen, stack, v, seen, stack2, v2, q, tab);
    }
    assert(v2[v2.len() - 1] == x);
    assert(has_item(c, v2, p, tree.region.start() + o));
    assert(entry_done(c, seen, stack2, v2, p, tree, o));
    assert forall|i: int| 0 <= i < k + 1 implies entry_done(c, seen, stack2, v2, p, tree, (#[trigger] ch[i]).offset - tree.region.start()) by {
        if i < k { assert(entry_done(c, seen, stack, v, p, tree, ch[i].offset - tree.region.start())); }
    }
}
pub proof fn leave(c: Seq<u8>, root: DirectoryEntryTable, seen: Set<(Seq<char>, DirectoryEntryTable)>, stack: Seq<(String, DirectoryEntryTable)>, v: Seq<(String, DirectoryEntryNode)>,
    p: Seq<char>, tree: DirectoryEntryTable, ch: Seq<DirectoryEntryNode>)
    requires inner(c, root, seen, stack, v, p, tree, ch, ch.len() as int),
    ensures outer(c, root, seen, stack, v),
{
    reveal(outer); reveal(inner);
    assert forall|o: int| #[trigger] listed(c, tree, o) implies entry_done(c, seen, stack, v, p, tree, o) by {
        let i = choose|i: int| 0 <= i < ch.len() && (#[trigger] ch[i]).offset == tree.region.start() + o;
        assert(entry_done(c, seen, stack, v, p, tree, ch[i].offset - tree.region.start()));
    }
}
pub proof fn finish(c: Seq<u8>, root: DirectoryEntryTable, seen: Set<(Seq<char>, DirectoryEntryTable)>, stack: Seq<(String, DirectoryEntryTable)>, v: Seq<(String, DirectoryEntryNode)>)
    requires outer(c, root, seen, stack, v), stack.len() == 0,
    ensures
        forall|n: nat, p: Seq<char>, tab: DirectoryEntryTable, o: int| #[trigger] reach(c, root, n, p, tab) && #[trigger] listed(c, tab, o) ==> has_item(c, v, p, tab.region.start() + o),
        forall|i: int| 0 <= i < v.len() ==> item_ok(c, root, #[trigger] v[i]),
{
    reveal(outer);
    assert(stack =~= Seq::empty());
    assert forall|n: nat, p: Seq<char>, tab: DirectoryEntryTable, o: int| #[trigger] reach(c, root, n, p, tab) && #[trigger] listed(c, tab, o)
        implies has_item(c, v, p, tab.region.start() + o) by {
        all_seen(c, root, seen, v, n, p, tab);
        assert(entry_done(c, seen, stack, v, p, tab, o));
    }
}
pub proof fn begin(c: Seq<u8>, root: DirectoryEntryTable, stack: Seq<(String, DirectoryEntryTable)>)
    requires stack.len() == 1, stack[0].0@.len() == 0, stack[0].1 == root,
    ensures outer(c, root, Set::empty(), stack, Seq::empty()),
{
    reveal(outer);
    assert(stack[0].0@ =~= Seq::<char>::empty());
    assert(reach(c, root, 0, Seq::empty(), root));
}

#[verifier::external_body]
pub fn vx_empty_string() -> (r: String)
    ensures r@.len() == 0,
{ String::new() }
/// stands for `format!("{}/{}", ..)`
#[verifier::external_body]
pub fn vx_join(a: &String, b: &VxStr) -> (r: String)
    ensures r@ == joined(a@, b@),
{ unimplemented!() }

//@file xdvdfs-core/src/read.rs
impl DirectoryEntryTable {
//@fn file_tree in impl DirectoryEntryTable
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub ?use alloc::vec; ==>
//@sub ?use alloc::format; ==>
//@sub let mut dirents = vec![]; ==> let mut dirents: Vec<(String, DirectoryEntryNode)> = Vec::new();
//@sub let mut stack = vec![(__1, *self)]; ==> let mut stack: Vec<(String, DirectoryEntryTable)> = Vec::new(); stack.push((vx_empty_string(), *self));
//@sub format!("{}/{}", parent, child_name) ==> vx_join(&parent, &child_name)
//@sub in children.iter() ==> in vx_i: children.iter()
//@spec
    requires
        old(dev).dev_ok(),
        old(dev).max_offset() >= MAX_OFFSET,
    ensures
        final(dev).dev_ok(),
        final(dev).max_offset() == old(dev).max_offset(),
        final(dev).contents() == old(dev).contents(),
        r is Ok ==> {
            // every entry of every directory that can be reached is in the list, under the path of its directory
            &&& all_trees(old(dev).contents(), *self) ==> forall|n: nat, p: Seq<char>, tab: DirectoryEntryTable, o: int|
                    #[trigger] reach(old(dev).contents(), *self, n, p, tab) && #[trigger] listed(old(dev).contents(), tab, o) ==> has_item(old(dev).contents(), r->Ok_0@, p, tab.region.start() + o)
            // and nothing else is
            &&& all_trees(old(dev).contents(), *self) ==> forall|i: int| 0 <= i < r->Ok_0@.len() ==> item_ok(old(dev).contents(), *self, #[trigger] r->Ok_0@[i])
        },
//@beforeloop 0
        let ghost c = dev.contents();
        let ghost root = *self;
        let ghost good = all_trees(c, root);
        let ghost mut seen: Set<(Seq<char>, DirectoryEntryTable)> = Set::empty();
        proof { begin(c, root, stack@); assert(dirents@ =~= Seq::empty()); }
//@loop 0 while
        invariant
            dev.dev_ok(), dev.max_offset() == old(dev).max_offset(), dev.max_offset() >= MAX_OFFSET,
            dev.contents() == old(dev).contents(), c == dev.contents(), root == *self,
            good == all_trees(c, root),
            good ==> outer(c, root, seen, stack@, dirents@),
        ensures
            stack@.len() == 0,
//@loopstart 0
            let ghost stack0 = stack@.push((parent, tree));
            let ghost seen0 = seen;
            proof {
                assert forall|s: Seq<(String, DirectoryEntryTable)>| s.len() == stack@.len() + 1 && s.subrange(0, s.len() - 1) == stack@ && s[s.len() - 1] == (parent, tree)
                    && #[trigger] outer(c, root, seen0, s, dirents@) implies s == stack0 by { assert(s =~= stack0) by { assert forall|i: int| 0 <= i < stack@.len() implies s[i] == stack0[i] by { assert(s.subrange(0, s.len() - 1)[i] == s[i]); } } }
                assert(stack0.drop_last() =~= stack@); seen = seen0.insert((parent@, tree));
            }
//@beforeloop 1
            proof { if good { enter(c, root, seen0, stack0, dirents@, children@); } }
//@loop 1 for
        invariant
            dev.dev_ok(), dev.max_offset() == old(dev).max_offset(), dev.max_offset() >= MAX_OFFSET,
            dev.contents() == old(dev).contents(), c == dev.contents(),
            good ==> inner(c, root, seen, stack@, dirents@, parent@, tree, children@, vx_i.index@),
            as_stored(children@, c, tree),
//@loopstart 1
                let ghost stack1 = stack@;
                let ghost d1 = dirents@;
                let ghost k = vx_i.index@;
//@loopend 1
                proof {
                    if good {
                        assert(dirents@ =~= d1.push(dirents@.last()));
                        if stack@.len() > stack1.len() { assert(stack@.drop_last() =~= stack1); }
                        one_more(c, root, seen, stack1, d1, parent@, tree, children@, k, stack@, dirents@.last());
                    }
                }
//@loopend 0
            proof { if good { leave(c, root, seen, stack@, dirents@, parent@, tree, children@); } }
//@afterloop 0
        proof { if good { finish(c, root, seen, stack@, dirents@); } }
//@end
}
