//@deps lookup
// Listing a directory by its links.
use crate::{bincode, layout, util};
use crate::blockdev::*;
use crate::layout::*;
use crate::codec::*;
use crate::records::*;
use crate::lookup::*;

/// the order of a listing: a node, then what is to the right of it, then what is to the left
pub open spec fn worder(t: DTree) -> Seq<int>
    decreases t,
{
    match t { DTree::Leaf => Seq::empty(), DTree::Node(o, l, r) => seq![o] + worder(*r) + worder(*l) }
}
/// the order of what is still to be listed: the last tree first
pub open spec fn forder(s: Seq<DTree>) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { worder(s.last()) + forder(s.drop_last()) }
}
pub open spec fn offsets(v: Seq<DirectoryEntryNode>, start: int) -> Seq<int> { v.map_values(|d: DirectoryEntryNode| d.offset - start) }
/// every listed entry is an entry of the table as it is stored
pub open spec fn as_stored(v: Seq<DirectoryEntryNode>, c: Seq<u8>, tab: DirectoryEntryTable) -> bool {
    forall|i: int| 0 <= i < v.len() ==> tab.region.start() <= (#[trigger] v[i]).offset < tab.region.start() + tab.region.size
        && entry_at(v[i], c, v[i].offset as int)
}
/// every node of the tree is listed, once
pub proof fn worder_contains(t: DTree, o: int)
    ensures worder(t).contains(o) <==> contains(t, o),
    decreases t,
{
    match t {
        DTree::Leaf => {},
        DTree::Node(x, l, r) => {
            worder_contains(*l, o); worder_contains(*r, o);
            let a = seq![x]; let b = worder(*r); let d = worder(*l);
            if contains(t, o) {
                if x == o { assert((a + b + d)[0] == o); }
                else if contains(*r, o) { let i = b.index_of(o); assert((a + b + d)[1 + i] == o); }
                else { let i = d.index_of(o); assert((a + b + d)[1 + b.len() + i] == o); }
            }
            if worder(t).contains(o) {
                let i = worder(t).index_of(o);
                if i == 0 {} else if i < 1 + b.len() { assert(b[i - 1] == o); } else { assert(d[i - 1 - b.len()] == o); }
            }
        },
    }
}
pub proof fn forder_push(s: Seq<DTree>, t: DTree)
    ensures forder(s.push(t)) == worder(t) + forder(s),
{
    assert(s.push(t).drop_last() =~= s);
}

//@file xdvdfs-core/src/read.rs
impl DirectoryEntryTable {
//@fn walk_dirent_tree in impl DirectoryEntryTable
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub let mut dirents = vec![]; ==> let mut dirents: Vec<DirectoryEntryNode> = Vec::new();
//@sub ?let mut stack = vec![0]; ==> let mut stack: Vec<u64> = Vec::new(); stack.push(0);
//@sub ?use alloc::vec; ==>
//@spec
    requires
        old(dev).dev_ok(),
        old(dev).max_offset() >= MAX_OFFSET,
    ensures
        final(dev).dev_ok(),
        final(dev).max_offset() == old(dev).max_offset(),
        final(dev).contents() == old(dev).contents(),
        self.region.size == 0 ==> r is Ok && r->Ok_0@.len() == 0,
        r is Ok ==> as_stored(r->Ok_0@, old(dev).contents(), *self),
        // a table whose links form a tree is listed completely, in that order
        forall|t: DTree| #[trigger] dtable(old(dev).contents(), *self, t) ==> {
            &&& (r is Ok ==> offsets(r->Ok_0@, self.region.start()) == worder(t))
            &&& (r is Err ==> r->Err_0 is IOError)
        },
//@beforeloop 0
        let ghost c = dev.contents();
        let ghost tab = *self;
        let ghost good = exists|t: DTree| #[trigger] dtable(c, tab, t);
        let ghost whole: DTree = choose|t: DTree| #[trigger] dtable(c, tab, t);
        let ghost mut todo: Seq<DTree> = seq![whole];
        proof {
            assert forall|u: DTree| #[trigger] dtable(c, tab, u) && good implies u == whole by { dtable_unique(c, tab, u, whole); }
            forder_push(Seq::empty(), whole);
            assert(todo =~= Seq::<DTree>::empty().push(whole));
            assert(forder(todo) =~= worder(whole));
        }
//@loop 0 while
        invariant
            dev.dev_ok(), dev.max_offset() == old(dev).max_offset(), dev.max_offset() >= MAX_OFFSET,
            dev.contents() == old(dev).contents(), c == dev.contents(), tab == *self, tab.region.size > 0,
            as_stored(dirents@, c, tab),
            good == (exists|t: DTree| #[trigger] dtable(c, tab, t)),
            good ==> {
                &&& forall|u: DTree| #[trigger] dtable(c, tab, u) ==> u == whole
                &&& todo.len() == stack@.len()
                &&& forall|i: int| 0 <= i < todo.len() ==> dlinked(c, tab, stack@[i] as int, #[trigger] todo[i])
                &&& offsets(dirents@, tab.region.start()) + forder(todo) =~= worder(whole)
            },
        ensures
            stack@.len() == 0,
//@loopstart 0
            let ghost before = todo;
            let ghost t = todo.last();
            proof { if good { todo = before.drop_last(); } }
//@before if let Some(dirent)
            proof { if good { assert(dlinked(c, tab, top as int, t)); } }
//@before dirents.push(dirent)
                proof {
                    if good {
                        let rest = before.drop_last();
                        let l = *t->Node_1; let r = *t->Node_2;
                        let a = if no_link(dirent.node.left_entry_offset) { rest } else { rest.push(l) };
                        todo = if no_link(dirent.node.right_entry_offset) { a } else { a.push(r) };
                        forder_push(rest, l); forder_push(a, r);
                        assert(dchild(c, tab, dirent.node.left_entry_offset, l));
                        assert(dchild(c, tab, dirent.node.right_entry_offset, r));
                        assert(forder(todo) =~= worder(r) + worder(l) + forder(rest));
                        assert(offsets(dirents@.push(dirent), tab.region.start()) =~= offsets(dirents@, tab.region.start()).push(top as int));
                    }
                }
//@end
}
