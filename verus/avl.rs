// The AVL tree of a directory: for every insertion order the tree stays height balanced and sorted.
use core::cmp::Ordering;
use vstd::std_specs::cmp::OrdSpec;
use alloc::{boxed::Box, vec::Vec};
//@file xdvdfs-core/src/write/avl.rs
//@item enum AvlDirection | #[derive(Copy, Clone)]
//@item struct AvlNode
//@item struct AvlTree

// ------------------------------------------------------------------ ghost view
/// The shape of the search tree stored in the backing vector; nodes are named by their index.
pub enum Tree { Leaf, Node(usize, Box<Tree>, Box<Tree>) }

pub open spec fn mx(a: int, b: int) -> int { if a >= b { a } else { b } }

pub open spec fn ht(t: Tree) -> int
    decreases t,
{
    match t { Tree::Leaf => 0, Tree::Node(i, l, r) => 1 + mx(ht(*l), ht(*r)) }
}
/// height balanced: at every node the heights of the two subtrees differ by at most one
pub open spec fn bal(t: Tree) -> bool
    decreases t,
{
    match t {
        Tree::Leaf => true,
        Tree::Node(i, l, r) => bal(*l) && bal(*r) && -1 <= ht(*l) - ht(*r) <= 1,
    }
}
pub open spec fn inn(t: Tree, j: usize) -> bool
    decreases t,
{
    match t { Tree::Leaf => false, Tree::Node(i, l, r) => j == i || inn(*l, j) || inn(*r, j) }
}
/// no node occurs twice
pub open spec fn dis(t: Tree) -> bool
    decreases t,
{
    match t {
        Tree::Leaf => true,
        Tree::Node(i, l, r) => dis(*l) && dis(*r) && !inn(*l, i) && !inn(*r, i) && (forall|j: usize| !(inn(*l, j) && inn(*r, j))),
    }
}
pub open spec fn inord(t: Tree) -> Seq<usize>
    decreases t,
{
    match t { Tree::Leaf => Seq::empty(), Tree::Node(i, l, r) => inord(*l) + seq![i] + inord(*r) }
}
/// nodes in the order root, left, right
pub open spec fn preord(t: Tree) -> Seq<usize>
    decreases t,
{
    match t { Tree::Leaf => Seq::empty(), Tree::Node(i, l, r) => seq![i] + preord(*l) + preord(*r) }
}
pub open spec fn sz(t: Tree) -> nat
    decreases t,
{
    match t { Tree::Leaf => 0, Tree::Node(i, l, r) => 1 + sz(*l) + sz(*r) }
}

/// `t` is what is stored below `link`, whose parent is `parent`; heights are the true ones
pub open spec fn rep<T: Ord>(s: Seq<AvlNode<T>>, link: Option<usize>, parent: Option<usize>, t: Tree) -> bool
    decreases t,
{
    match t {
        Tree::Leaf => link is None,
        Tree::Node(i, l, r) => {
            &&& link == Some(i)
            &&& i < s.len()
            &&& s[i as int].parent == parent
            &&& s[i as int].height == ht(t)
            &&& rep(s, s[i as int].left_node, Some(i), *l)
            &&& rep(s, s[i as int].right_node, Some(i), *r)
        },
    }
}

/// A step of the way from a node up to the root: node `i`, whether the way comes from its left, the other subtree.
pub struct Frame { pub i: usize, pub left: bool, pub sib: Tree }
pub type Ctx = Seq<Frame>;

pub open spec fn cin(c: Ctx, j: usize) -> bool
    decreases c.len(),
{
    if c.len() == 0 { false } else { j == c.last().i || inn(c.last().sib, j) || cin(c.drop_last(), j) }
}
pub open spec fn cdis(c: Ctx) -> bool
    decreases c.len(),
{
    if c.len() == 0 { true } else {
        let f = c.last();
        &&& dis(f.sib)
        &&& !inn(f.sib, f.i)
        &&& !cin(c.drop_last(), f.i)
        &&& forall|j: usize| !(inn(f.sib, j) && cin(c.drop_last(), j))
        &&& cdis(c.drop_last())
    }
}
/// in-order sequences before and after the hole of the context
pub open spec fn pre(c: Ctx) -> Seq<usize>
    decreases c.len(),
{
    if c.len() == 0 { Seq::empty() }
    else if c.last().left { pre(c.drop_last()) }
    else { pre(c.drop_last()) + (inord(c.last().sib) + seq![c.last().i]) }
}
pub open spec fn post(c: Ctx) -> Seq<usize>
    decreases c.len(),
{
    if c.len() == 0 { Seq::empty() }
    else if c.last().left { (seq![c.last().i] + inord(c.last().sib)) + post(c.drop_last()) }
    else { post(c.drop_last()) }
}
/// the context is stored in `s` below `root`; its hole contains `link` whose parent is `par`
pub open spec fn crep<T: Ord>(s: Seq<AvlNode<T>>, root: Option<usize>, c: Ctx, link: Option<usize>, par: Option<usize>) -> bool
    decreases c.len(),
{
    if c.len() == 0 { root == link && par is None } else {
        let f = c.last();
        let n = s[f.i as int];
        &&& par == Some(f.i)
        &&& f.i < s.len()
        &&& (if f.left { n.left_node == link && rep(s, n.right_node, Some(f.i), f.sib) }
             else { n.right_node == link && rep(s, n.left_node, Some(f.i), f.sib) })
        &&& crep(s, root, c.drop_last(), Some(f.i), n.parent)
    }
}
/// heights and balance of the context for a subtree of height `h` in its hole
pub open spec fn cbal<T: Ord>(s: Seq<AvlNode<T>>, c: Ctx, h: int) -> bool
    decreases c.len(),
{
    if c.len() == 0 { true } else {
        let f = c.last();
        &&& bal(f.sib)
        &&& -1 <= h - ht(f.sib) <= 1
        &&& s[f.i as int].height == 1 + mx(h, ht(f.sib))
        &&& cbal(s, c.drop_last(), 1 + mx(h, ht(f.sib)))
    }
}
pub open spec fn chole(f: Frame, t: Tree) -> Tree {
    if f.left { Tree::Node(f.i, Box::new(t), Box::new(f.sib)) } else { Tree::Node(f.i, Box::new(f.sib), Box::new(t)) }
}

// ------------------------------------------------------------------ lemmas
pub proof fn rep_move<T: Ord>(s: Seq<AvlNode<T>>, s2: Seq<AvlNode<T>>, link: Option<usize>, p1: Option<usize>, p2: Option<usize>, t: Tree)
    requires
        rep(s, link, p1, t),
        dis(t),
        s2.len() >= s.len(),
        forall|j: usize| #![trigger inn(t, j)] inn(t, j) && j < s.len() ==> {
            &&& s2[j as int].left_node == s[j as int].left_node
            &&& s2[j as int].right_node == s[j as int].right_node
            &&& s2[j as int].height == s[j as int].height
            &&& s2[j as int].parent == (if link == Some(j) { p2 } else { s[j as int].parent })
        },
    ensures
        rep(s2, link, p2, t),
    decreases t,
{
    match t {
        Tree::Leaf => {},
        Tree::Node(i, l, r) => {
            assert(inn(t, i));
            assert forall|j: usize| inn(*l, j) implies inn(t, j) && j != i by {}
            assert forall|j: usize| inn(*r, j) implies inn(t, j) && j != i by {}
            rep_move(s, s2, s[i as int].left_node, Some(i), Some(i), *l);
            rep_move(s, s2, s[i as int].right_node, Some(i), Some(i), *r);
        },
    }
}
pub proof fn rep_lt<T: Ord>(s: Seq<AvlNode<T>>, link: Option<usize>, p: Option<usize>, t: Tree)
    requires rep(s, link, p, t),
    ensures
        forall|j: usize| inn(t, j) ==> j < s.len(),
        link is Some ==> inn(t, link->Some_0),
        link is None ==> t is Leaf,
    decreases t,
{
    match t {
        Tree::Leaf => {},
        Tree::Node(i, l, r) => {
            rep_lt(s, s[i as int].left_node, Some(i), *l);
            rep_lt(s, s[i as int].right_node, Some(i), *r);
            assert forall|j: usize| inn(t, j) implies j < s.len() by {
                if j == i {} else if inn(*l, j) {} else { assert(inn(*r, j)); }
            }
        },
    }
}
pub proof fn crep_lt<T: Ord>(s: Seq<AvlNode<T>>, root: Option<usize>, c: Ctx, link: Option<usize>, par: Option<usize>)
    requires crep(s, root, c, link, par),
    ensures forall|j: usize| cin(c, j) ==> j < s.len(),
    decreases c.len(),
{
    if c.len() > 0 {
        let f = c.last();
        crep_lt(s, root, c.drop_last(), Some(f.i), s[f.i as int].parent);
        if f.left { rep_lt(s, s[f.i as int].right_node, Some(f.i), f.sib); } else { rep_lt(s, s[f.i as int].left_node, Some(f.i), f.sib); }
        assert forall|j: usize| cin(c, j) implies j < s.len() by {
            if j == f.i {} else if inn(f.sib, j) {} else { assert(cin(c.drop_last(), j)); }
        }
    }
}
/// the context survives changes outside of it, and another link in its hole
pub proof fn crep_move<T: Ord>(s: Seq<AvlNode<T>>, s2: Seq<AvlNode<T>>, root: Option<usize>, root2: Option<usize>, c: Ctx, link: Option<usize>, link2: Option<usize>, par: Option<usize>, h: int)
    requires
        crep(s, root, c, link, par),
        cdis(c),
        cbal(s, c, h),
        s2.len() >= s.len(),
        if c.len() == 0 { root2 == link2 } else { root2 == root },
        forall|j: usize| #![trigger cin(c, j)] cin(c, j) && j < s.len() ==> {
            &&& s2[j as int].height == s[j as int].height
            &&& s2[j as int].parent == s[j as int].parent
            &&& s2[j as int].left_node == (if par == Some(j) && c.last().left { link2 } else { s[j as int].left_node })
            &&& s2[j as int].right_node == (if par == Some(j) && !c.last().left { link2 } else { s[j as int].right_node })
        },
    ensures
        crep(s2, root2, c, link2, par),
        cbal(s2, c, h),
    decreases c.len(),
{
    if c.len() > 0 {
        let f = c.last();
        let d = c.drop_last();
        assert(cin(c, f.i));
        assert forall|j: usize| inn(f.sib, j) implies cin(c, j) && j != f.i by {}
        assert forall|j: usize| cin(d, j) implies cin(c, j) && j != f.i by {}
        assert(match f.sib {
            Tree::Leaf => true,
            Tree::Node(k, _l, _r) => s[k as int].parent == Some(f.i) && (if f.left { s[f.i as int].right_node == Some(k) } else { s[f.i as int].left_node == Some(k) }),
        });
        assert(crep(s, root, d, Some(f.i), s[f.i as int].parent));
        assert(d.len() > 0 ==> s[f.i as int].parent == Some(d.last().i) && (if d.last().left { s[d.last().i as int].left_node == Some(f.i) } else { s[d.last().i as int].right_node == Some(f.i) }));
        assert(d.len() == 0 ==> s[f.i as int].parent is None);
        assert forall|j: usize| #![trigger inn(f.sib, j)] inn(f.sib, j) && j < s.len() implies {
            &&& s2[j as int].left_node == s[j as int].left_node
            &&& s2[j as int].right_node == s[j as int].right_node
            &&& s2[j as int].height == s[j as int].height
            &&& s2[j as int].parent == s[j as int].parent
        } by { assert(cin(c, j)); }
        assert forall|j: usize| #![trigger cin(d, j)] cin(d, j) && j < s.len() implies {
            &&& s2[j as int].left_node == s[j as int].left_node
            &&& s2[j as int].right_node == s[j as int].right_node
            &&& s2[j as int].height == s[j as int].height
            &&& s2[j as int].parent == s[j as int].parent
        } by { assert(cin(c, j)); }
        if f.left {
            rep_move(s, s2, s[f.i as int].right_node, Some(f.i), Some(f.i), f.sib);
        } else {
            rep_move(s, s2, s[f.i as int].left_node, Some(f.i), Some(f.i), f.sib);
        }
        assert(d.len() > 0 ==> cin(d, d.last().i));
        crep_move(s, s2, root, root2, d, Some(f.i), Some(f.i), s[f.i as int].parent, 1 + mx(h, ht(f.sib)));
    }
}
pub proof fn ht_nonneg(t: Tree)
    ensures ht(t) >= 0, t is Leaf <==> ht(t) == 0,
    decreases t,
{
    match t { Tree::Leaf => {}, Tree::Node(i, l, r) => { ht_nonneg(*l); ht_nonneg(*r); } }
}

// the height of a balanced tree is logarithmic in its size
pub open spec fn pw(h: int) -> int
    decreases h,
{
    if h <= 1 { 1 } else { 2 * pw(h - 2) }
}
pub proof fn pw_mono(a: int, b: int)
    requires a <= b,
    ensures 1 <= pw(a) <= pw(b),
    decreases mx(b, 0),
{
    if b > 1 {
        pw_mono(a - 2, b - 2);
        if a <= 1 { pw_mono(b - 2, b - 2); }
    }
}
pub proof fn bal_size(t: Tree)
    requires bal(t),
    ensures sz(t) + 1 >= pw(ht(t)),
    decreases t,
{
    match t {
        Tree::Leaf => {},
        Tree::Node(i, l, r) => {
            ht_nonneg(*l); ht_nonneg(*r);
            bal_size(*l); bal_size(*r);
            pw_mono(ht(t) - 2, ht(*l)); pw_mono(ht(t) - 2, ht(*r));
        },
    }
}
pub open spec fn ids(t: Tree) -> Set<int>
    decreases t,
{
    match t { Tree::Leaf => Set::empty(), Tree::Node(i, l, r) => ids(*l).union(ids(*r)).insert(i as int) }
}
pub proof fn ids_size(t: Tree)
    requires dis(t),
    ensures
        ids(t).finite(), ids(t).len() == sz(t),
        forall|j: int| ids(t).contains(j) ==> 0 <= j <= usize::MAX && inn(t, j as usize),
    decreases t,
{
    match t {
        Tree::Leaf => {},
        Tree::Node(i, l, r) => {
            ids_size(*l); ids_size(*r);
            assert(ids(*l).disjoint(ids(*r)));
            vstd::set_lib::lemma_set_disjoint_lens(ids(*l), ids(*r));
            assert(!ids(*l).union(ids(*r)).contains(i as int));
        },
    }
}
pub proof fn size_bound(t: Tree, n: nat)
    requires dis(t), forall|j: usize| inn(t, j) ==> j < n,
    ensures sz(t) <= n,
{
    ids_size(t);
    vstd::set_lib::lemma_int_range(0, n as int);
    vstd::set_lib::lemma_len_subset(ids(t), vstd::set_lib::set_int_range(0, n as int));
}
pub proof fn ht_bound(t: Tree, n: nat)
    requires bal(t), dis(t), forall|j: usize| inn(t, j) ==> j < n, n <= usize::MAX,
    ensures 0 <= ht(t) <= 200,
{
    ht_nonneg(t);
    if ht(t) > 200 {
        size_bound(t, n);
        bal_size(t);
        pw_mono(200, ht(t));
        assert(pw(200) > 0x1_0000_0000_0000_0000int) by (compute);
        assert(false);
    }
}

// ------------------------------------------------------------------ order
pub open spec fn lt<T: Ord>(a: T, b: T) -> bool { OrdSpec::cmp_spec(&a, &b) == Ordering::Less }
/// T's comparison is a strict total order (proved for directory entries in `names`)
pub open spec fn lawful<T: Ord>() -> bool {
    &&& T::obeys_cmp_spec()
    &&& forall|a: T, b: T| #![trigger OrdSpec::cmp_spec(&a, &b)] (OrdSpec::cmp_spec(&a, &b) == Ordering::Greater) == (OrdSpec::cmp_spec(&b, &a) == Ordering::Less)
    &&& forall|a: T, b: T, c: T| #![trigger lt(a, b), lt(b, c)] lt(a, b) && lt(b, c) ==> lt(a, c)
}
pub open spec fn sorted<T: Ord>(s: Seq<AvlNode<T>>, q: Seq<usize>) -> bool {
    forall|x: int, y: int| #![trigger q[x], q[y]] 0 <= x < y < q.len() ==> lt(*s[q[x] as int].data, *s[q[y] as int].data)
}

impl<T: Ord> AvlTree<T> {
    /// `t` is the tree stored in `self`: a balanced search tree of all of its nodes
    pub open spec fn shows(self, t: Tree) -> bool {
        &&& rep(self.tree@, self.root, None, t)
        &&& bal(t)
        &&& dis(t)
        &&& forall|j: usize| inn(t, j) <==> j < self.tree@.len()
        &&& sorted(self.tree@, inord(t))
    }
    pub open spec fn wf(self) -> bool { exists|t: Tree| self.shows(t) }
    /// what `parent_node_ref` designates: the link to `i` in its parent, or the root
    pub open spec fn link_ok(self, i: usize) -> bool {
        &&& i < self.tree@.len()
        &&& self.tree@[i as int].parent is Some ==> {
            let p = self.tree@[i as int].parent->Some_0;
            &&& p < self.tree@.len()
            &&& self.tree@[p as int].left_node == Some(i) || self.tree@[p as int].right_node == Some(i)
        }
    }
    /// `self` with the link to `i` replaced
    pub open spec fn relinked(self, i: usize, to: Option<usize>, new: AvlTree<T>) -> bool {
        match self.tree@[i as int].parent {
            None => new.root == to && new.tree@ == self.tree@,
            Some(p) => {
                &&& new.root == self.root
                &&& new.tree@ == self.tree@.update(p as int,
                        if self.tree@[p as int].left_node == Some(i) { AvlNode { left_node: to, ..self.tree@[p as int] } }
                        else { AvlNode { right_node: to, ..self.tree@[p as int] } })
            },
        }
    }
}

impl<T: Ord> Default for AvlTree<T> {
//@fn default in impl<T: Ord> Default for AvlTree<T>
//@ret r
//@spec
    ensures r.tree@.len() == 0, r.wf(),
//@start
        proof {
            assert forall|v: AvlTree<T>| #![trigger v.wf()] v.root is None && v.tree@.len() == 0 implies v.wf() by { assert(v.shows(Tree::Leaf)); }
        }
//@end
}
impl<T: Ord> AvlNode<T> {
//@fn new in impl<T: Ord> AvlNode<T>
//@ret r
//@spec
    ensures r.left_node is None, r.right_node is None, r.parent == parent, r.height == 1, *r.data == data,
//@sub Box::from(data) ==> Box::new(data)
//@end
//@fn child_from_direction in impl<T: Ord> AvlNode<T>
//@ret r
//@spec
    ensures r == (match dir { AvlDirection::Left => self.left_node, AvlDirection::Right => self.right_node, AvlDirection::Leaf => None }),
//@end
//@fn left_idx in impl<T: Ord> AvlNode<T>
//@ret r
//@spec
    ensures r == self.left_node,
//@end
//@fn right_idx in impl<T: Ord> AvlNode<T>
//@ret r
//@spec
    ensures r == self.right_node,
//@end
//@fn data in impl<T: Ord> AvlNode<T>
//@ret r
//@spec
    ensures *r == *self.data,
//@end
}

pub open spec fn hof<T: Ord>(s: Seq<AvlNode<T>>, link: Option<usize>) -> int {
    match link { None => 0, Some(i) => s[i as int].height as int }
}
pub open spec fn link_in<T: Ord>(s: Seq<AvlNode<T>>, link: Option<usize>) -> bool {
    link is Some ==> link->Some_0 < s.len() && 0 <= s[link->Some_0 as int].height <= 1000
}
pub open spec fn link_lo<T: Ord>(s: Seq<AvlNode<T>>, link: Option<usize>) -> bool {
    link is Some ==> link->Some_0 < s.len() && 0 <= s[link->Some_0 as int].height <= 900
}
pub open spec fn setp<T: Ord>(s: Seq<AvlNode<T>>, link: Option<usize>, p: usize) -> Seq<AvlNode<T>> {
    match link { None => s, Some(i) => s.update(i as int, AvlNode { parent: Some(p), ..s[i as int] }) }
}
pub open spec fn set_l<T: Ord>(s: Seq<AvlNode<T>>, i: usize, to: Option<usize>) -> Seq<AvlNode<T>> {
    setp(s.update(i as int, AvlNode { left_node: to, ..s[i as int] }), to, i)
}
pub open spec fn set_r<T: Ord>(s: Seq<AvlNode<T>>, i: usize, to: Option<usize>) -> Seq<AvlNode<T>> {
    setp(s.update(i as int, AvlNode { right_node: to, ..s[i as int] }), to, i)
}

impl<T: Ord> AvlTree<T> {
//@fn allocate in impl<T: Ord> AvlTree<T>
//@ret r
//@spec
    ensures
        r == old(self).tree@.len(),
        final(self).root == old(self).root,
        final(self).tree@.len() == old(self).tree@.len() + 1,
        final(self).tree@ == old(self).tree@.push(final(self).tree@[r as int]),
        ({
            let n = final(self).tree@[r as int];
            n.left_node is None && n.right_node is None && n.parent == parent && n.height == 1 && *n.data == data
        }),
//@end

//@fn parent_direction in impl<T: Ord> AvlTree<T>
//@ret r
//@spec
    requires self.link_ok(node_idx),
    ensures
        match self.tree@[node_idx as int].parent {
            None => r is None,
            Some(p) => r is Some && r->Some_0.0 == p && (
                if self.tree@[p as int].left_node == Some(node_idx) { r->Some_0.1 is Left } else { r->Some_0.1 is Right && self.tree@[p as int].right_node == Some(node_idx) }),
        },
//@end

//@fn parent_node_ref in impl<T: Ord> AvlTree<T>
//@ret r
//@spec
    requires old(self).link_ok(idx),
    ensures old(self).relinked(idx, *final(r), *final(self)),
//@end

//@fn update_node_height in impl<T: Ord> AvlTree<T>
//@spec
    requires
        node_idx < old(self).tree@.len(),
        link_in(old(self).tree@, old(self).tree@[node_idx as int].left_node),
        link_in(old(self).tree@, old(self).tree@[node_idx as int].right_node),
    ensures
        final(self).root == old(self).root,
        final(self).tree@ == old(self).tree@.update(node_idx as int, AvlNode {
            height: (1 + mx(hof(old(self).tree@, old(self).tree@[node_idx as int].left_node), hof(old(self).tree@, old(self).tree@[node_idx as int].right_node))) as i32,
            ..old(self).tree@[node_idx as int] }),
//@end

//@fn balance_factor in impl<T: Ord> AvlTree<T>
//@ret r
//@spec
    requires
        node_idx < self.tree@.len(),
        link_in(self.tree@, self.tree@[node_idx as int].left_node),
        link_in(self.tree@, self.tree@[node_idx as int].right_node),
    ensures r == hof(self.tree@, self.tree@[node_idx as int].left_node) - hof(self.tree@, self.tree@[node_idx as int].right_node),
//@end

//@fn set_left_child in impl<T: Ord> AvlTree<T>
//@spec
    requires node < old(self).tree@.len(), to is Some ==> to->Some_0 < old(self).tree@.len(),
    ensures final(self).root == old(self).root, final(self).tree@ == set_l(old(self).tree@, node, to),
//@end
//@fn set_right_child in impl<T: Ord> AvlTree<T>
//@spec
    requires node < old(self).tree@.len(), to is Some ==> to->Some_0 < old(self).tree@.len(),
    ensures final(self).root == old(self).root, final(self).tree@ == set_r(old(self).tree@, node, to),
//@end
}

// ------------------------------------------------------------------ rotations
/// link field of `s[p]` that designates `a` replaced by `to`
pub open spec fn relink<T: Ord>(n: AvlNode<T>, a: usize, to: usize) -> AvlNode<T> {
    if n.left_node == Some(a) { AvlNode { left_node: Some(to), ..n } } else { AvlNode { right_node: Some(to), ..n } }
}
pub open spec fn notin(link: Option<usize>, a: usize, b: usize, c: usize) -> bool {
    link is Some ==> link->Some_0 != a && link->Some_0 != b && link->Some_0 != c
}
/// what all rotations may assume about `a`, its child `b` and its grandchild `c`
pub open spec fn rot_pre<T: Ord>(v: AvlTree<T>, a: usize, b: usize, c: usize) -> bool {
    let s = v.tree@;
    &&& a != b && b != c && a != c
    &&& a < s.len() && b < s.len() && c < s.len()
    &&& v.link_ok(a)
    &&& notin(s[a as int].parent, a, b, c)
    &&& link_lo(s, s[a as int].left_node) && link_lo(s, s[a as int].right_node)
    &&& link_lo(s, s[b as int].left_node) && link_lo(s, s[b as int].right_node)
    &&& link_lo(s, s[c as int].left_node) && link_lo(s, s[c as int].right_node)
    &&& s[a as int].left_node == Some(b) || notin(s[a as int].left_node, a, b, c)
    &&& s[a as int].right_node == Some(b) || notin(s[a as int].right_node, a, b, c)
    &&& s[b as int].left_node == Some(c) || notin(s[b as int].left_node, a, b, c)
    &&& s[b as int].right_node == Some(c) || notin(s[b as int].right_node, a, b, c)
    &&& notin(s[c as int].left_node, a, b, c) && notin(s[c as int].right_node, a, b, c)
    &&& s[a as int].left_node != s[a as int].right_node
    &&& s[b as int].left_node != s[b as int].right_node
    &&& s[c as int].left_node is Some ==> s[c as int].left_node != s[c as int].right_node
    &&& s[a as int].parent is Some ==> {
        &&& s[b as int].left_node != s[a as int].parent && s[b as int].right_node != s[a as int].parent
        &&& s[c as int].left_node != s[a as int].parent && s[c as int].right_node != s[a as int].parent
        &&& s[a as int].left_node != s[a as int].parent && s[a as int].right_node != s[a as int].parent
    }
}
/// nodes outside of the rotated part: unchanged but for the link from above and the parents of moved subtrees
pub open spec fn rot_frame<T: Ord>(o: AvlTree<T>, n: AvlTree<T>, a: usize, b: usize, c: usize, top: usize, x: Option<usize>, px: usize, y: Option<usize>, py: usize) -> bool {
    let s = o.tree@; let s2 = n.tree@;
    &&& s2.len() == s.len()
    &&& n.root == (if s[a as int].parent is None { Some(top) } else { o.root })
    &&& forall|j: usize| #![trigger s2[j as int]] j < s.len() && j != a && j != b && j != c ==> s2[j as int] == (
            if s[a as int].parent == Some(j) { relink(s[j as int], a, top) }
            else if x == Some(j) { AvlNode { parent: Some(px), ..s[j as int] } }
            else if y == Some(j) { AvlNode { parent: Some(py), ..s[j as int] } }
            else { s[j as int] })
}
pub open spec fn hh<T: Ord>(s: Seq<AvlNode<T>>, x: Option<usize>, y: Option<usize>) -> i32 { (1 + mx(hof(s, x), hof(s, y))) as i32 }

pub open spec fn l_rot<T: Ord>(o: AvlTree<T>, n: AvlTree<T>, a: usize, b: usize, c: usize) -> bool {
    let s = o.tree@; let s2 = n.tree@;
    let x = s[b as int].left_node;
    let ha = hh(s, s[a as int].left_node, x);
    let hc = hh(s, s[c as int].left_node, s[c as int].right_node);
    &&& rot_frame(o, n, a, b, c, b, x, a, None, a)
    &&& s2[a as int] == AvlNode { right_node: x, parent: Some(b), height: ha, ..s[a as int] }
    &&& s2[b as int] == AvlNode { left_node: Some(a), parent: s[a as int].parent, height: (1 + mx(ha as int, hc as int)) as i32, ..s[b as int] }
    &&& s2[c as int] == AvlNode { height: hc, ..s[c as int] }
}
pub open spec fn r_rot<T: Ord>(o: AvlTree<T>, n: AvlTree<T>, a: usize, b: usize, c: usize) -> bool {
    let s = o.tree@; let s2 = n.tree@;
    let x = s[b as int].right_node;
    let ha = hh(s, x, s[a as int].right_node);
    let hc = hh(s, s[c as int].left_node, s[c as int].right_node);
    &&& rot_frame(o, n, a, b, c, b, x, a, None, a)
    &&& s2[a as int] == AvlNode { left_node: x, parent: Some(b), height: ha, ..s[a as int] }
    &&& s2[b as int] == AvlNode { right_node: Some(a), parent: s[a as int].parent, height: (1 + mx(hc as int, ha as int)) as i32, ..s[b as int] }
    &&& s2[c as int] == AvlNode { height: hc, ..s[c as int] }
}
pub open spec fn rl_rot<T: Ord>(o: AvlTree<T>, n: AvlTree<T>, a: usize, b: usize, c: usize) -> bool {
    let s = o.tree@; let s2 = n.tree@;
    let x = s[c as int].left_node; let y = s[c as int].right_node;
    let ha = hh(s, s[a as int].left_node, x);
    let hb = hh(s, y, s[b as int].right_node);
    &&& rot_frame(o, n, a, b, c, c, x, a, y, b)
    &&& s2[a as int] == AvlNode { right_node: x, parent: Some(c), height: ha, ..s[a as int] }
    &&& s2[b as int] == AvlNode { left_node: y, parent: Some(c), height: hb, ..s[b as int] }
    &&& s2[c as int] == AvlNode { left_node: Some(a), right_node: Some(b), parent: s[a as int].parent, height: (1 + mx(ha as int, hb as int)) as i32, ..s[c as int] }
}
pub open spec fn lr_rot<T: Ord>(o: AvlTree<T>, n: AvlTree<T>, a: usize, b: usize, c: usize) -> bool {
    let s = o.tree@; let s2 = n.tree@;
    let x = s[c as int].left_node; let y = s[c as int].right_node;
    let ha = hh(s, y, s[a as int].right_node);
    let hb = hh(s, s[b as int].left_node, x);
    &&& rot_frame(o, n, a, b, c, c, x, b, y, a)
    &&& s2[a as int] == AvlNode { left_node: y, parent: Some(c), height: ha, ..s[a as int] }
    &&& s2[b as int] == AvlNode { right_node: x, parent: Some(c), height: hb, ..s[b as int] }
    &&& s2[c as int] == AvlNode { left_node: Some(b), right_node: Some(a), parent: s[a as int].parent, height: (1 + mx(hb as int, ha as int)) as i32, ..s[c as int] }
}

impl<T: Ord> AvlTree<T> {
//@fn l_rotate in impl<T: Ord> AvlTree<T>
//@spec
    requires
        rot_pre(*old(self), a, b, c),
        old(self).tree@[a as int].right_node == Some(b),
        old(self).tree@[b as int].right_node == Some(c),
    ensures l_rot(*old(self), *final(self), a, b, c),
//@end_of_body
        proof {
            let o = *old(self); let s = o.tree@; let s2 = self.tree@;
            assert(s2.len() == s.len());
            assert(self.root == (if s[a as int].parent is None { Some(b) } else { o.root }));
            assert(s2[a as int].data == s[a as int].data);
            assert(s2[b as int].data == s[b as int].data);
            assert(s2[c as int].data == s[c as int].data);
        }
//@end
//@fn r_rotate in impl<T: Ord> AvlTree<T>
//@spec
    requires
        rot_pre(*old(self), a, b, c),
        old(self).tree@[a as int].left_node == Some(b),
        old(self).tree@[b as int].left_node == Some(c),
    ensures r_rot(*old(self), *final(self), a, b, c),
//@end_of_body
        proof {
            let o = *old(self); let s = o.tree@; let s2 = self.tree@;
            assert(s2.len() == s.len());
            assert(self.root == (if s[a as int].parent is None { Some(b) } else { o.root }));
            assert(s2[a as int].data == s[a as int].data);
            assert(s2[b as int].data == s[b as int].data);
            assert(s2[c as int].data == s[c as int].data);
        }
//@end
//@fn rl_rotate in impl<T: Ord> AvlTree<T>
//@spec
    requires
        rot_pre(*old(self), a, b, c),
        old(self).tree@[a as int].right_node == Some(b),
        old(self).tree@[b as int].left_node == Some(c),
    ensures rl_rot(*old(self), *final(self), a, b, c),
//@end_of_body
        proof {
            let o = *old(self); let s = o.tree@; let s2 = self.tree@;
            assert(s2.len() == s.len());
            assert(self.root == (if s[a as int].parent is None { Some(c) } else { o.root }));
            assert(s2[a as int].data == s[a as int].data);
            assert(s2[b as int].data == s[b as int].data);
            assert(s2[c as int].data == s[c as int].data);
        }
//@end
//@fn lr_rotate in impl<T: Ord> AvlTree<T>
//@spec
    requires
        rot_pre(*old(self), a, b, c),
        old(self).tree@[a as int].left_node == Some(b),
        old(self).tree@[b as int].right_node == Some(c),
    ensures lr_rot(*old(self), *final(self), a, b, c),
//@end_of_body
        proof {
            let o = *old(self); let s = o.tree@; let s2 = self.tree@;
            assert(s2.len() == s.len());
            assert(self.root == (if s[a as int].parent is None { Some(c) } else { o.root }));
            assert(s2[a as int].data == s[a as int].data);
            assert(s2[b as int].data == s[b as int].data);
            assert(s2[c as int].data == s[c as int].data);
        }
//@end
//@fn perform_rotation in impl<T: Ord> AvlTree<T>
//@spec
    requires
        rot_pre(*old(self), a, b, c),
        !(ab is Leaf), !(bc is Leaf),
        (if ab is Left { old(self).tree@[a as int].left_node } else { old(self).tree@[a as int].right_node }) == Some(b),
        (if bc is Left { old(self).tree@[b as int].left_node } else { old(self).tree@[b as int].right_node }) == Some(c),
    ensures
        ab is Left && bc is Left ==> r_rot(*old(self), *final(self), a, b, c),
        ab is Left && bc is Right ==> lr_rot(*old(self), *final(self), a, b, c),
        ab is Right && bc is Left ==> rl_rot(*old(self), *final(self), a, b, c),
        ab is Right && bc is Right ==> l_rot(*old(self), *final(self), a, b, c),
//@end
}

// ------------------------------------------------------------------ rebalancing
pub open spec fn nd(i: usize, l: Tree, r: Tree) -> Tree { Tree::Node(i, Box::new(l), Box::new(r)) }

/// tree `t` hangs at `link` below `par` in the hole of `c`, which was made for a subtree of height `h`
pub open spec fn hung<T: Ord>(s: Seq<AvlNode<T>>, root: Option<usize>, c: Ctx, link: Option<usize>, par: Option<usize>, t: Tree, h: int) -> bool {
    &&& rep(s, link, par, t)
    &&& parts(s, root, c, link, par, t, h)
    &&& bal(t)
}
pub open spec fn parts<T: Ord>(s: Seq<AvlNode<T>>, root: Option<usize>, c: Ctx, link: Option<usize>, par: Option<usize>, t: Tree, h: int) -> bool {
    &&& crep(s, root, c, link, par)
    &&& cbal(s, c, h)
    &&& dis(t)
    &&& cdis(c)
    &&& forall|j: usize| !(inn(t, j) && cin(c, j))
    &&& s.len() <= usize::MAX
}
/// node `i` with subtrees `l` and `r` stands in the hole of `c`; its own height need not be right
pub open spec fn stand<T: Ord>(s: Seq<AvlNode<T>>, root: Option<usize>, c: Ctx, i: usize, l: Tree, r: Tree, h: int) -> bool {
    &&& i < s.len()
    &&& rep(s, s[i as int].left_node, Some(i), l)
    &&& rep(s, s[i as int].right_node, Some(i), r)
    &&& bal(l) && bal(r)
    &&& parts(s, root, c, Some(i), s[i as int].parent, nd(i, l, r), h)
}
pub proof fn inn_nd(i: usize, l: Tree, r: Tree)
    ensures forall|j: usize| #![trigger inn(nd(i, l, r), j)] inn(nd(i, l, r), j) == (j == i || inn(l, j) || inn(r, j)),
{}
pub proof fn nd_parts(i: usize, l: Tree, r: Tree)
    ensures
        dis(nd(i, l, r)) == (dis(l) && dis(r) && !inn(l, i) && !inn(r, i) && (forall|j: usize| !(inn(l, j) && inn(r, j)))),
        bal(nd(i, l, r)) == (bal(l) && bal(r) && -1 <= ht(l) - ht(r) <= 1),
        ht(nd(i, l, r)) == 1 + mx(ht(l), ht(r)),
        inord(nd(i, l, r)) == inord(l) + seq![i] + inord(r),
{}
pub proof fn stand_facts<T: Ord>(s: Seq<AvlNode<T>>, root: Option<usize>, c: Ctx, i: usize, l: Tree, r: Tree, h: int)
    requires stand(s, root, c, i, l, r, h),
    ensures
        link_lo(s, s[i as int].left_node), link_lo(s, s[i as int].right_node),
        s[i as int].left_node != Some(i), s[i as int].right_node != Some(i),
        s[i as int].left_node is Some ==> s[i as int].left_node != s[i as int].right_node && inn(l, s[i as int].left_node->Some_0),
        s[i as int].right_node is Some ==> inn(r, s[i as int].right_node->Some_0),
        hof(s, s[i as int].left_node) == ht(l), hof(s, s[i as int].right_node) == ht(r),
        0 <= ht(l) <= 200, 0 <= ht(r) <= 200,
        l is Leaf <==> s[i as int].left_node is None,
        r is Leaf <==> s[i as int].right_node is None,
        s[i as int].parent is Some <==> c.len() > 0,
        s[i as int].parent is Some ==> {
            let p = s[i as int].parent->Some_0;
            &&& p == c.last().i
            &&& p < s.len()
            &&& cin(c, p)
            &&& (if c.last().left { s[p as int].left_node == Some(i) } else { s[p as int].right_node == Some(i) && s[p as int].left_node != Some(i) })
            &&& p != i && !inn(l, p) && !inn(r, p)
        },
{
    let t = nd(i, l, r);
    inn_nd(i, l, r);
    rep_lt(s, s[i as int].left_node, Some(i), l);
    rep_lt(s, s[i as int].right_node, Some(i), r);
    ht_bound(l, s.len()); ht_bound(r, s.len());
    assert(inn(t, i));
    if c.len() > 0 {
        let p = c.last().i;
        assert(cin(c, p));
        assert(inn(t, p) == (p == i || inn(l, p) || inn(r, p)));
        if !c.last().left { rep_lt(s, s[p as int].left_node, Some(p), c.last().sib); assert(inn(c.last().sib, i) ==> cin(c, i)); }
    }
}
/// the height of the standing node may be changed
pub proof fn stand_height<T: Ord>(s: Seq<AvlNode<T>>, root: Option<usize>, c: Ctx, i: usize, l: Tree, r: Tree, h: int, k: i32)
    requires stand(s, root, c, i, l, r, h),
    ensures stand(s.update(i as int, AvlNode { height: k, ..s[i as int] }), root, c, i, l, r, h),
{
    let s2 = s.update(i as int, AvlNode { height: k, ..s[i as int] });
    inn_nd(i, l, r);
    assert(inn(nd(i, l, r), i));
    assert forall|j: usize| inn(l, j) implies j != i by {}
    assert forall|j: usize| inn(r, j) implies j != i by {}
    assert forall|j: usize| cin(c, j) implies j != i by {}
    rep_move(s, s2, s[i as int].left_node, Some(i), Some(i), l);
    rep_move(s, s2, s[i as int].right_node, Some(i), Some(i), r);
    stand_facts(s, root, c, i, l, r, h);
    crep_move(s, s2, root, root, c, Some(i), Some(i), s[i as int].parent, h);
}
/// a tree in the hole of a context makes the context's last node stand one step further up
pub proof fn step_up<T: Ord>(s: Seq<AvlNode<T>>, root: Option<usize>, c: Ctx, i: usize, t: Tree, h: int)
    requires
        c.len() > 0,
        hung(s, root, c, Some(i), Some(c.last().i), t, h),
    ensures
        ({
            let f = c.last();
            let l = if f.left { t } else { f.sib };
            let r = if f.left { f.sib } else { t };
            &&& stand(s, root, c.drop_last(), f.i, l, r, 1 + mx(h, ht(f.sib)))
            &&& chole(f, t) == nd(f.i, l, r)
            &&& pre(c.drop_last()) + inord(nd(f.i, l, r)) + post(c.drop_last()) == pre(c) + inord(t) + post(c)
            &&& forall|j: usize| #![trigger inn(nd(f.i, l, r), j)] #![trigger cin(c.drop_last(), j)] (inn(nd(f.i, l, r), j) || cin(c.drop_last(), j)) == (inn(t, j) || cin(c, j))
        }),
{
    let f = c.last();
    let d = c.drop_last();
    let l = if f.left { t } else { f.sib };
    let r = if f.left { f.sib } else { t };
    let u = nd(f.i, l, r);
    inn_nd(f.i, l, r);
    assert(cin(c, f.i));
    assert forall|j: usize| inn(f.sib, j) implies cin(c, j) by {}
    assert forall|j: usize| cin(d, j) implies cin(c, j) by {}
    assert forall|j: usize| !(inn(u, j) && cin(d, j)) by {
        if cin(d, j) { assert(cin(c, j)); }
    }
    assert(!inn(t, f.i));
    assert forall|j: usize| !(inn(t, j) && inn(f.sib, j)) by { if inn(f.sib, j) { assert(cin(c, j)); } }
    assert(dis(u));
    assert forall|j: usize| #![trigger inn(u, j)] #![trigger cin(d, j)] (inn(u, j) || cin(d, j)) == (inn(t, j) || cin(c, j)) by {}
    if f.left {
        assert(pre(c) == pre(d));
        assert(post(c) == (seq![f.i] + inord(f.sib)) + post(d));
        assert(inord(u) == inord(t) + seq![f.i] + inord(f.sib));
        assert(pre(d) + inord(u) + post(d) =~= pre(c) + inord(t) + post(c));
    } else {
        assert(post(c) == post(d));
        assert(pre(c) == pre(d) + (inord(f.sib) + seq![f.i]));
        assert(inord(u) == inord(f.sib) + seq![f.i] + inord(t));
        assert(pre(d) + inord(u) + post(d) =~= pre(c) + inord(t) + post(c));
    }
}
/// a subtree below the rotated nodes keeps its shape
pub proof fn rot_sub<T: Ord>(o: AvlTree<T>, n: AvlTree<T>, a: usize, b: usize, c: usize, top: usize, x: Option<usize>, px: usize, y: Option<usize>, py: usize, link: Option<usize>, p1: usize, t: Tree)
    requires
        rot_frame(o, n, a, b, c, top, x, px, y, py),
        rep(o.tree@, link, Some(p1), t),
        dis(t),
        !inn(t, a), !inn(t, b), !inn(t, c),
        o.tree@[a as int].parent is Some ==> !inn(t, o.tree@[a as int].parent->Some_0),
        x is Some && x != link ==> !inn(t, x->Some_0),
        y is Some && y != link ==> !inn(t, y->Some_0),
        x is Some ==> x != y,
    ensures
        rep(n.tree@, link, Some(if link is Some && link == x { px } else if link is Some && link == y { py } else { p1 }), t),
{
    let p2 = if link is Some && link == x { px } else if link is Some && link == y { py } else { p1 };
    rep_lt(o.tree@, link, Some(p1), t);
    assert forall|j: usize| inn(t, j) implies {
            &&& n.tree@[j as int].left_node == o.tree@[j as int].left_node
            &&& n.tree@[j as int].right_node == o.tree@[j as int].right_node
            &&& n.tree@[j as int].height == o.tree@[j as int].height
            &&& n.tree@[j as int].parent == (if link == Some(j) { Some(p2) } else { o.tree@[j as int].parent })
        } by {
        assert(link == Some(j) ==> o.tree@[j as int].parent == Some(p1));
    }
    rep_move(o.tree@, n.tree@, link, Some(p1), Some(p2), t);
}
pub proof fn rot_ctx<T: Ord>(o: AvlTree<T>, n: AvlTree<T>, a: usize, b: usize, c: usize, top: usize, x: Option<usize>, px: usize, y: Option<usize>, py: usize, k: Ctx, l: Tree, r: Tree, h: int)
    requires
        rot_frame(o, n, a, b, c, top, x, px, y, py),
        stand(o.tree@, o.root, k, a, l, r, h),
        inn(nd(a, l, r), b), inn(nd(a, l, r), c),
        x is Some ==> inn(nd(a, l, r), x->Some_0),
        y is Some ==> inn(nd(a, l, r), y->Some_0),
    ensures
        crep(n.tree@, n.root, k, Some(top), o.tree@[a as int].parent),
        cbal(n.tree@, k, h),
{
    stand_facts(o.tree@, o.root, k, a, l, r, h);
    crep_lt(o.tree@, o.root, k, Some(a), o.tree@[a as int].parent);
    assert(inn(nd(a, l, r), a));
    crep_move(o.tree@, n.tree@, o.root, n.root, k, Some(a), Some(top), o.tree@[a as int].parent, h);
}
/// what is below a node that stands in a hole: the nodes named by `b` (its child) and `c` (its grandchild)
pub open spec fn tall(l: Tree, r: Tree, ab_left: bool, bc_left: bool, b: usize, c: usize) -> bool {
    let big = if ab_left { l } else { r };
    let small = if ab_left { r } else { l };
    &&& ht(big) == ht(small) + 2
    &&& big is Node
    &&& big->Node_0 == b
    &&& ({
        let bl = *big->Node_1; let br = *big->Node_2;
        let hi = if bc_left { bl } else { br };
        let lo = if bc_left { br } else { bl };
        &&& hi is Node
        &&& hi->Node_0 == c
        &&& ht(hi) == ht(lo) + 1
    })
}
pub proof fn rot_pre_ok<T: Ord>(v: AvlTree<T>, k: Ctx, a: usize, l: Tree, r: Tree, h: int, abl: bool, bcl: bool, b: usize, c: usize)
    requires
        stand(v.tree@, v.root, k, a, l, r, h),
        tall(l, r, abl, bcl, b, c),
    ensures
        rot_pre(v, a, b, c),
        (if abl { v.tree@[a as int].left_node } else { v.tree@[a as int].right_node }) == Some(b),
        (if bcl { v.tree@[b as int].left_node } else { v.tree@[b as int].right_node }) == Some(c),
        inn(nd(a, l, r), b), inn(nd(a, l, r), c),
{
    let s = v.tree@;
    stand_facts(s, v.root, k, a, l, r, h);
    inn_nd(a, l, r);
    let big = if abl { l } else { r };
    let bl = *big->Node_1; let br = *big->Node_2;
    assert(big == nd(b, bl, br));
    inn_nd(b, bl, br);
    let hi = if bcl { bl } else { br };
    let cl = *hi->Node_1; let cr = *hi->Node_2;
    assert(hi == nd(c, cl, cr));
    inn_nd(c, cl, cr);
    assert(inn(big, b) && inn(hi, c) && inn(big, c));
    assert(rep(s, Some(b), Some(a), big));
    assert(rep(s, s[b as int].left_node, Some(b), bl));
    assert(rep(s, s[b as int].right_node, Some(b), br));
    assert(rep(s, Some(c), Some(b), hi));
    assert(rep(s, s[c as int].left_node, Some(c), cl));
    assert(rep(s, s[c as int].right_node, Some(c), cr));
    nd_parts(a, l, r); nd_parts(b, bl, br); nd_parts(c, cl, cr);
    rep_lt(s, s[b as int].left_node, Some(b), bl);
    rep_lt(s, s[b as int].right_node, Some(b), br);
    rep_lt(s, s[c as int].left_node, Some(c), cl);
    rep_lt(s, s[c as int].right_node, Some(c), cr);
    ht_bound(bl, s.len()); ht_bound(br, s.len()); ht_bound(cl, s.len()); ht_bound(cr, s.len());
    assert(inn(nd(a, l, r), a));
    assert forall|j: usize| inn(bl, j) implies inn(big, j) && j != a && j != b && inn(nd(a, l, r), j) by {}
    assert forall|j: usize| inn(br, j) implies inn(big, j) && j != a && j != b && inn(nd(a, l, r), j) by {}
    assert forall|j: usize| inn(cl, j) implies inn(hi, j) && inn(big, j) && j != a && j != b && j != c by {}
    assert forall|j: usize| inn(cr, j) implies inn(hi, j) && inn(big, j) && j != a && j != b && j != c by {}
    if s[a as int].parent is Some {
        let p = s[a as int].parent->Some_0;
        assert(!inn(nd(a, l, r), p));
        assert(!inn(big, p) && !inn(bl, p) && !inn(br, p) && !inn(cl, p) && !inn(cr, p));
    }
    assert(hof(s, s[b as int].left_node) == ht(bl));
    assert(hof(s, s[b as int].right_node) == ht(br));
    assert(hof(s, s[c as int].left_node) == ht(cl));
    assert(hof(s, s[c as int].right_node) == ht(cr));
}

pub open spec fn lrot_tree(a: usize, l: Tree, r: Tree) -> Tree { nd(r->Node_0, nd(a, l, *r->Node_1), *r->Node_2) }
pub open spec fn rrot_tree(a: usize, l: Tree, r: Tree) -> Tree { nd(l->Node_0, *l->Node_1, nd(a, *l->Node_2, r)) }
pub open spec fn rlrot_tree(a: usize, l: Tree, r: Tree) -> Tree {
    let m = *r->Node_1;
    nd(m->Node_0, nd(a, l, *m->Node_1), nd(r->Node_0, *m->Node_2, *r->Node_2))
}
pub open spec fn lrrot_tree(a: usize, l: Tree, r: Tree) -> Tree {
    let m = *l->Node_2;
    nd(m->Node_0, nd(l->Node_0, *l->Node_1, *m->Node_1), nd(a, *m->Node_2, r))
}

pub proof fn lrot_ok<T: Ord>(o: AvlTree<T>, n: AvlTree<T>, k: Ctx, a: usize, l: Tree, r: Tree, h: int, b: usize, c: usize)
    requires
        stand(o.tree@, o.root, k, a, l, r, h),
        tall(l, r, false, false, b, c),
        h == ht(r),
        l_rot(o, n, a, b, c),
    ensures
        ({
            let t2 = lrot_tree(a, l, r);
            &&& hung(n.tree@, n.root, k, Some(t2->Node_0), o.tree@[a as int].parent, t2, h)
            &&& ht(t2) == h
            &&& inord(t2) == inord(nd(a, l, r))
            &&& forall|j: usize| #![trigger inn(t2, j)] inn(t2, j) == inn(nd(a, l, r), j)
            &&& n.tree@[a as int].parent == Some(t2->Node_0)
        }),
{
    let s = o.tree@; let s2 = n.tree@;
    rot_pre_ok(o, k, a, l, r, h, false, false, b, c);
    stand_facts(s, o.root, k, a, l, r, h);
    let t = nd(a, l, r);
    inn_nd(a, l, r); nd_parts(a, l, r);
    let bl = *r->Node_1; let br = *r->Node_2;
    assert(r == nd(b, bl, br));
    inn_nd(b, bl, br); nd_parts(b, bl, br);
    let hi = br;
    let cl = *hi->Node_1; let cr = *hi->Node_2;
    assert(hi == nd(c, cl, cr));
    inn_nd(c, cl, cr); nd_parts(c, cl, cr);
    assert(rep(s, Some(b), Some(a), r));
    assert(rep(s, s[b as int].left_node, Some(b), bl));
    assert(rep(s, s[b as int].right_node, Some(b), br));
    assert(rep(s, Some(c), Some(b), hi));
    assert(rep(s, s[c as int].left_node, Some(c), cl));
    assert(rep(s, s[c as int].right_node, Some(c), cr));
    rep_lt(s, s[b as int].left_node, Some(b), bl);
    rep_lt(s, s[b as int].right_node, Some(b), br);
    rep_lt(s, s[c as int].left_node, Some(c), cl);
    rep_lt(s, s[c as int].right_node, Some(c), cr);
    ht_nonneg(cl); ht_nonneg(cr); ht_nonneg(bl); ht_nonneg(br);
    ht_bound(cl, s.len()); ht_bound(cr, s.len());
    let p = s[a as int].parent;
    assert(p is Some ==> !inn(t, p->Some_0));
    let x = s[b as int].left_node;
    let lo = bl;
    assert(x is Some ==> inn(lo, x->Some_0) && inn(r, x->Some_0) && inn(t, x->Some_0));
    rot_sub(o, n, a, b, c, b, x, a, None, a, s[a as int].left_node, a, l);
    rot_sub(o, n, a, b, c, b, x, a, None, a, x, b, lo);
    if x is None { assert(lo is Leaf); }
    assert(rep(s2, x, Some(a), lo));
    assert(rep(s2, s2[a as int].left_node, Some(a), l));
    assert(s2[a as int].height == 1 + mx(ht(l), ht(lo)));
    rot_sub(o, n, a, b, c, b, x, a, None, a, s[c as int].left_node, c, cl);
    rot_sub(o, n, a, b, c, b, x, a, None, a, s[c as int].right_node, c, cr);
    rot_ctx(o, n, a, b, c, b, x, a, None, a, k, l, r, h);
    let na = nd(a, l, lo);
    inn_nd(a, l, lo); nd_parts(a, l, lo);
    let t2 = nd(b, na, hi);
    inn_nd(b, na, hi); nd_parts(b, na, hi);
    assert(t2 == lrot_tree(a, l, r));
    assert(hof(s, s[c as int].left_node) == ht(cl) && hof(s, s[c as int].right_node) == ht(cr));
    assert(hof(s, x) == ht(lo));
    assert(rep(s2, Some(c), Some(b), hi));
    assert(rep(s2, Some(a), Some(b), na));
    assert(rep(s2, Some(b), p, t2));
    assert(inord(t2) =~= inord(t));
    assert forall|j: usize| #![trigger inn(t2, j)] inn(t2, j) == inn(t, j) by {}
    assert(bal(t2));
    assert(dis(t2));
}

pub proof fn rrot_ok<T: Ord>(o: AvlTree<T>, n: AvlTree<T>, k: Ctx, a: usize, l: Tree, r: Tree, h: int, b: usize, c: usize)
    requires
        stand(o.tree@, o.root, k, a, l, r, h),
        tall(l, r, true, true, b, c),
        h == ht(l),
        r_rot(o, n, a, b, c),
    ensures
        ({
            let t2 = rrot_tree(a, l, r);
            &&& hung(n.tree@, n.root, k, Some(t2->Node_0), o.tree@[a as int].parent, t2, h)
            &&& ht(t2) == h
            &&& inord(t2) == inord(nd(a, l, r))
            &&& forall|j: usize| #![trigger inn(t2, j)] inn(t2, j) == inn(nd(a, l, r), j)
            &&& n.tree@[a as int].parent == Some(t2->Node_0)
        }),
{
    let s = o.tree@; let s2 = n.tree@;
    rot_pre_ok(o, k, a, l, r, h, true, true, b, c);
    stand_facts(s, o.root, k, a, l, r, h);
    let t = nd(a, l, r);
    inn_nd(a, l, r); nd_parts(a, l, r);
    let bl = *l->Node_1; let br = *l->Node_2;
    assert(l == nd(b, bl, br));
    inn_nd(b, bl, br); nd_parts(b, bl, br);
    let hi = bl;
    let cl = *hi->Node_1; let cr = *hi->Node_2;
    assert(hi == nd(c, cl, cr));
    inn_nd(c, cl, cr); nd_parts(c, cl, cr);
    assert(rep(s, Some(b), Some(a), l));
    assert(rep(s, s[b as int].left_node, Some(b), bl));
    assert(rep(s, s[b as int].right_node, Some(b), br));
    assert(rep(s, Some(c), Some(b), hi));
    assert(rep(s, s[c as int].left_node, Some(c), cl));
    assert(rep(s, s[c as int].right_node, Some(c), cr));
    rep_lt(s, s[b as int].left_node, Some(b), bl);
    rep_lt(s, s[b as int].right_node, Some(b), br);
    rep_lt(s, s[c as int].left_node, Some(c), cl);
    rep_lt(s, s[c as int].right_node, Some(c), cr);
    ht_nonneg(cl); ht_nonneg(cr); ht_nonneg(bl); ht_nonneg(br);
    ht_bound(cl, s.len()); ht_bound(cr, s.len());
    let p = s[a as int].parent;
    assert(p is Some ==> !inn(t, p->Some_0));
    let x = s[b as int].right_node;
    let lo = br;
    assert(x is Some ==> inn(lo, x->Some_0) && inn(l, x->Some_0) && inn(t, x->Some_0));
    rot_sub(o, n, a, b, c, b, x, a, None, a, s[a as int].right_node, a, r);
    rot_sub(o, n, a, b, c, b, x, a, None, a, x, b, lo);
    if x is None { assert(lo is Leaf); }
    assert(rep(s2, x, Some(a), lo));
    assert(rep(s2, s2[a as int].right_node, Some(a), r));
    assert(s2[a as int].height == 1 + mx(ht(r), ht(lo)));
    rot_sub(o, n, a, b, c, b, x, a, None, a, s[c as int].left_node, c, cl);
    rot_sub(o, n, a, b, c, b, x, a, None, a, s[c as int].right_node, c, cr);
    rot_ctx(o, n, a, b, c, b, x, a, None, a, k, l, r, h);
    let na = nd(a, lo, r);
    inn_nd(a, lo, r); nd_parts(a, lo, r);
    let t2 = nd(b, hi, na);
    inn_nd(b, hi, na); nd_parts(b, hi, na);
    assert(t2 == rrot_tree(a, l, r));
    assert(hof(s, s[c as int].left_node) == ht(cl) && hof(s, s[c as int].right_node) == ht(cr));
    assert(hof(s, x) == ht(lo));
    assert(rep(s2, Some(c), Some(b), hi));
    assert(rep(s2, Some(a), Some(b), na));
    assert(rep(s2, Some(b), p, t2));
    assert(inord(t2) =~= inord(t));
    assert forall|j: usize| #![trigger inn(t2, j)] inn(t2, j) == inn(t, j) by {}
    assert(bal(t2));
    assert(dis(t2));
}

pub proof fn rlrot_ok<T: Ord>(o: AvlTree<T>, n: AvlTree<T>, k: Ctx, a: usize, l: Tree, r: Tree, h: int, b: usize, c: usize)
    requires
        stand(o.tree@, o.root, k, a, l, r, h),
        tall(l, r, false, true, b, c),
        h == ht(r),
        rl_rot(o, n, a, b, c),
    ensures
        ({
            let t2 = rlrot_tree(a, l, r);
            &&& hung(n.tree@, n.root, k, Some(t2->Node_0), o.tree@[a as int].parent, t2, h)
            &&& ht(t2) == h
            &&& inord(t2) == inord(nd(a, l, r))
            &&& forall|j: usize| #![trigger inn(t2, j)] inn(t2, j) == inn(nd(a, l, r), j)
            &&& n.tree@[a as int].parent == Some(t2->Node_0)
        }),
{
    let s = o.tree@; let s2 = n.tree@;
    rot_pre_ok(o, k, a, l, r, h, false, true, b, c);
    stand_facts(s, o.root, k, a, l, r, h);
    let t = nd(a, l, r);
    inn_nd(a, l, r); nd_parts(a, l, r);
    let bl = *r->Node_1; let br = *r->Node_2;
    assert(r == nd(b, bl, br));
    inn_nd(b, bl, br); nd_parts(b, bl, br);
    let hi = bl;
    let cl = *hi->Node_1; let cr = *hi->Node_2;
    assert(hi == nd(c, cl, cr));
    inn_nd(c, cl, cr); nd_parts(c, cl, cr);
    assert(rep(s, Some(b), Some(a), r));
    assert(rep(s, s[b as int].left_node, Some(b), bl));
    assert(rep(s, s[b as int].right_node, Some(b), br));
    assert(rep(s, Some(c), Some(b), hi));
    assert(rep(s, s[c as int].left_node, Some(c), cl));
    assert(rep(s, s[c as int].right_node, Some(c), cr));
    rep_lt(s, s[b as int].left_node, Some(b), bl);
    rep_lt(s, s[b as int].right_node, Some(b), br);
    rep_lt(s, s[c as int].left_node, Some(c), cl);
    rep_lt(s, s[c as int].right_node, Some(c), cr);
    ht_nonneg(cl); ht_nonneg(cr); ht_nonneg(bl); ht_nonneg(br);
    ht_bound(cl, s.len()); ht_bound(cr, s.len());
    let p = s[a as int].parent;
    assert(p is Some ==> !inn(t, p->Some_0));
    let x = s[c as int].left_node; let y = s[c as int].right_node;
    assert(x is Some ==> inn(cl, x->Some_0) && inn(hi, x->Some_0) && inn(r, x->Some_0) && inn(t, x->Some_0));
    assert(y is Some ==> inn(cr, y->Some_0) && inn(hi, y->Some_0) && inn(r, y->Some_0) && inn(t, y->Some_0));
    rot_sub(o, n, a, b, c, c, x, a, y, b, s[a as int].left_node, a, l);
    rot_sub(o, n, a, b, c, c, x, a, y, b, s[b as int].right_node, b, br);
    rot_sub(o, n, a, b, c, c, x, a, y, b, x, c, cl);
    rot_sub(o, n, a, b, c, c, x, a, y, b, y, c, cr);
    if x is None { assert(cl is Leaf); }
    if y is None { assert(cr is Leaf); }
    assert(rep(s2, x, Some(a), cl));
    assert(rep(s2, y, Some(b), cr));
    assert(rep(s2, s2[a as int].left_node, Some(a), l));
    assert(rep(s2, s2[b as int].right_node, Some(b), br));
    assert(s2[a as int].height == 1 + mx(ht(l), ht(cl)));
    assert(s2[b as int].height == 1 + mx(ht(br), ht(cr)));
    rot_ctx(o, n, a, b, c, c, x, a, y, b, k, l, r, h);
    let na = nd(a, l, cl);
    inn_nd(a, l, cl); nd_parts(a, l, cl);
    let nb = nd(b, cr, br);
    inn_nd(b, cr, br); nd_parts(b, cr, br);
    let t2 = nd(c, na, nb);
    inn_nd(c, na, nb); nd_parts(c, na, nb);
    assert(t2 == rlrot_tree(a, l, r));
    assert(hof(s, x) == ht(cl) && hof(s, y) == ht(cr) && hof(s, s[b as int].right_node) == ht(br));
    assert(rep(s2, Some(a), Some(c), na));
    assert(rep(s2, Some(b), Some(c), nb));
    assert(rep(s2, Some(c), p, t2));
    assert(inord(t2) =~= inord(t));
    assert forall|j: usize| #![trigger inn(t2, j)] inn(t2, j) == inn(t, j) by {}
    assert(bal(t2));
    assert(dis(t2));
}

pub proof fn lrrot_ok<T: Ord>(o: AvlTree<T>, n: AvlTree<T>, k: Ctx, a: usize, l: Tree, r: Tree, h: int, b: usize, c: usize)
    requires
        stand(o.tree@, o.root, k, a, l, r, h),
        tall(l, r, true, false, b, c),
        h == ht(l),
        lr_rot(o, n, a, b, c),
    ensures
        ({
            let t2 = lrrot_tree(a, l, r);
            &&& hung(n.tree@, n.root, k, Some(t2->Node_0), o.tree@[a as int].parent, t2, h)
            &&& ht(t2) == h
            &&& inord(t2) == inord(nd(a, l, r))
            &&& forall|j: usize| #![trigger inn(t2, j)] inn(t2, j) == inn(nd(a, l, r), j)
            &&& n.tree@[a as int].parent == Some(t2->Node_0)
        }),
{
    let s = o.tree@; let s2 = n.tree@;
    rot_pre_ok(o, k, a, l, r, h, true, false, b, c);
    stand_facts(s, o.root, k, a, l, r, h);
    let t = nd(a, l, r);
    inn_nd(a, l, r); nd_parts(a, l, r);
    let bl = *l->Node_1; let br = *l->Node_2;
    assert(l == nd(b, bl, br));
    inn_nd(b, bl, br); nd_parts(b, bl, br);
    let hi = br;
    let cl = *hi->Node_1; let cr = *hi->Node_2;
    assert(hi == nd(c, cl, cr));
    inn_nd(c, cl, cr); nd_parts(c, cl, cr);
    assert(rep(s, Some(b), Some(a), l));
    assert(rep(s, s[b as int].left_node, Some(b), bl));
    assert(rep(s, s[b as int].right_node, Some(b), br));
    assert(rep(s, Some(c), Some(b), hi));
    assert(rep(s, s[c as int].left_node, Some(c), cl));
    assert(rep(s, s[c as int].right_node, Some(c), cr));
    rep_lt(s, s[b as int].left_node, Some(b), bl);
    rep_lt(s, s[b as int].right_node, Some(b), br);
    rep_lt(s, s[c as int].left_node, Some(c), cl);
    rep_lt(s, s[c as int].right_node, Some(c), cr);
    ht_nonneg(cl); ht_nonneg(cr); ht_nonneg(bl); ht_nonneg(br);
    ht_bound(cl, s.len()); ht_bound(cr, s.len());
    let p = s[a as int].parent;
    assert(p is Some ==> !inn(t, p->Some_0));
    let x = s[c as int].left_node; let y = s[c as int].right_node;
    assert(x is Some ==> inn(cl, x->Some_0) && inn(hi, x->Some_0) && inn(l, x->Some_0) && inn(t, x->Some_0));
    assert(y is Some ==> inn(cr, y->Some_0) && inn(hi, y->Some_0) && inn(l, y->Some_0) && inn(t, y->Some_0));
    rot_sub(o, n, a, b, c, c, x, b, y, a, s[a as int].right_node, a, r);
    rot_sub(o, n, a, b, c, c, x, b, y, a, s[b as int].left_node, b, bl);
    rot_sub(o, n, a, b, c, c, x, b, y, a, x, c, cl);
    rot_sub(o, n, a, b, c, c, x, b, y, a, y, c, cr);
    if x is None { assert(cl is Leaf); }
    if y is None { assert(cr is Leaf); }
    assert(rep(s2, x, Some(b), cl));
    assert(rep(s2, y, Some(a), cr));
    assert(rep(s2, s2[a as int].right_node, Some(a), r));
    assert(rep(s2, s2[b as int].left_node, Some(b), bl));
    assert(s2[a as int].height == 1 + mx(ht(r), ht(cr)));
    assert(s2[b as int].height == 1 + mx(ht(bl), ht(cl)));
    rot_ctx(o, n, a, b, c, c, x, b, y, a, k, l, r, h);
    let na = nd(a, cr, r);
    inn_nd(a, cr, r); nd_parts(a, cr, r);
    let nb = nd(b, bl, cl);
    inn_nd(b, bl, cl); nd_parts(b, bl, cl);
    let t2 = nd(c, nb, na);
    inn_nd(c, nb, na); nd_parts(c, nb, na);
    assert(t2 == lrrot_tree(a, l, r));
    assert(hof(s, x) == ht(cl) && hof(s, y) == ht(cr) && hof(s, s[b as int].left_node) == ht(bl));
    assert(rep(s2, Some(a), Some(c), na));
    assert(rep(s2, Some(b), Some(c), nb));
    assert(rep(s2, Some(c), p, t2));
    assert(inord(t2) =~= inord(t));
    assert forall|j: usize| #![trigger inn(t2, j)] inn(t2, j) == inn(t, j) by {}
    assert(bal(t2));
    assert(dis(t2));
}

/// the state after a new leaf has been linked in: the tree without it was balanced and sorted around it
pub open spec fn fresh<T: Ord>(v: AvlTree<T>, leaf: usize, c: Ctx) -> bool {
    &&& stand(v.tree@, v.root, c, leaf, Tree::Leaf, Tree::Leaf, 0)
    &&& forall|j: usize| #![trigger cin(c, j)] (j == leaf || cin(c, j)) <==> j < v.tree@.len()
    &&& sorted(v.tree@, pre(c) + seq![leaf] + post(c))
}
pub open spec fn same_data<T: Ord>(s: Seq<AvlNode<T>>, s2: Seq<AvlNode<T>>) -> bool {
    &&& s2.len() == s.len()
    &&& forall|j: int| #![trigger s2[j]] 0 <= j < s.len() ==> s2[j].data == s[j].data
}
pub open spec fn inrange(q: Seq<usize>, n: nat) -> bool { forall|x: int| #![trigger q[x]] 0 <= x < q.len() ==> q[x] < n }
pub proof fn inord_in(t: Tree)
    ensures
        forall|x: int| #![trigger inord(t)[x]] 0 <= x < inord(t).len() ==> inn(t, inord(t)[x]),
    decreases t,
{
    match t {
        Tree::Leaf => {},
        Tree::Node(i, l, r) => {
            inord_in(*l); inord_in(*r);
            let n = inord(*l).len() as int;
            assert forall|x: int| 0 <= x < inord(t).len() implies inn(t, #[trigger] inord(t)[x]) by {
                if x < n { assert(inord(t)[x] == inord(*l)[x]); }
                else if x == n { assert(inord(t)[x] == i); }
                else { assert(inord(t)[x] == inord(*r)[x - n - 1]); }
            }
        },
    }
}
pub proof fn sorted_data<T: Ord>(s: Seq<AvlNode<T>>, s2: Seq<AvlNode<T>>, q: Seq<usize>)
    requires same_data(s, s2), sorted(s, q), inrange(q, s.len()),
    ensures sorted(s2, q),
{
    assert forall|x: int, y: int| #![trigger q[x], q[y]] 0 <= x < y < q.len() implies lt(*s2[q[x] as int].data, *s2[q[y] as int].data) by {
        assert(s2[q[x] as int].data == s[q[x] as int].data);
        assert(s2[q[y] as int].data == s[q[y] as int].data);
    }
}
pub open spec fn side(dir: AvlDirection, l: Tree, r: Tree) -> Tree { if dir is Left { l } else { r } }
pub open spec fn other(dir: AvlDirection, l: Tree, r: Tree) -> Tree { if dir is Left { r } else { l } }
/// where the walk up from the new leaf stands
pub open spec fn walk_inv<T: Ord>(v: AvlTree<T>, c: Ctx, idx: usize, dir: AvlDirection, prev: Option<(usize, AvlDirection)>, l: Tree, r: Tree, h: int, settled: bool) -> bool {
    &&& stand(v.tree@, v.root, c, idx, l, r, h)
    &&& settled ==> h == 1 + mx(ht(l), ht(r)) && -1 <= ht(l) - ht(r) <= 1
    &&& !settled ==> (
        if prev is None { l is Leaf && r is Leaf && h == 0 }
        else {
            let g = side(dir, l, r); let w = other(dir, l, r);
            let (b, pd) = prev->Some_0;
            &&& !(dir is Leaf)
            &&& g is Node && g->Node_0 == b
            &&& -1 <= ht(g) - 1 - ht(w) <= 1
            &&& h == 1 + mx(ht(g) - 1, ht(w))
            &&& ht(g) == 1 || (!(pd is Leaf) && ht(side(pd, *g->Node_1, *g->Node_2)) == ht(other(pd, *g->Node_1, *g->Node_2)) + 1)
        })
}
impl<T: Ord> AvlTree<T> {
//@fn rebalance in impl<T: Ord> AvlTree<T>
//@spec
    requires exists|c: Ctx| fresh(*old(self), leaf, c),
    ensures
        final(self).wf(),
        same_data(old(self).tree@, final(self).tree@),
//@sub vx_assert(self.tree.get(leaf).as_ref().filter(__1).is_some()) ==> vx_assert(self.tree[leaf].left_node.is_none() && self.tree[leaf].right_node.is_none())
//@sub !(__1..=__2).contains(&__3) ==> !((__1) <= __3 && __3 <= (__2))
//@start
        let ghost o = *old(self);
        let ghost mut c: Ctx = choose|c: Ctx| fresh(o, leaf, c);
        let ghost mut l: Tree = Tree::Leaf;
        let ghost mut r: Tree = Tree::Leaf;
        let ghost mut h: int = 0;
        let ghost mut settled: bool = false;
        let ghost q = pre(c) + seq![leaf] + post(c);
        proof {
            assert(inord(Tree::Leaf) == Seq::<usize>::empty());
            assert(inord(nd(leaf, Tree::Leaf, Tree::Leaf)) =~= seq![leaf]);
            inn_nd(leaf, Tree::Leaf, Tree::Leaf);
            stand_facts(self.tree@, self.root, c, leaf, l, r, h);
        }
//@loop 0 while
            invariant
                same_data(o.tree@, self.tree@),
                sorted(o.tree@, q),
                current_idx is Some ==> {
                    &&& walk_inv(*self, c, current_idx->Some_0.0, current_idx->Some_0.1, prev_idx, l, r, h, settled)
                    &&& pre(c) + inord(nd(current_idx->Some_0.0, l, r)) + post(c) == q
                    &&& forall|j: usize| #![trigger cin(c, j)] #![trigger inn(nd(current_idx->Some_0.0, l, r), j)] (inn(nd(current_idx->Some_0.0, l, r), j) || cin(c, j)) <==> j < self.tree@.len()
                },
                current_idx is None ==> self.wf(),
            ensures current_idx is None,
            decreases (if current_idx is Some { 1 + 2 * c.len() + (if settled { 0int } else { 1int }) } else { 0 }),
//@loopstart 0
            let ghost v0 = *self;
            proof { stand_facts(self.tree@, self.root, c, idx, l, r, h); }
//@after self.update_node_height(idx);
            proof {
                stand_height(v0.tree@, v0.root, c, idx, l, r, h, (1 + mx(ht(l), ht(r))) as i32);
                stand_facts(self.tree@, self.root, c, idx, l, r, h);
            }
            let ghost v1 = *self;
            let ghost mut rotated = false;
//@before let (node_b, prev_dir) = prev_idx.unwrap();
                proof {
                    let g = side(dir, l, r);
                    let (b, pd) = prev_idx->Some_0;
                    ht_nonneg(side(pd, *g->Node_1, *g->Node_2)); ht_nonneg(other(pd, *g->Node_1, *g->Node_2));
                    let k = side(pd, *g->Node_1, *g->Node_2);
                    assert(tall(l, r, dir is Left, pd is Left, b, k->Node_0));
                    rot_pre_ok(v1, c, idx, l, r, h, dir is Left, pd is Left, b, k->Node_0);
                }
//@after self.perform_rotation(idx, node_b, node_c, dir, prev_dir);
                proof {
                    let t2 = if dir is Left && prev_dir is Left { rrot_ok(v1, *self, c, idx, l, r, h, node_b, node_c); rrot_tree(idx, l, r) }
                        else if dir is Left { lrrot_ok(v1, *self, c, idx, l, r, h, node_b, node_c); lrrot_tree(idx, l, r) }
                        else if prev_dir is Left { rlrot_ok(v1, *self, c, idx, l, r, h, node_b, node_c); rlrot_tree(idx, l, r) }
                        else { lrot_ok(v1, *self, c, idx, l, r, h, node_b, node_c); lrot_tree(idx, l, r) };
                    rotated = true;
                    l = *t2->Node_1; r = *t2->Node_2;
                    settled = true;
                    nd_parts(t2->Node_0, l, r);
                    assert(t2 == nd(t2->Node_0, l, r));
                    assert(stand(self.tree@, self.root, c, t2->Node_0, l, r, h));
                }
//@before prev_idx = current_idx;
            proof {
                if !rotated {
                    nd_parts(idx, l, r);
                    assert(hung(self.tree@, self.root, c, Some(idx), self.tree@[idx as int].parent, nd(idx, l, r), h));
                }
            }
//@loopend 0
            proof {
                if !rotated {
                    let t = nd(idx, l, r);
                    if c.len() > 0 {
                        step_up(self.tree@, self.root, c, idx, t, h);
                        let f = c.last();
                        let grown = ht(t) == h + 1;
                        settled = !grown;
                        h = 1 + mx(h, ht(f.sib));
                        l = if f.left { t } else { f.sib };
                        r = if f.left { f.sib } else { t };
                        c = c.drop_last();
                    } else {
                        assert(pre(c) + inord(t) + post(c) =~= inord(t));
                        inord_in(t);
                        assert(inrange(inord(t), o.tree@.len()));
                        sorted_data(o.tree@, self.tree@, inord(t));
                        assert(self.shows(t));
                    }
                }
            }
//@end
}

// ------------------------------------------------------------------ insertion
pub proof fn inord_has(t: Tree, j: usize)
    requires inn(t, j),
    ensures exists|x: int| 0 <= x < inord(t).len() && inord(t)[x] == j,
    decreases t,
{
    match t {
        Tree::Leaf => {},
        Tree::Node(i, l, r) => {
            let n = inord(*l).len() as int;
            if j == i { assert(inord(t)[n] == j); }
            else if inn(*l, j) {
                inord_has(*l, j);
                let x = choose|x: int| 0 <= x < inord(*l).len() && inord(*l)[x] == j;
                assert(inord(t)[x] == j);
            } else {
                inord_has(*r, j);
                let x = choose|x: int| 0 <= x < inord(*r).len() && inord(*r)[x] == j;
                assert(inord(t)[x + n + 1] == j);
            }
        },
    }
}
pub open spec fn among(q: Seq<usize>, j: usize) -> bool { exists|x: int| 0 <= x < q.len() && #[trigger] q[x] == j }
pub proof fn among_cat(a: Seq<usize>, b: Seq<usize>, j: usize)
    ensures among(a + b, j) == (among(a, j) || among(b, j)),
{
    if among(a, j) { let x = choose|x: int| 0 <= x < a.len() && #[trigger] a[x] == j; assert((a + b)[x] == j); }
    if among(b, j) { let x = choose|x: int| 0 <= x < b.len() && #[trigger] b[x] == j; assert((a + b)[x + a.len()] == j); }
    if among(a + b, j) {
        let x = choose|x: int| 0 <= x < (a + b).len() && #[trigger] (a + b)[x] == j;
        if x < a.len() { assert(a[x] == j); } else { assert(b[x - a.len()] == j); }
    }
}
pub proof fn among_one(i: usize, j: usize)
    ensures among(seq![i], j) == (i == j),
{
    if i == j { assert(seq![i][0] == j); }
}
pub proof fn among_inord(t: Tree, j: usize)
    ensures among(inord(t), j) == inn(t, j),
{
    inord_in(t);
    if inn(t, j) { inord_has(t, j); }
}
pub proof fn among_around(c: Ctx, j: usize)
    ensures (among(pre(c), j) || among(post(c), j)) == cin(c, j),
    decreases c.len(),
{
    if c.len() > 0 {
        let f = c.last(); let d = c.drop_last();
        among_around(d, j);
        among_inord(f.sib, j); among_one(f.i, j);
        if f.left {
            among_cat(seq![f.i], inord(f.sib), j);
            among_cat(seq![f.i] + inord(f.sib), post(d), j);
        } else {
            among_cat(inord(f.sib), seq![f.i], j);
            among_cat(pre(d), inord(f.sib) + seq![f.i], j);
        }
    }
}
/// everything before the hole is smaller than `x`, everything after it larger
pub open spec fn fits<T: Ord>(s: Seq<AvlNode<T>>, c: Ctx, x: T) -> bool {
    &&& forall|k: int| #![trigger pre(c)[k]] 0 <= k < pre(c).len() ==> lt(*s[pre(c)[k] as int].data, x)
    &&& forall|k: int| #![trigger post(c)[k]] 0 <= k < post(c).len() ==> lt(x, *s[post(c)[k] as int].data)
}
pub open spec fn down(c: Ctx, i: usize, left: bool, l: Tree, r: Tree) -> Ctx { c.push(Frame { i, left, sib: if left { r } else { l } }) }

/// one step of the descent
pub proof fn step_down<T: Ord>(s: Seq<AvlNode<T>>, root: Option<usize>, c: Ctx, i: usize, l: Tree, r: Tree, left: bool, x: T)
    requires
        hung(s, root, c, Some(i), s[i as int].parent, nd(i, l, r), ht(nd(i, l, r))),
        sorted(s, pre(c) + inord(nd(i, l, r)) + post(c)),
        lawful::<T>(),
        fits(s, c, x),
        left ==> lt(x, *s[i as int].data),
        !left ==> lt(*s[i as int].data, x),
    ensures
        ({
            let d = down(c, i, left, l, r);
            let t = if left { l } else { r };
            let link = if left { s[i as int].left_node } else { s[i as int].right_node };
            &&& hung(s, root, d, link, Some(i), t, ht(t))
            &&& fits(s, d, x)
            &&& pre(d) + inord(t) + post(d) == pre(c) + inord(nd(i, l, r)) + post(c)
            &&& forall|j: usize| #![trigger inn(t, j)] #![trigger cin(d, j)] (inn(t, j) || cin(d, j)) == (inn(nd(i, l, r), j) || cin(c, j))
            &&& link is Some ==> s[link->Some_0 as int].parent == Some(i)
        }),
{
    let d = down(c, i, left, l, r);
    let t = if left { l } else { r };
    let sib = if left { r } else { l };
    let u = nd(i, l, r);
    let q = pre(c) + inord(u) + post(c);
    inn_nd(i, l, r); nd_parts(i, l, r);
    assert(d.last().i == i && d.last().sib == sib && d.drop_last() =~= c);
    assert(inn(u, i));
    assert forall|j: usize| inn(sib, j) implies inn(u, j) && !cin(c, j) by {}
    assert(cdis(d));
    assert forall|j: usize| !(inn(t, j) && cin(d, j)) by { if inn(t, j) { assert(inn(u, j)); } }
    assert(pre(d) + inord(t) + post(d) =~= q);
    assert forall|j: usize| #![trigger inn(t, j)] #![trigger cin(d, j)] (inn(t, j) || cin(d, j)) == (inn(u, j) || cin(c, j)) by {}
    let link = if left { s[i as int].left_node } else { s[i as int].right_node };
    assert(crep(s, root, d, link, Some(i)));
    assert(cbal(s, d, ht(t)));
    let n = pre(c).len() as int; let m = inord(l).len() as int;
    assert(q[n + m] == i);
    if left {
        assert forall|k: int| #![trigger post(d)[k]] 0 <= k < post(d).len() implies lt(x, *s[post(d)[k] as int].data) by {
            if k == 0 { assert(post(d)[k] == i); }
            else {
                assert(post(d)[k] == q[n + m + k]);
                assert(lt(*s[q[n + m] as int].data, *s[q[n + m + k] as int].data));
            }
        }
        assert(pre(d) == pre(c));
    } else {
        assert forall|k: int| #![trigger pre(d)[k]] 0 <= k < pre(d).len() implies lt(*s[pre(d)[k] as int].data, x) by {
            assert(pre(d)[k] == q[k]);
            if k < n + m { assert(lt(*s[q[k] as int].data, *s[q[n + m] as int].data)); }
        }
        assert(post(d) == post(c));
    }
    assert(fits(s, d, x));
    assert(rep(s, link, Some(i), t));
    assert(link is Some ==> t is Node && s[link->Some_0 as int].parent == Some(i));
    assert(hung(s, root, d, link, Some(i), t, ht(t)));
}
/// linking a new leaf into an empty hole
pub proof fn link_leaf<T: Ord>(s: Seq<AvlNode<T>>, v: AvlTree<T>, c: Ctx, p: usize, n: usize)
    requires
        c.len() > 0, c.last().i == p,
        hung(s, v.root, c, None, Some(p), Tree::Leaf, 0),
        s.len() == n, n < usize::MAX,
        v.tree@.len() == n + 1,
        sorted(s, pre(c) + post(c)),
        forall|j: usize| #![trigger cin(c, j)] cin(c, j) <==> j < n,
        fits(s, c, *v.tree@[n as int].data),
        v.tree@[n as int].left_node is None, v.tree@[n as int].right_node is None, v.tree@[n as int].parent == Some(p),
        forall|j: int| #![trigger v.tree@[j]] 0 <= j < n ==> v.tree@[j] == (if j != p { s[j] } else if c.last().left { AvlNode { left_node: Some(n), ..s[j] } } else { AvlNode { right_node: Some(n), ..s[j] } }),
    ensures
        fresh(v, n, c),
{
    let s2 = v.tree@;
    crep_move(s, s2, v.root, v.root, c, None, Some(n), Some(p), 0);
    nd_parts(n, Tree::Leaf, Tree::Leaf); inn_nd(n, Tree::Leaf, Tree::Leaf);
    assert(!cin(c, n));
    let q = pre(c) + seq![n] + post(c);
    let q0 = pre(c) + post(c);
    let m = pre(c).len() as int;
    assert forall|x: int| 0 <= x < q0.len() implies #[trigger] q0[x] < n by {
        among_around(c, q0[x]); among_cat(pre(c), post(c), q0[x]);
        assert(among(q0, q0[x]));
        assert(cin(c, q0[x]));
    }
    assert forall|x: int, y: int| #![trigger q[x], q[y]] 0 <= x < y < q.len() implies lt(*s2[q[x] as int].data, *s2[q[y] as int].data) by {
        let x0 = if x < m { x } else { x - 1 };
        let y0 = if y < m { y } else { y - 1 };
        if x != m { assert(q[x] == q0[x0]); }
        if y != m { assert(q[y] == q0[y0]); }
        if x == m { assert(q[y] == post(c)[y - m - 1]); }
        else if y == m { assert(q[x] == pre(c)[x]); }
        else { assert(lt(*s[q0[x0] as int].data, *s[q0[y0] as int].data)); }
    }
}
impl<T: Ord> AvlTree<T> {
//@fn insert in impl<T: Ord> AvlTree<T>
//@ret ret
//@spec
    requires old(self).wf(), lawful::<T>(), old(self).tree@.len() < usize::MAX,
    ensures
        final(self).wf(),
        !ret ==> final(self).tree@ == old(self).tree@ && final(self).root == old(self).root
            && exists|j: int| 0 <= j < old(self).tree@.len() && OrdSpec::cmp_spec(&data, &*(#[trigger] old(self).tree@[j]).data) == Ordering::Equal,
        ret ==> {
            &&& final(self).tree@.len() == old(self).tree@.len() + 1
            &&& forall|j: int| #![trigger final(self).tree@[j]] 0 <= j < old(self).tree@.len() ==> final(self).tree@[j].data == old(self).tree@[j].data
            &&& *final(self).tree@.last().data == data
            &&& forall|j: int| #![trigger old(self).tree@[j]] 0 <= j < old(self).tree@.len() ==> OrdSpec::cmp_spec(&data, &*old(self).tree@[j].data) != Ordering::Equal
        },
//@start
        let ghost o = *old(self);
        let ghost t0 = choose|t: Tree| o.shows(t);
        let ghost mut c: Ctx = Seq::empty();
        let ghost mut t: Tree = t0;
        proof {
            assert(pre(c) + inord(t) + post(c) =~= inord(t0));
            assert(forall|j: usize| !cin(c, j));
        }
//@after self.root = Some(next_free_index);
                proof {
                    assert(t0 is Leaf);
                    assert forall|j: int| #![trigger o.tree@[j]] 0 <= j < o.tree@.len() implies false by { assert(inn(t0, j as usize)); }
                    let t1 = nd(next_free_index, Tree::Leaf, Tree::Leaf);
                    nd_parts(next_free_index, Tree::Leaf, Tree::Leaf); inn_nd(next_free_index, Tree::Leaf, Tree::Leaf);
                    assert(inord(t1) =~= seq![next_free_index]);
                    assert(o.tree@.len() == 0) by { if o.tree@.len() > 0 { assert(inn(t0, 0usize)); } }
                    assert(self.tree@.len() == 1);
                    assert(ht(Tree::Leaf) == 0);
                    assert(ht(t1) == 1);
                    assert(rep(self.tree@, None, Some(next_free_index), Tree::Leaf));
                    assert(self.tree@[next_free_index as int].parent is None);
                    assert(rep(self.tree@, self.root, None, t1));
                    assert(sorted(self.tree@, inord(t1)));
                    assert(self.shows(t1));
                }
//@loop 0 loop
            invariant_except_break
                self.tree@ == o.tree@,
                current_node < o.tree@.len(),
                hung(o.tree@, o.root, c, Some(current_node), o.tree@[current_node as int].parent, t, ht(t)),
            invariant
                o == *old(self), o.wf(), o.shows(t0), lawful::<T>(), o.tree@.len() < usize::MAX,
                next_free_index == o.tree@.len(),
                pre(c) + inord(t) + post(c) == inord(t0),
                forall|j: usize| #![trigger inn(t, j)] #![trigger cin(c, j)] (inn(t, j) || cin(c, j)) <==> j < o.tree@.len(),
                fits(o.tree@, c, data),
                self.root == o.root,
            ensures
                self.root == o.root,
                t is Leaf,
                c.len() > 0,
                prev_node == Some(c.last().i),
                hung(o.tree@, o.root, c, None, prev_node, t, 0),
                self.tree@.len() == o.tree@.len(),
                forall|j: int| #![trigger self.tree@[j]] 0 <= j < o.tree@.len() ==> self.tree@[j] == (if j != c.last().i { o.tree@[j] } else if c.last().left { AvlNode { left_node: Some(next_free_index), ..o.tree@[j] } } else { AvlNode { right_node: Some(next_free_index), ..o.tree@[j] } }),
            decreases t,
//@after let cmp = Ord::cmp(&data, &node.data);
            let ghost i = current_node;
            proof {
                let l = *t->Node_1; let r = *t->Node_2;
                assert(t == nd(i, l, r));
                nd_parts(i, l, r); inn_nd(i, l, r);
                rep_lt(o.tree@, o.tree@[i as int].left_node, Some(i), l);
                rep_lt(o.tree@, o.tree@[i as int].right_node, Some(i), r);
                if !(cmp is Equal) {
                    step_down(o.tree@, o.root, c, i, l, r, cmp is Less, data);
                    c = down(c, i, cmp is Less, l, r);
                    t = if cmp is Less { l } else { r };
                }
            }
//@wrap return false
            proof {
                assert(self.tree@ =~= o.tree@);
                assert(self.root == o.root);
                assert(self.shows(t0));
                assert(self.wf());
                assert(OrdSpec::cmp_spec(&data, &*o.tree@[i as int].data) == Ordering::Equal);
            }
//@before self.rebalance(new_element_index);
        proof {
            assert(pre(c) + inord(t) + post(c) =~= pre(c) + post(c));
            link_leaf(o.tree@, *self, c, c.last().i, next_free_index);
            assert forall|j: int| #![trigger o.tree@[j]] 0 <= j < o.tree@.len() implies OrdSpec::cmp_spec(&data, &*o.tree@[j].data) != Ordering::Equal by {
                assert(cin(c, j as usize));
                among_around(c, j as usize);
                if among(pre(c), j as usize) {
                    let x = choose|x: int| 0 <= x < pre(c).len() && #[trigger] pre(c)[x] == j as usize;
                    assert(lt(*o.tree@[pre(c)[x] as int].data, data));
                } else {
                    let x = choose|x: int| 0 <= x < post(c).len() && #[trigger] post(c)[x] == j as usize;
                    assert(lt(data, *o.tree@[post(c)[x] as int].data));
                }
            }
        }
//@end
}

// ------------------------------------------------------------------ pre-order iteration
//@item struct AvlNodeRef
//@item struct AvlPreorderIter

/// what the subtrees on a stack (top last) still yield
pub open spec fn yet(ts: Seq<Tree>) -> Seq<usize>
    decreases ts.len(),
{
    if ts.len() == 0 { Seq::empty() } else { preord(ts.last()) + yet(ts.drop_last()) }
}
pub open spec fn stacked<T: Ord>(st: Seq<usize>, s: Seq<AvlNode<T>>, ts: Seq<Tree>) -> bool {
    &&& ts.len() == st.len()
    &&& forall|k: int| #![trigger ts[k]] 0 <= k < ts.len() ==> ts[k] is Node && rep(s, Some(st[k]), s[st[k] as int].parent, ts[k])
}
pub open spec fn will<T: Ord>(st: Seq<usize>, s: Seq<AvlNode<T>>, q: Seq<usize>) -> bool { exists|ts: Seq<Tree>| #[trigger] stacked(st, s, ts) && yet(ts) == q }
pub open spec fn alive<T: Ord>(st: Seq<usize>, s: Seq<AvlNode<T>>) -> bool { exists|ts: Seq<Tree>| #[trigger] stacked(st, s, ts) }
impl<'tree, T: Ord> AvlPreorderIter<'tree, T> {
//@fn next in Iterator for AvlPreorderIter<'tree, T>
//@attr pub
//@ret ret
//@sub Option<Self::Item> ==> Option<AvlNodeRef<'tree, T>>
//@spec
    requires alive(old(self).stack@, old(self).tree.tree@),
    ensures
        final(self).tree == old(self).tree,
        alive(final(self).stack@, final(self).tree.tree@),
        forall|q: Seq<usize>| #![trigger will(old(self).stack@, old(self).tree.tree@, q)] will(old(self).stack@, old(self).tree.tree@, q) ==> {
            &&& ret is None <==> q.len() == 0
            &&& ret is Some ==> ret->Some_0.node == q[0] && ret->Some_0.tree == old(self).tree && will(final(self).stack@, final(self).tree.tree@, q.drop_first())
            &&& ret is None ==> will(final(self).stack@, final(self).tree.tree@, q)
        },
//@start
        let ghost o = *old(self);
        proof {
            assert forall|ts: Seq<Tree>| #![trigger stacked(o.stack@, o.tree.tree@, ts)] stacked(o.stack@, o.tree.tree@, ts) implies yet(ts).len() > 0 <==> ts.len() > 0 by {
                if ts.len() > 0 { assert(ts.last() is Node) by { assert(ts[ts.len() - 1] is Node); } assert(preord(ts.last()).len() > 0); }
            }
            let ts = choose|ts: Seq<Tree>| stacked(o.stack@, o.tree.tree@, ts);
            assert(stacked(o.stack@, o.tree.tree@, ts));
            if ts.len() > 0 {
                let t = ts[ts.len() - 1];
                assert(t is Node);
                rep_lt(o.tree.tree@, Some(o.stack@.last()), o.tree.tree@[o.stack@.last() as int].parent, t);
            }
            assert forall|q: Seq<usize>| #![trigger will(o.stack@, o.tree.tree@, q)] will(o.stack@, o.tree.tree@, q) implies (q.len() == 0 <==> o.stack@.len() == 0) by {
                let ts = choose|ts: Seq<Tree>| stacked(o.stack@, o.tree.tree@, ts) && yet(ts) == q;
            }
            assert(will(o.stack@, o.tree.tree@, yet(ts)));
            assert(o.stack@.len() == 0 ==> o.stack@ =~= Seq::empty());
        }
//@before Some(AvlNodeRef { node: top, tree: self.tree, })
        proof {
            let s = o.tree.tree@;
            assert forall|q: Seq<usize>| #![trigger will(o.stack@, o.tree.tree@, q)] will(o.stack@, o.tree.tree@, q) implies q[0] == top && q.len() > 0 && will(self.stack@, self.tree.tree@, q.drop_first()) by {
                let ts = choose|ts: Seq<Tree>| stacked(o.stack@, o.tree.tree@, ts) && yet(ts) == q;
                let d = ts.drop_last();
                let t = ts[ts.len() - 1];
                assert(t is Node && t == ts.last());
                let l = *t->Node_1; let r = *t->Node_2;
                assert(rep(s, Some(top), s[top as int].parent, t));
                let d1 = if s[top as int].right_node is Some { d.push(r) } else { d };
                let d2 = if s[top as int].left_node is Some { d1.push(l) } else { d1 };
                assert(d.push(r).drop_last() =~= d);
                assert(d1.push(l).drop_last() =~= d1);
                assert(preord(t) == seq![top] + preord(l) + preord(r));
                rep_lt(s, s[top as int].right_node, Some(top), r); rep_lt(s, s[top as int].left_node, Some(top), l);
                if s[top as int].right_node is None { assert(r is Leaf); assert(preord(r) =~= Seq::empty()); }
                if s[top as int].left_node is None { assert(l is Leaf); assert(preord(l) =~= Seq::empty()); }
                assert(yet(d1) =~= preord(r) + yet(d));
                assert(yet(d2) =~= preord(l) + yet(d1));
                assert(q == preord(t) + yet(d));
                assert(q[0] == top);
                assert(yet(d2) =~= q.drop_first());
                assert forall|k: int| #![trigger d2[k]] 0 <= k < d2.len() implies d2[k] is Node && rep(s, Some(self.stack@[k]), s[self.stack@[k] as int].parent, d2[k]) by {
                    if k < d.len() { assert(d2[k] == ts[k]); assert(self.stack@[k] == o.stack@[k]); }
                    else {
                        if s[top as int].right_node is Some { let x = s[top as int].right_node->Some_0; assert(rep(s, Some(x), Some(top), r)); assert(s[x as int].parent == Some(top)); }
                        if s[top as int].left_node is Some { let x = s[top as int].left_node->Some_0; assert(rep(s, Some(x), Some(top), l)); assert(s[x as int].parent == Some(top)); }
                    }
                }
                assert(stacked(self.stack@, s, d2));
            }
            let ts = choose|ts: Seq<Tree>| stacked(o.stack@, s, ts);
            assert(will(o.stack@, s, yet(ts)));
            assert(will(self.stack@, self.tree.tree@, yet(ts).drop_first()));
        }
//@end
}
impl<'a, T: Ord> AvlNodeRef<'a, T> {
//@fn backing_index in impl<T: Ord> AvlNodeRef<'_, T>
//@ret r
//@spec
    ensures r == self.node,
//@end
//@fn deref in Deref for AvlNodeRef<'_, T>
//@attr pub
//@ret r
//@sub &Self::Target ==> &T
//@spec
    requires self.node < self.tree.tree@.len(),
    ensures *r == *self.tree.tree@[self.node as int].data,
//@end
}
impl<T: Ord> AvlTree<T> {
//@fn preorder_iter in impl<T: Ord> AvlTree<T>
//@ret r
//@spec
    requires self.wf(),
    ensures
        r.tree == self,
        alive(r.stack@, r.tree.tree@),
        forall|t: Tree| #![trigger self.shows(t)] self.shows(t) ==> will(r.stack@, self.tree@, preord(t)),
//@before AvlPreorderIter { stack, tree: self }
        proof {
            assert forall|t: Tree| #![trigger self.shows(t)] self.shows(t) implies will(stack@, self.tree@, preord(t)) by {
                let ts = if t is Leaf { Seq::empty() } else { seq![t] };
                if t is Node { assert(ts.drop_last() =~= Seq::empty()); assert(yet(ts.drop_last()) =~= Seq::empty()); }
                assert(yet(ts) =~= preord(t));
                assert(stacked(stack@, self.tree@, ts));
            }
            let t = choose|t: Tree| self.shows(t);
            assert(self.shows(t));
            assert(will(stack@, self.tree@, preord(t)));
        }
//@end
//@fn backing_vec in impl<T: Ord> AvlTree<T>
//@ret r
//@spec
    ensures r@ == self.tree@,
//@end
}
