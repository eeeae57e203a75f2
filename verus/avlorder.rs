//@deps avl
// Reordering the backing vector: afterwards node number k is the k-th node in pre-order.
use crate::avl::*;
use core::cmp::Ordering;
use alloc::{boxed::Box, vec::Vec};
//@file xdvdfs-core/src/write/avl.rs

pub assume_specification<T> [<[T]>::swap] (x: &mut [T], a: usize, b: usize)
    requires a < old(x)@.len(), b < old(x)@.len(),
    ensures final(x)@ == old(x)@.update(a as int, old(x)@[b as int]).update(b as int, old(x)@[a as int]);

pub open spec fn sw(a: usize, b: usize, j: usize) -> usize { if j == a { b } else if j == b { a } else { j } }
pub open spec fn swo(a: usize, b: usize, l: Option<usize>) -> Option<usize> { match l { None => None, Some(j) => Some(sw(a, b, j)) } }
pub open spec fn swn<T: Ord>(a: usize, b: usize, n: AvlNode<T>) -> AvlNode<T> {
    AvlNode { left_node: swo(a, b, n.left_node), right_node: swo(a, b, n.right_node), parent: swo(a, b, n.parent), ..n }
}
/// the links from and to node `j` are mutually consistent
pub open spec fn node_ok<T: Ord>(v: AvlTree<T>, j: usize) -> bool {
    let s = v.tree@;
    &&& match s[j as int].parent {
            Some(p) => p < s.len() && p != j && (s[p as int].left_node == Some(j) || s[p as int].right_node == Some(j)) && v.root != Some(j),
            None => v.root == Some(j),
        }
    &&& s[j as int].left_node is Some ==> {
            let x = s[j as int].left_node->Some_0;
            x < s.len() && s[x as int].parent == Some(j) && x != j
        }
    &&& s[j as int].right_node is Some ==> {
            let x = s[j as int].right_node->Some_0;
            x < s.len() && s[x as int].parent == Some(j) && x != j
        }
    &&& s[j as int].right_node is Some ==> s[j as int].right_node != s[j as int].left_node
}
pub open spec fn linked<T: Ord>(v: AvlTree<T>) -> bool {
    &&& v.tree@.len() <= usize::MAX
    &&& forall|j: usize| j < v.tree@.len() ==> #[trigger] node_ok(v, j)
}
/// node names `a` and `b` exchanged
pub open spec fn swapped<T: Ord>(o: AvlTree<T>, n: AvlTree<T>, a: usize, b: usize) -> bool {
    &&& n.tree@.len() == o.tree@.len()
    &&& n.root == swo(a, b, o.root)
    &&& forall|j: usize| #![trigger n.tree@[j as int]] j < o.tree@.len() ==> n.tree@[j as int] == swn(a, b, o.tree@[sw(a, b, j) as int])
}
/// after the links to `a` and `b` have been exchanged and the nodes swapped: everything but the parents is in place
pub open spec fn half<T: Ord>(s: Seq<AvlNode<T>>, m: Seq<AvlNode<T>>, a: usize, b: usize) -> bool {
    &&& m.len() == s.len()
    &&& forall|j: usize| #![trigger m[j as int]] j < s.len() ==> m[j as int] == (AvlNode { parent: s[sw(a, b, j) as int].parent, ..swn(a, b, s[sw(a, b, j) as int]) })
}
pub open spec fn root1<T: Ord>(o: AvlTree<T>, a: usize, b: usize) -> Option<usize> { swo(a, b, o.root) }

pub proof fn relink_first<T: Ord>(o: AvlTree<T>, v0: AvlTree<T>, v1: AvlTree<T>, a: usize, b: usize)
    requires
        linked(o), a != b, a < o.tree@.len(), b < o.tree@.len(),
        v0.tree@ == o.tree@, v0.root == swo(a, b, o.root),
        v0.relinked(a, Some(b), v1),
        forall|p: usize| #![trigger o.tree@[p as int]] p < o.tree@.len() ==> !(o.tree@[p as int].left_node == Some(a) && o.tree@[p as int].right_node == Some(b)),
    ensures
        v1.link_ok(b),
        v1.root == swo(a, b, o.root),
        v1.tree@.len() == o.tree@.len(),
        v1.tree@[b as int].parent == o.tree@[b as int].parent,
        forall|j: usize| #![trigger v1.tree@[j as int]] j < o.tree@.len() ==> {
            let n = o.tree@[j as int];
            v1.tree@[j as int] == (AvlNode {
                left_node: if n.left_node == Some(a) { Some(b) } else { n.left_node },
                right_node: if n.right_node == Some(a) { Some(b) } else { n.right_node },
                ..n })
        },
{
    let s = o.tree@;
    assert(node_ok(o, a)); assert(node_ok(o, b));
    if s[a as int].parent is Some { assert(node_ok(o, s[a as int].parent->Some_0)); }
    if s[b as int].parent is Some { assert(node_ok(o, s[b as int].parent->Some_0)); }
    assert forall|j: usize| #![trigger v1.tree@[j as int]] j < s.len() implies {
            let n = s[j as int];
            v1.tree@[j as int] == (AvlNode {
                left_node: if n.left_node == Some(a) { Some(b) } else { n.left_node },
                right_node: if n.right_node == Some(a) { Some(b) } else { n.right_node },
                ..n })
        } by {
        assert(node_ok(o, j));
    }
}
pub proof fn relink_second<T: Ord>(o: AvlTree<T>, v1: AvlTree<T>, v2: AvlTree<T>, m: Seq<AvlNode<T>>, a: usize, b: usize)
    requires
        linked(o), a != b, a < o.tree@.len(), b < o.tree@.len(),
        forall|p: usize| #![trigger o.tree@[p as int]] p < o.tree@.len() ==> !(o.tree@[p as int].left_node == Some(a) && o.tree@[p as int].right_node == Some(b)),
        v1.root == swo(a, b, o.root),
        v1.tree@.len() == o.tree@.len(),
        forall|j: usize| #![trigger v1.tree@[j as int]] j < o.tree@.len() ==> {
            let n = o.tree@[j as int];
            v1.tree@[j as int] == (AvlNode {
                left_node: if n.left_node == Some(a) { Some(b) } else { n.left_node },
                right_node: if n.right_node == Some(a) { Some(b) } else { n.right_node },
                ..n })
        },
        v1.relinked(b, Some(a), v2),
        m == v2.tree@.update(a as int, v2.tree@[b as int]).update(b as int, v2.tree@[a as int]),
    ensures
        v2.root == swo(a, b, o.root),
        half(o.tree@, m, a, b),
{
    let s = o.tree@;
    assert(node_ok(o, a)); assert(node_ok(o, b));
    if s[a as int].parent is Some { assert(node_ok(o, s[a as int].parent->Some_0)); }
    if s[b as int].parent is Some { assert(node_ok(o, s[b as int].parent->Some_0)); }
    assert forall|k: usize| #![trigger v2.tree@[k as int]] k < s.len() implies {
        let n = s[k as int];
        v2.tree@[k as int] == (AvlNode { left_node: swo(a, b, n.left_node), right_node: swo(a, b, n.right_node), ..n })
    } by {
        assert(node_ok(o, k));
    }
    assert forall|j: usize| #![trigger m[j as int]] j < s.len() implies m[j as int] == (AvlNode { parent: s[sw(a, b, j) as int].parent, ..swn(a, b, s[sw(a, b, j) as int]) }) by {
        let k = sw(a, b, j);
        assert(m[j as int] == v2.tree@[k as int]);
    }
}
pub open spec fn setpp<T: Ord>(s: Seq<AvlNode<T>>, link: Option<usize>, p: usize) -> Seq<AvlNode<T>> { setp(s, link, p) }

pub proof fn reparent<T: Ord>(o: AvlTree<T>, m: Seq<AvlNode<T>>, a: usize, b: usize)
    requires
        linked(o), a != b, a < o.tree@.len(), b < o.tree@.len(),
        half(o.tree@, m, a, b),
    ensures
        ({
            let al = m[a as int].left_node; let ar = m[a as int].right_node; let bl = m[b as int].left_node; let br = m[b as int].right_node;
            let s2 = setp(setp(setp(setp(m, al, a), ar, a), bl, b), br, b);
            &&& s2.len() == m.len()
            &&& forall|j: usize| #![trigger s2[j as int]] j < m.len() ==> s2[j as int] == swn(a, b, o.tree@[sw(a, b, j) as int])
            &&& al is Some ==> al->Some_0 < m.len()
            &&& ar is Some ==> ar->Some_0 < m.len()
            &&& bl is Some ==> bl->Some_0 < m.len()
            &&& br is Some ==> br->Some_0 < m.len()
        }),
{
    let s = o.tree@;
    let al = m[a as int].left_node; let ar = m[a as int].right_node; let bl = m[b as int].left_node; let br = m[b as int].right_node;
    let s2 = setp(setp(setp(setp(m, al, a), ar, a), bl, b), br, b);
    assert(node_ok(o, a)); assert(node_ok(o, b));
    assert forall|j: usize| #![trigger s2[j as int]] j < s.len() implies s2[j as int] == swn(a, b, s[sw(a, b, j) as int]) by {
        let k = sw(a, b, j);
        assert(node_ok(o, k));
        if s[k as int].parent is Some { assert(node_ok(o, s[k as int].parent->Some_0)); }
        assert(s2[j as int] == (AvlNode { parent: s2[j as int].parent, ..m[j as int] }));
        assert(s2[j as int].parent == swo(a, b, s[k as int].parent));
    }
}
impl<T: Ord> AvlTree<T> {
//@fn swap_backing_elements in impl<T: Ord> AvlTree<T>
//@spec
    requires
        linked(*old(self)),
        a < old(self).tree@.len(), b < old(self).tree@.len(),
        forall|p: usize| #![trigger old(self).tree@[p as int]] p < old(self).tree@.len() ==> !(old(self).tree@[p as int].left_node == Some(a) && old(self).tree@[p as int].right_node == Some(b)),
    ensures
        swapped(*old(self), *final(self), a, b),
//@start
        let ghost o = *old(self);
        let ghost s = o.tree@;
        proof {
            assert(node_ok(o, a)); assert(node_ok(o, b));
            if s[a as int].parent is Some { assert(node_ok(o, s[a as int].parent->Some_0)); }
            if s[b as int].parent is Some { assert(node_ok(o, s[b as int].parent->Some_0)); }
            if a == b {
                assert forall|j: usize| #![trigger s[j as int]] j < s.len() implies s[j as int] == swn(a, b, s[sw(a, b, j) as int]) by {}
            }
        }
//@before *self.parent_node_ref(a) = Some(b);
        let ghost v0 = *self;
//@after *self.parent_node_ref(a) = Some(b);
        let ghost v1 = *self;
        proof { relink_first(o, v0, v1, a, b); }
//@after *self.parent_node_ref(b) = Some(a);
        let ghost v2 = *self;
//@after self.tree.swap(a, b);
        let ghost m = self.tree@;
        proof {
            relink_second(o, v1, v2, m, a, b);
            reparent(o, m, a, b);
        }
//@end
}

// ------------------------------------------------------------------ renamed trees
pub open spec fn swt(t: Tree, a: usize, b: usize) -> Tree
    decreases t,
{
    match t { Tree::Leaf => Tree::Leaf, Tree::Node(i, l, r) => Tree::Node(sw(a, b, i), Box::new(swt(*l, a, b)), Box::new(swt(*r, a, b))) }
}
pub open spec fn sws(q: Seq<usize>, a: usize, b: usize) -> Seq<usize> { Seq::new(q.len(), |x: int| sw(a, b, q[x])) }
pub proof fn swt_shape(t: Tree, a: usize, b: usize)
    ensures
        ht(swt(t, a, b)) == ht(t),
        bal(t) ==> bal(swt(t, a, b)),
        preord(swt(t, a, b)) == sws(preord(t), a, b),
        inord(swt(t, a, b)) == sws(inord(t), a, b),
        forall|j: usize| #![trigger inn(swt(t, a, b), j)] inn(swt(t, a, b), j) == inn(t, sw(a, b, j)),
        dis(t) ==> dis(swt(t, a, b)),
    decreases t,
{
    match t {
        Tree::Leaf => {
            assert(preord(swt(t, a, b)) =~= sws(preord(t), a, b));
            assert(inord(swt(t, a, b)) =~= sws(inord(t), a, b));
        },
        Tree::Node(i, l, r) => {
            swt_shape(*l, a, b); swt_shape(*r, a, b);
            let u = swt(t, a, b);
            assert(preord(u) == seq![sw(a, b, i)] + preord(swt(*l, a, b)) + preord(swt(*r, a, b)));
            assert(preord(u) =~= sws(preord(t), a, b));
            assert(inord(u) == inord(swt(*l, a, b)) + seq![sw(a, b, i)] + inord(swt(*r, a, b)));
            assert(inord(u) =~= sws(inord(t), a, b));
            assert forall|j: usize| #![trigger inn(u, j)] inn(u, j) == inn(t, sw(a, b, j)) by {
                assert(inn(u, j) == (j == sw(a, b, i) || inn(swt(*l, a, b), j) || inn(swt(*r, a, b), j)));
            }
            if dis(t) {
                assert(forall|j: usize| !(inn(swt(*l, a, b), j) && inn(swt(*r, a, b), j)));
                assert(sw(a, b, sw(a, b, i)) == i);
            }
        },
    }
}
pub proof fn swt_rep<T: Ord>(s: Seq<AvlNode<T>>, s2: Seq<AvlNode<T>>, link: Option<usize>, par: Option<usize>, t: Tree, a: usize, b: usize)
    requires
        rep(s, link, par, t),
        s2.len() == s.len(), a < s.len(), b < s.len(),
        forall|j: usize| #![trigger s2[j as int]] j < s.len() ==> s2[j as int] == swn(a, b, s[sw(a, b, j) as int]),
    ensures
        rep(s2, swo(a, b, link), swo(a, b, par), swt(t, a, b)),
    decreases t,
{
    match t {
        Tree::Leaf => {},
        Tree::Node(i, l, r) => {
            swt_rep(s, s2, s[i as int].left_node, Some(i), *l, a, b);
            swt_rep(s, s2, s[i as int].right_node, Some(i), *r, a, b);
            swt_shape(t, a, b);
            let k = sw(a, b, i);
            assert(sw(a, b, k) == i);
            assert(s2[k as int] == swn(a, b, s[i as int]));
        },
    }
}
pub proof fn swap_shows<T: Ord>(o: AvlTree<T>, n: AvlTree<T>, t: Tree, a: usize, b: usize)
    requires o.shows(t), swapped(o, n, a, b), a < o.tree@.len(), b < o.tree@.len(), n.tree@.len() <= usize::MAX,
    ensures
        n.shows(swt(t, a, b)),
{
    let s = o.tree@; let s2 = n.tree@;
    let u = swt(t, a, b);
    swt_shape(t, a, b);
    swt_rep(s, s2, o.root, None, t, a, b);
    let q = inord(t); let q2 = inord(u);
    inord_in(t);
    assert forall|x: int, y: int| #![trigger q2[x], q2[y]] 0 <= x < y < q2.len() implies lt(*s2[q2[x] as int].data, *s2[q2[y] as int].data) by {
        assert(q2[x] == sw(a, b, q[x]) && q2[y] == sw(a, b, q[y]));
        assert(inn(t, q[x]) && inn(t, q[y]));
        assert(sw(a, b, q2[x]) == q[x] && sw(a, b, q2[y]) == q[y]);
        assert(lt(*s[q[x] as int].data, *s[q[y] as int].data));
        assert(s2[q2[x] as int].data == s[q[x] as int].data);
        assert(s2[q2[y] as int].data == s[q[y] as int].data);
    }
    assert forall|j: usize| inn(u, j) <==> j < s2.len() by {
        assert(inn(u, j) == inn(t, sw(a, b, j)));
    }
}
/// what the stored tree says about the links of node `j`
pub proof fn rep_node<T: Ord>(s: Seq<AvlNode<T>>, link: Option<usize>, par: Option<usize>, t: Tree, j: usize)
    requires rep(s, link, par, t), dis(t), inn(t, j), par is Some ==> !inn(t, par->Some_0),
    ensures
        j < s.len(),
        link == Some(j) ==> s[j as int].parent == par,
        link != Some(j) ==> s[j as int].parent is Some && {
            let p = s[j as int].parent->Some_0;
            inn(t, p) && p < s.len() && p != j && (s[p as int].left_node == Some(j) || s[p as int].right_node == Some(j))
        },
        s[j as int].left_node is Some ==> {
            let x = s[j as int].left_node->Some_0;
            x < s.len() && s[x as int].parent == Some(j) && x != j && inn(t, x)
        },
        s[j as int].right_node is Some ==> {
            let x = s[j as int].right_node->Some_0;
            x < s.len() && s[x as int].parent == Some(j) && x != j && inn(t, x) && s[j as int].left_node != Some(x)
        },
    decreases t,
{
    match t {
        Tree::Leaf => {},
        Tree::Node(i, l, r) => {
            rep_lt(s, s[i as int].left_node, Some(i), *l);
            rep_lt(s, s[i as int].right_node, Some(i), *r);
            assert(inn(t, i));
            assert forall|x: usize| inn(*l, x) implies inn(t, x) by {}
            assert forall|x: usize| inn(*r, x) implies inn(t, x) by {}
            if j == i {
                if s[i as int].right_node is Some {
                    let x = s[i as int].right_node->Some_0;
                    assert(inn(*r, x));
                    assert(!inn(*l, x));
                    assert(s[i as int].left_node != Some(x));
                    assert(rep(s, Some(x), Some(i), *r));
                    assert(s[x as int].parent == Some(i));
                    assert(x != i);
                    assert(inn(t, x));
                }
            } else if inn(*l, j) {
                rep_node(s, s[i as int].left_node, Some(i), *l, j);
            } else {
                rep_node(s, s[i as int].right_node, Some(i), *r, j);
            }
        },
    }
}
pub proof fn shows_linked<T: Ord>(v: AvlTree<T>, t: Tree)
    requires v.shows(t), v.tree@.len() <= usize::MAX,
    ensures linked(v),
{
    assert forall|j: usize| j < v.tree@.len() implies #[trigger] node_ok(v, j) by {
        rep_node(v.tree@, v.root, None, t, j);
        if v.root is Some { rep_lt(v.tree@, v.root, None, t); rep_node(v.tree@, v.root, None, t, v.root->Some_0); }
    }
}
pub proof fn among_preord(t: Tree, j: usize)
    ensures among(preord(t), j) == inn(t, j),
    decreases t,
{
    match t {
        Tree::Leaf => {},
        Tree::Node(i, l, r) => {
            among_preord(*l, j); among_preord(*r, j); among_one(i, j);
            among_cat(seq![i], preord(*l), j);
            among_cat(seq![i] + preord(*l), preord(*r), j);
        },
    }
}
pub open spec fn nodup(q: Seq<usize>) -> bool { forall|x: int, y: int| #![trigger q[x], q[y]] 0 <= x < y < q.len() ==> q[x] != q[y] }
pub proof fn preord_nodup(t: Tree)
    requires dis(t),
    ensures nodup(preord(t)), preord(t).len() == sz(t),
    decreases t,
{
    match t {
        Tree::Leaf => {},
        Tree::Node(i, l, r) => {
            preord_nodup(*l); preord_nodup(*r);
            let q = preord(t); let ql = preord(*l); let qr = preord(*r); let n = ql.len() as int;
            assert(q == seq![i] + ql + qr);
            assert forall|x: int, y: int| #![trigger q[x], q[y]] 0 <= x < y < q.len() implies q[x] != q[y] by {
                if y <= n { assert(q[y] == ql[y - 1]); assert(among(ql, q[y])); among_preord(*l, q[y]); }
                else { assert(q[y] == qr[y - n - 1]); assert(among(qr, q[y])); among_preord(*r, q[y]); }
                if x == 0 { assert(q[x] == i); }
                else if x <= n { assert(q[x] == ql[x - 1]); assert(among(ql, q[x])); among_preord(*l, q[x]); }
                else { assert(q[x] == qr[x - n - 1]); }
            }
        },
    }
}
pub proof fn shows_len<T: Ord>(v: AvlTree<T>, t: Tree)
    requires v.shows(t), v.tree@.len() <= usize::MAX,
    ensures preord(t).len() == v.tree@.len(), nodup(preord(t)), forall|x: int| #![trigger preord(t)[x]] 0 <= x < preord(t).len() ==> preord(t)[x] < v.tree@.len(),
{
    preord_nodup(t);
    ids_size(t);
    ids_in(t);
    vstd::set_lib::lemma_int_range(0, v.tree@.len() as int);
    assert forall|j: int| ids(t).contains(j) <==> vstd::set_lib::set_int_range(0, v.tree@.len() as int).contains(j) by {
        if 0 <= j < v.tree@.len() { assert(inn(t, j as usize)); }
    }
    assert(ids(t) =~= vstd::set_lib::set_int_range(0, v.tree@.len() as int));
    assert forall|x: int| #![trigger preord(t)[x]] 0 <= x < preord(t).len() implies preord(t)[x] < v.tree@.len() by {
        assert(among(preord(t), preord(t)[x])); among_preord(t, preord(t)[x]);
    }
}
pub proof fn ids_in(t: Tree)
    ensures forall|j: usize| #![trigger inn(t, j)] inn(t, j) ==> ids(t).contains(j as int),
    decreases t,
{
    match t { Tree::Leaf => {}, Tree::Node(i, l, r) => {
        ids_in(*l); ids_in(*r);
        assert forall|j: usize| #![trigger inn(t, j)] inn(t, j) implies ids(t).contains(j as int) by {
            if j == i {} else if inn(*l, j) { assert(ids(*l).contains(j as int)); } else { assert(inn(*r, j)); assert(ids(*r).contains(j as int)); }
        }
    } }
}
/// of two siblings the left one comes first
pub proof fn sib_order<T: Ord>(s: Seq<AvlNode<T>>, link: Option<usize>, par: Option<usize>, t: Tree, p: usize, x: usize, y: usize)
    requires rep(s, link, par, t), inn(t, p), s[p as int].left_node == Some(x), s[p as int].right_node == Some(y),
    ensures exists|i: int, k: int| 0 <= i < k < preord(t).len() && #[trigger] preord(t)[i] == x && #[trigger] preord(t)[k] == y,
    decreases t,
{
    match t {
        Tree::Leaf => {},
        Tree::Node(c, l, r) => {
            let q = preord(t); let ql = preord(*l); let qr = preord(*r); let n = ql.len() as int;
            assert(q == seq![c] + ql + qr);
            if p == c {
                assert(rep(s, Some(x), Some(c), *l) && rep(s, Some(y), Some(c), *r));
                assert(ql[0] == x && qr[0] == y);
                assert(q[1] == x && q[n + 1] == y);
            } else if inn(*l, p) {
                sib_order(s, s[c as int].left_node, Some(c), *l, p, x, y);
                let (i, k) = choose|i: int, k: int| 0 <= i < k < ql.len() && #[trigger] ql[i] == x && #[trigger] ql[k] == y;
                assert(q[i + 1] == x && q[k + 1] == y);
            } else {
                sib_order(s, s[c as int].right_node, Some(c), *r, p, x, y);
                let (i, k) = choose|i: int, k: int| 0 <= i < k < qr.len() && #[trigger] qr[i] == x && #[trigger] qr[k] == y;
                assert(q[i + n + 1] == x && q[k + n + 1] == y);
            }
        },
    }
}

/// stand-in for `.map(|node| node.backing_index()).collect()`: drives the real iterator
pub fn vx_collect<'a, T: Ord>(it: AvlPreorderIter<'a, T>, Ghost(q): Ghost<Seq<usize>>) -> (r: Vec<usize>)
    requires will(it.stack@, it.tree.tree@, q), alive(it.stack@, it.tree.tree@),
    ensures r@ == q,
{
    let mut it = it;
    let mut v: Vec<usize> = Vec::new();
    let ghost mut rest = q;
    let ghost s = it.tree.tree@;
    proof { assert(v@ + rest =~= q); }
    loop
        invariant
            it.tree.tree@ == s,
            will(it.stack@, s, rest), alive(it.stack@, s),
            v@ + rest == q,
        decreases rest.len(),
    {
        match it.next() {
            Some(node) => {
                let i = node.backing_index();
                proof { assert(v@.push(i) + rest.drop_first() =~= v@ + rest); }
                v.push(i);
                proof { rest = rest.drop_first(); }
            }
            None => {
                proof { assert(v@ =~= q); }
                return v;
            }
        }
    }
}
/// stand-in for `(0..n).collect()`
pub fn vx_upto(n: usize) -> (r: Vec<usize>)
    ensures r@.len() == n, forall|j: int| 0 <= j < n ==> r@[j] == j,
{
    let mut v: Vec<usize> = Vec::new();
    let mut i = 0usize;
    while i < n
        invariant i <= n, v@.len() == i, forall|j: int| 0 <= j < i ==> v@[j] == j,
        decreases n - i,
    { v.push(i); i += 1; }
    v
}
/// `m` maps the old position of every element to its new one
pub open spec fn permuted<T: Ord>(s: Seq<AvlNode<T>>, s2: Seq<AvlNode<T>>, m: Seq<usize>) -> bool {
    &&& s2.len() == s.len() && m.len() == s.len()
    &&& nodup(m)
    &&& forall|j: int| #![trigger m[j]] 0 <= j < s.len() ==> m[j] < s.len() && s2[m[j] as int].data == s[j].data
}
pub open spec fn in_preorder<T: Ord>(v: AvlTree<T>, t: Tree) -> bool {
    &&& v.shows(t)
    &&& preord(t).len() == v.tree@.len()
    &&& forall|x: int| #![trigger preord(t)[x]] 0 <= x < v.tree@.len() ==> preord(t)[x] == x
}
/// the elements of `s2` are those of `s` in the order `q`
pub open spec fn same_order<T: Ord>(s: Seq<AvlNode<T>>, s2: Seq<AvlNode<T>>, q: Seq<usize>) -> bool {
    &&& s2.len() == s.len() && q.len() == s.len()
    &&& forall|x: int| #![trigger q[x]] #![trigger s2[x]] 0 <= x < s.len() ==> q[x] < s.len() && s2[x].data == s[q[x] as int].data
}
impl<T: Ord> AvlTree<T> {
//@fn reorder_backing_preorder in impl<T: Ord> AvlTree<T>
//@spec
    requires old(self).wf(), old(self).tree@.len() < usize::MAX,
    ensures
        exists|t: Tree| in_preorder(*final(self), t),
        exists|m: Seq<usize>| permuted(old(self).tree@, final(self).tree@, m),
        exists|t: Tree| #[trigger] old(self).shows(t) && same_order(old(self).tree@, final(self).tree@, preord(t)),
//@sub self.preorder_iter().map(|node| node.backing_index()).collect() ==> vx_collect(self.preorder_iter(), Ghost(q0))
//@sub (0..preorder.len()).collect() ==> vx_upto(preorder.len())
//@sub for (__1, __2) in __3.iter().enumerate() { ==> for __1 in 0..__3.len() { let __2 = &__3[__1];
//@start
        let ghost o = *old(self);
        let ghost n = o.tree@.len();
        let ghost t0 = choose|t: Tree| o.shows(t);
        let ghost q0 = preord(t0);
        let ghost mut t = t0;
        proof { shows_len(o, t0); }
//@loop 0 for
            invariant
                n == o.tree@.len(), n < usize::MAX,
                self.shows(t), self.tree@.len() == n,
                q0.len() == n, preord(t).len() == n, preorder@ == q0,
                nodup(q0), forall|x: int| #![trigger q0[x]] 0 <= x < n ==> q0[x] < n,
                mapping@.len() == n, inv_mapping@.len() == n,
                forall|j: int| #![trigger mapping@[j]] 0 <= j < n ==> mapping@[j] < n && inv_mapping@[mapping@[j] as int] == j,
                forall|p: int| #![trigger inv_mapping@[p]] 0 <= p < n ==> inv_mapping@[p] < n && mapping@[inv_mapping@[p] as int] == p,
                forall|x: int| #![trigger preord(t)[x]] 0 <= x < n ==> preord(t)[x] == mapping@[q0[x] as int],
                forall|x: int| #![trigger preord(t)[x]] 0 <= x < preorder_idx ==> preord(t)[x] == x,
                forall|j: int| #![trigger mapping@[j]] 0 <= j < n ==> self.tree@[mapping@[j] as int].data == o.tree@[j].data,
//@loopstart 0
            let ghost v0 = *self; let ghost m0 = mapping@; let ghost i0 = inv_mapping@; let ghost ta = t;
            let ghost k = preorder_idx;
            proof {
                shows_linked(*self, t);
                shows_len(*self, t);
                let d = m0[q0[k as int] as int];
                assert(preord(t)[k as int] == d);
                assert forall|p: usize| #![trigger self.tree@[p as int]] p < self.tree@.len() implies !(self.tree@[p as int].left_node == Some(k) && self.tree@[p as int].right_node == Some(d)) by {
                    if self.tree@[p as int].left_node == Some(k) && self.tree@[p as int].right_node == Some(d) {
                        assert(inn(t, p));
                        sib_order(self.tree@, self.root, None, t, p, k, d);
                        let (x, y) = choose|x: int, y: int| 0 <= x < y < preord(t).len() && #[trigger] preord(t)[x] == k && #[trigger] preord(t)[y] == d;
                        if y != k { if y < k { assert(preord(t)[y] != preord(t)[k as int]); } else { assert(preord(t)[k as int] != preord(t)[y]); } }
                        assert(x < k);
                        assert(preord(t)[x] == x);
                    }
                }
            }
//@loopend 0
            proof {
                let d = m0[q0[k as int] as int];
                swap_shows(v0, *self, ta, k, d);
                swt_shape(ta, k, d);
                t = swt(ta, k, d);
                assert forall|j: int| #![trigger mapping@[j]] 0 <= j < n implies mapping@[j] == sw(k, d, m0[j]) by {
                    assert(i0[m0[j] as int] == j);
                    assert(m0[i0[k as int] as int] == k);
                }
                assert forall|p: int| #![trigger inv_mapping@[p]] 0 <= p < n implies inv_mapping@[p] == i0[sw(k, d, p as usize) as int] by {
                    assert(i0[d as int] == q0[k as int]);
                }
                assert forall|j: int| #![trigger mapping@[j]] 0 <= j < n implies mapping@[j] < n && inv_mapping@[mapping@[j] as int] == j && self.tree@[mapping@[j] as int].data == o.tree@[j].data by {
                    assert(m0[j] < n);
                    assert(sw(k, d, sw(k, d, m0[j])) == m0[j]);
                    assert(i0[m0[j] as int] == j);
                    assert(self.tree@[mapping@[j] as int] == swn(k, d, v0.tree@[m0[j] as int]));
                }
                assert forall|p: int| #![trigger inv_mapping@[p]] 0 <= p < n implies inv_mapping@[p] < n && mapping@[inv_mapping@[p] as int] == p by {
                    let p2 = sw(k, d, p as usize);
                    assert(inv_mapping@[p] == i0[p2 as int]);
                    assert(m0[i0[p2 as int] as int] == p2);
                    assert(mapping@[i0[p2 as int] as int] == sw(k, d, p2));
                }
                assert forall|x: int| #![trigger preord(t)[x]] 0 <= x < n implies preord(t)[x] == mapping@[q0[x] as int] by {
                    assert(preord(t)[x] == sw(k, d, preord(ta)[x]));
                    assert(preord(ta)[x] == m0[q0[x] as int]);
                    assert(mapping@[q0[x] as int] == sw(k, d, m0[q0[x] as int]));
                }
                assert forall|x: int| #![trigger preord(t)[x]] 0 <= x < k + 1 implies preord(t)[x] == x by {
                    assert(preord(t)[x] == sw(k, d, preord(ta)[x]));
                    if x < k { assert(preord(ta)[x] == x); assert(preord(ta)[x] != preord(ta)[k as int]); }
                }
            }
//@end_of_body
        proof {
            assert(in_preorder(*self, t));
            assert forall|x: int, y: int| #![trigger mapping@[x], mapping@[y]] 0 <= x < y < n implies mapping@[x] != mapping@[y] by {
                assert(inv_mapping@[mapping@[x] as int] == x);
                assert(inv_mapping@[mapping@[y] as int] == y);
            }
            assert(permuted(o.tree@, self.tree@, mapping@));
            assert forall|x: int| #![trigger q0[x]] #![trigger self.tree@[x]] 0 <= x < n implies q0[x] < n && self.tree@[x].data == o.tree@[q0[x] as int].data by {
                assert(preord(t)[x] == mapping@[q0[x] as int]);
                assert(preord(t)[x] == x);
            }
            assert(same_order(o.tree@, self.tree@, q0));
            assert(o.shows(t0));
        }
//@end
}
