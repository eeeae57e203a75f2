//@deps strings
// The ordered map of the standard library, keyed by paths: assumed contract.
use crate::strings::*;
/// the components of a path
pub type Path = Seq<Seq<char>>;
/// the derived order of two vectors of strings
pub open spec fn path_lt(a: Path, b: Path) -> bool
    decreases b.len(),
{
    if b.len() == 0 { false }
    else if a.len() == 0 { true }
    else { str_lt(a[0], b[0]) || (a[0] == b[0] && path_lt(a.drop_first(), b.drop_first())) }
}
/// no path comes before one it continues
pub proof fn prefix_first(a: Path, b: Path)
    requires a.len() <= b.len(), b.take(a.len() as int) == a,
    ensures !path_lt(b, a),
    decreases a.len(),
{
    if a.len() > 0 {
        assert(b.take(a.len() as int)[0] == b[0]);
        str_lt_irreflexive(a[0]);
        assert(b.drop_first().take(a.len() - 1) =~= a.drop_first()) by {
            assert forall|i: int| 0 <= i < a.len() - 1 implies b.drop_first()[i] == a.drop_first()[i] by { assert(b.take(a.len() as int)[i + 1] == a[i + 1]); }
        }
        prefix_first(a.drop_first(), b.drop_first());
    }
}
/// keys that are paths
pub trait PathKey {
    spec fn p(&self) -> Path;
}
impl<'a, K: PathKey> PathKey for &'a K {
    open spec fn p(&self) -> Path { (**self).p() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { m: alloc::collections::BTreeMap<K, V> }
impl<K: PathKey, V> BTreeMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<Path, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<Path, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.p(), v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: PathKey>(&self, k: &Q) -> (r: Option<&V>)
        ensures r == (if self@.contains_key(k.p()) { Some(&self@[k.p()]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn first_key_value(&self) -> (r: Option<(&K, &V)>)
        ensures
            r is None <==> self@.dom() =~= Set::empty(),
            r is Some ==> self@.contains_key(r->Some_0.0.p()) && self@[r->Some_0.0.p()] == *r->Some_0.1,
            r is Some ==> forall|q: Path| #[trigger] self@.contains_key(q) && q != r->Some_0.0.p() ==> path_lt(r->Some_0.0.p(), q),
    { unimplemented!() }
    /// stands for `into_iter`: the entries in ascending order of their keys
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: VxEntries<K, V>)
        ensures r.pos() == 0, in_key_order(r.all(), self@),
    { unimplemented!() }
}
pub open spec fn in_key_order<K: PathKey, V>(s: Seq<(K, V)>, m: Map<Path, V>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].0.p()) && m[s[i].0.p()] == s[i].1
    &&& forall|q: Path| #[trigger] m.contains_key(q) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.p() == q
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> path_lt(s[i].0.p(), s[j].0.p()) && s[i].0.p() != s[j].0.p()
}
/// stands for `btree_map::IntoIter`
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxEntries<K, V> { v: Vec<(K, V)> }
impl<K: PathKey, V> VxEntries<K, V> {
    pub uninterp spec fn all(&self) -> Seq<(K, V)>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(K, V)>)
        ensures
            final(self).all() == old(self).all(),
            r is Some <==> old(self).pos() < old(self).all().len(),
            r is None ==> final(self).pos() == old(self).pos(),
            r is Some ==> r->Some_0 == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
    { unimplemented!() }
}
