// ---- model of HashMap and HashSet (assumed contracts; Eq and Hash of the key types agree with equality) -------------
pub mod xmaps {
use super::*;
pub trait XKey<K> { spec fn key_s(&self) -> K; }
impl<K> XKey<K> for K { open spec fn key_s(&self) -> K { *self } }
impl<'x, K> XKey<&'x K> for K { open spec fn key_s(&self) -> &'x K { self } }
impl<'x, K> XKey<K> for &'x K { open spec fn key_s(&self) -> K { **self } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct XMap<K, V> { k: Vec<K>, v: Vec<V> }
/// the order in which a map or set is iterated: unspecified, but each entry once
pub uninterp spec fn map_seq<K, V>(m: XMap<K, V>) -> Seq<K>;
pub broadcast axiom fn axiom_map_seq<K, V>(m: XMap<K, V>) ensures (#[trigger] map_seq(m)).no_duplicates(), forall|k: K| map_seq(m).contains(k) <==> #[trigger] m@.dom().contains(k), map_seq(m).len() == m@.dom().len();
impl<K, V> XMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn new() -> (r: XMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn x_get<Q: XKey<K> + ?Sized>(&self, q: &Q) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(q.key_s()) { Some(&self@[q.key_s()]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn x_get_mut<'a, Q: XKey<K> + ?Sized>(&'a mut self, q: &Q) -> (r: Option<&'a mut V>)
        ensures r is Some == old(self)@.dom().contains(q.key_s()), r is Some ==> *(r->0) == old(self)@[q.key_s()] && final(self)@ == old(self)@.insert(q.key_s(), *final(r->0)), r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn x_entry_or_default<'a>(&'a mut self, k: K) -> (r: &'a mut V) where V: XDefault
        ensures *r == (if old(self)@.dom().contains(k) { old(self)@[k] } else { V::default_s() }), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn x_contains_key<Q: XKey<K> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self@.dom().contains(q.key_s()) { unimplemented!() }
    #[verifier::external_body] pub fn x_insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn x_remove<Q: XKey<K> + ?Sized>(&mut self, q: &Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(q.key_s()), r == (if old(self)@.dom().contains(q.key_s()) { Some(old(self)@[q.key_s()]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), self@.dom().finite(), r < usize::MAX { unimplemented!() }
    #[verifier::external_body] pub fn x_is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0), self@.dom().finite() { unimplemented!() }
    #[verifier::external_body] pub fn x_iter<'a>(&'a self) -> (r: XIter<(&'a K, &'a V)>) ensures r@ == Seq::new(map_seq(*self).len(), |i: int| (&map_seq(*self)[i], &self@[map_seq(*self)[i]])) { unimplemented!() }
    #[verifier::external_body] pub fn x_keys<'a>(&'a self) -> (r: XIter<&'a K>) ensures r@ == refs::<K>(map_seq(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn x_into_iter(self) -> (r: XIter<(K, V)>) ensures r@ == Seq::new(map_seq(self).len(), |i: int| (map_seq(self)[i], self@[map_seq(self)[i]])) { unimplemented!() }
}
impl<K, V> XIntoIter<(K, V)> for XMap<K, V> { open spec fn seq_s(self) -> Seq<(K, V)> { Seq::new(map_seq(self).len(), |i: int| (map_seq(self)[i], self@[map_seq(self)[i]])) } #[verifier::external_body] fn x_into_iter(self) -> (r: XIter<(K, V)>) { unimplemented!() } }
pub open spec fn map_of<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0, s.last().1) } }
/// what is in a map collected from pairs
pub broadcast proof fn lemma_map_of<K, V>(s: Seq<(K, V)>) ensures forall|i: int| 0 <= i < s.len() ==> map_of(s).dom().contains((#[trigger] s[i]).0), forall|k: K| #[trigger] map_of(s).dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && map_of(s)[k] == s[i].1, (#[trigger] map_of(s)) == map_of(s) decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); lemma_map_of(t); assert forall|i: int| 0 <= i < s.len() implies map_of(s).dom().contains((#[trigger] s[i]).0) by { if i < t.len() { assert(t[i] == s[i]); } }
   assert forall|k: K| #[trigger] map_of(s).dom().contains(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && map_of(s)[k] == s[i].1 by { if k == s.last().0 { assert(s[s.len() - 1].0 == k); } else { assert(map_of(t).dom().contains(k)); let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k && map_of(t)[k] == t[i].1; assert(s[i] == t[i]); } } } }
impl<K, V> XFromIter<(K, V)> for XMap<K, V> { open spec fn is_from(self, s: Seq<(K, V)>) -> bool { self@ == map_of(s) } #[verifier::external_body] fn x_from_iter(it: XIter<(K, V)>) -> (r: Self) { unimplemented!() } }
pub uninterp spec fn empty_map<K, V>() -> XMap<K, V>;
pub broadcast axiom fn axiom_empty_map<K, V>() ensures (#[trigger] empty_map::<K, V>())@ == Map::<K, V>::empty();
impl<K, V> XDefault for XMap<K, V> { open spec fn default_s() -> Self { empty_map() } #[verifier::external_body] fn x_default() -> (r: Self) { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct XSet<K> { k: Vec<K> }
pub uninterp spec fn set_seq<K>(m: XSet<K>) -> Seq<K>;
pub broadcast axiom fn axiom_set_seq<K>(m: XSet<K>) ensures (#[trigger] set_seq(m)).no_duplicates(), forall|k: K| set_seq(m).contains(k) <==> #[trigger] m@.contains(k), set_seq(m).len() == m@.len(), m@.finite();
impl<K> XSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body] pub fn new() -> (r: XSet<K>) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: XSet<K>) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn x_contains<Q: XKey<K> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self@.contains(q.key_s()) { unimplemented!() }
    #[verifier::external_body] pub fn x_insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body] pub fn x_remove<Q: XKey<K> + ?Sized>(&mut self, q: &Q) -> (r: bool) ensures final(self)@ == old(self)@.remove(q.key_s()), r == old(self)@.contains(q.key_s()) { unimplemented!() }
    #[verifier::external_body] pub fn x_is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), self@.finite() { unimplemented!() }
    #[verifier::external_body] pub fn x_extend(&mut self, o: XSet<K>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
    #[verifier::external_body] pub fn x_iter<'a>(&'a self) -> (r: XIter<&'a K>) ensures r@ == refs::<K>(set_seq(*self)) { unimplemented!() }
}
impl<K> XIntoIter<K> for XSet<K> { open spec fn seq_s(self) -> Seq<K> { set_seq(self) } #[verifier::external_body] fn x_into_iter(self) -> (r: XIter<K>) { unimplemented!() } }
impl<'a, K> XIntoIter<&'a K> for &'a XSet<K> { open spec fn seq_s(self) -> Seq<&'a K> { refs::<K>(set_seq(*self)) } #[verifier::external_body] fn x_into_iter(self) -> (r: XIter<&'a K>) { unimplemented!() } }
pub uninterp spec fn empty_set<K>() -> XSet<K>;
pub broadcast axiom fn axiom_empty_set<K>() ensures (#[trigger] empty_set::<K>())@ == Set::<K>::empty();
impl<K> XDefault for XSet<K> { open spec fn default_s() -> Self { empty_set() } #[verifier::external_body] fn x_default() -> (r: Self) { unimplemented!() } }
pub trait XOptExpect<T>: Sized { fn x_expect(self, m: &XStr) -> (r: T) requires self.some_s() ensures r == self.val_s(); fn x_unwrap(self) -> (r: T) requires self.some_s() ensures r == self.val_s(); spec fn some_s(self) -> bool; spec fn val_s(self) -> T; }
impl<T> XOptExpect<T> for Option<T> { open spec fn some_s(self) -> bool { self is Some } open spec fn val_s(self) -> T { self->0 } #[verifier::external_body] fn x_expect(self, m: &XStr) -> (r: T) { unimplemented!() } #[verifier::external_body] fn x_unwrap(self) -> (r: T) { unimplemented!() } }
}
use xmaps::*;
broadcast use {xmaps::axiom_map_seq, xmaps::axiom_set_seq, xmaps::axiom_empty_map, xmaps::axiom_empty_set};
