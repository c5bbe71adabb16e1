pub mod sh_hashmap {
use super::*;
verus! {
// Assumed contract of hashbrown / std HashMap: a finite map.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
pub open spec fn enumerates<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(#[trigger] s[i].0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && s[i].0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].0 != #[trigger] s[j].0
}
pub open spec fn enumerates_ref<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            match r { Some(p) => old(self)@.dom().contains(k) && p == old(self)@[k], None => !old(self)@.dom().contains(k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            match r { Some(p) => old(self)@.dom().contains(*k) && p == old(self)@[*k], None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: SIter<(&'a K, &'a V)>) ensures enumerates_ref(r.rem(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: SIter<&'a V>)
        ensures exists|s: Seq<(&'a K, &'a V)>| #![auto] enumerates_ref(s, self@) && r.rem() == s.map_values(|p: (&'a K, &'a V)| p.1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_mut<'a>(&'a mut self) -> (r: SIter<(&'a K, &'a mut V)>)
        ensures
            forall|i: int| 0 <= i < r.rem().len() ==> old(self)@.dom().contains(*(#[trigger] r.rem()[i]).0) && old(self)@[*r.rem()[i].0] == *r.rem()[i].1
                && final(self)@[*r.rem()[i].0] == *final(r.rem()[i].1),
            forall|k: K| #[trigger] old(self)@.dom().contains(k) ==> exists|i: int| 0 <= i < r.rem().len() && *(#[trigger] r.rem()[i]).0 == k,
            forall|i: int, j: int| 0 <= i < j < r.rem().len() ==> *(#[trigger] r.rem()[i]).0 != *(#[trigger] r.rem()[j]).0,
            final(self)@.dom() == old(self)@.dom(),
    { unimplemented!() }
    // retain(|_, v| f(v)) with a predicate that only reads the value
    #[verifier::external_body]
    pub fn vx_retain<F: Fn(&V) -> bool>(&mut self, f: F)
        requires forall|v: V| #[trigger] f.requires((&v,)),
        ensures forall|k: K| #[trigger] final(self)@.dom().contains(k) ==> old(self)@.dom().contains(k) && final(self)@[k] == old(self)@[k] && f.ensures((&old(self)@[k],), true),
            forall|k: K| #[trigger] old(self)@.dom().contains(k) ==> final(self)@.dom().contains(k) || f.ensures((&old(self)@[k],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures match r {
            Entry::Occupied(e) => old(self)@.dom().contains(k) && e.k@ == k && *e.val == old(self)@[k]
                && final(self)@ == old(self)@.insert(k, *final(e.val)),
            Entry::Vacant(e) => !old(self)@.dom().contains(k) && e.k@ == k && *e.slot is None
                && (final(self)@ == match *final(e.slot) { Some(v) => old(self)@.insert(k, v), None => old(self)@ }),
        }
    { unimplemented!() }
}
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = SIter<(&'a K, &'a mut V)>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: SIter<(&'a K, &'a mut V)>)
        ensures
            forall|i: int| 0 <= i < r.rem().len() ==> old(self)@.dom().contains(*(#[trigger] r.rem()[i]).0) && old(self)@[*r.rem()[i].0] == *r.rem()[i].1
                && final(self)@[*r.rem()[i].0] == *final(r.rem()[i].1),
            forall|k: K| #[trigger] old(self)@.dom().contains(k) ==> exists|i: int| 0 <= i < r.rem().len() && *(#[trigger] r.rem()[i]).0 == k,
            forall|i: int, j: int| 0 <= i < j < r.rem().len() ==> *(#[trigger] r.rem()[i]).0 != *(#[trigger] r.rem()[j]).0,
            final(self)@.dom() == old(self)@.dom(),
    { unimplemented!() }
}
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = SIter<(&'a K, &'a V)>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: SIter<(&'a K, &'a V)>) ensures enumerates_ref(r.rem(), self@) { unimplemented!() }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = SIter<(K, V)>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: SIter<(K, V)>) ensures enumerates(r.rem(), self@) { unimplemented!() }
}
// values(), with the keys the values belong to
pub open spec fn lists_values<K, V>(v: Seq<&V>, ks: Seq<K>, m: Map<K, V>) -> bool {
    &&& v.len() == ks.len() && ks.len() == m.dom().len()
    &&& forall|i: int| #![trigger v[i]] #![trigger ks[i]] 0 <= i < ks.len() ==> m.dom().contains(ks[i]) && m[ks[i]] == *v[i]
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < ks.len() && ks[i] == k
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j]
}
#[verifier::external_body]
pub fn vx_values<'a, K, V>(m: &'a HashMap<K, V>) -> (r: (Vec<&'a V>, Ghost<Seq<K>>))
    ensures lists_values(r.0@, r.1@, m@),
{ unimplemented!() }
// values_mut(), with the keys the values belong to
#[verifier::external_body]
pub fn vx_values_mut<'a, K, V>(m: &'a mut HashMap<K, V>) -> (r: (Vec<&'a mut V>, Ghost<Seq<K>>))
    ensures r.0@.len() == r.1@.len(), final(m)@.dom() == old(m)@.dom(),
        forall|i: int| #![trigger r.1@[i]] #![trigger r.0@[i]] 0 <= i < r.1@.len() ==> old(m)@.dom().contains(r.1@[i]) && old(m)@[r.1@[i]] == *r.0@[i] && final(m)@[r.1@[i]] == *final(r.0@[i]),
        forall|k: K| #[trigger] old(m)@.dom().contains(k) ==> exists|i: int| 0 <= i < r.1@.len() && r.1@[i] == k,
        forall|i: int, j: int| 0 <= i < j < r.1@.len() ==> #[trigger] r.1@[i] != #[trigger] r.1@[j],
{ unimplemented!() }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { pub k: Ghost<K>, pub val: &'a mut V }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { pub k: Ghost<K>, pub slot: &'a mut Option<V> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub use self::Entry::Occupied;
pub use self::Entry::Vacant;
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V) ensures *r == v, *final(self.slot) == Some(*final(r)) { unimplemented!() }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get_mut<'b>(&'b mut self) -> (r: &'b mut V)
        ensures *r == *old(self).val, *final(self).val == *final(r), final(self).k == old(self).k, *final(final(self).val) == *final(old(self).val)
    { &mut *self.val }
    pub fn get<'b>(&'b self) -> (r: &'b V) ensures *r == *old(self.val) { &*self.val }
    pub fn insert(&mut self, v: V) -> (r: V)
        ensures r == *old(self).val, *final(self).val == v, final(self).k == old(self).k, *final(final(self).val) == *final(old(self).val)
    { mem::replace(&mut *self.val, v) }
}
impl<'a, K, V> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_insert(self, d: V) -> (r: &'a mut V)
        ensures match self {
            Entry::Occupied(e) => *r == *e.val && *final(e.val) == *final(r),
            Entry::Vacant(e) => *r == d && *final(e.slot) == Some(*final(r)),
        }
    { unimplemented!() }
}
} // verus!
}
pub use sh_hashmap::*;
