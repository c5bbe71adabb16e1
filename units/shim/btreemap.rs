pub mod sh_btreemap {
use super::*;
verus! {
// Assumed contract of BTreeMap<u32, V>: a finite map iterated in ascending order of its keys.
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMapU32<V> { k: core::marker::PhantomData<V> }
impl<V> View for BTreeMapU32<V> { type V = Map<u32, V>; uninterp spec fn view(&self) -> Map<u32, V>; }
// s lists, in ascending order, the entries of m whose key is at least lo
pub open spec fn lists_from<V>(s: Seq<(&u32, &V)>, m: Map<u32, V>, lo: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1 && *s[i].0 >= lo
    &&& forall|k: u32| #[trigger] m.dom().contains(k) && k >= lo ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 < *(#[trigger] s[j]).0
}
impl<V> BTreeMapU32<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<u32, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<u32, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<u32, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &u32) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &u32) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &u32) -> (r: Option<&'a mut V>)
        ensures match r {
            Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: u32, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            match r { Some(p) => old(self)@.dom().contains(k) && p == old(self)@[k], None => !old(self)@.dom().contains(k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &u32) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            match r { Some(p) => old(self)@.dom().contains(*k) && p == old(self)@[*k], None => !old(self)@.dom().contains(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn first_key_value<'a>(&'a self) -> (r: Option<(&'a u32, &'a V)>)
        ensures match r {
            Some(e) => self@.dom().contains(*e.0) && self@[*e.0] == *e.1 && (forall|k: u32| #[trigger] self@.dom().contains(k) ==> *e.0 <= k),
            None => self@ =~= Map::<u32, V>::empty(),
        }
    { unimplemented!() }
    // range(lo..)
    #[verifier::external_body]
    pub fn range<'a>(&'a self, r: core::ops::RangeFrom<u32>) -> (it: SIter<(&'a u32, &'a V)>) ensures lists_from(it.rem(), self@, r.start as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (it: SIter<(&'a u32, &'a V)>) ensures lists_from(it.rem(), self@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (it: SIter<&'a V>)
        ensures exists|s: Seq<(&'a u32, &'a V)>| #[trigger] lists_from(s, self@, 0) && it.rem() == s.map_values(|p: (&'a u32, &'a V)| p.1)
    { unimplemented!() }
}
} // verus!
}
pub use sh_btreemap::*;
