pub mod sh_btreeset {
use super::*;
verus! {
// Assumed contract of BTreeSet<u32>: a finite set iterated in ascending order.
#[verifier::external_body]
pub struct BTreeSetU32 { k: std::collections::BTreeSet<u32> }
impl View for BTreeSetU32 { type V = Set<u32>; uninterp spec fn view(&self) -> Set<u32>; }
pub broadcast axiom fn ax_btreeset_ext(a: BTreeSetU32, b: BTreeSetU32) ensures (#[trigger] a@ == #[trigger] b@) ==> a == b;
// strictly increasing enumeration of a set
pub open spec fn sorted_enum(s: Seq<u32>, m: Set<u32>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j]
    &&& forall|k: u32| #[trigger] m.contains(k) <==> s.contains(k)
}
pub open spec fn derefs(s: Seq<&u32>) -> Seq<u32> { Seq::new(s.len(), |i: int| *s[i]) }
#[verifier::external_body]
pub struct U32RangeIter<'a> { p: core::marker::PhantomData<&'a u32> }
impl<'a> U32RangeIter<'a> {
    pub uninterp spec fn lo(&self) -> u32;
    pub uninterp spec fn set(&self) -> Set<u32>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a u32>)
        ensures match r {
            Some(x) => old(self).set().contains(*x) && *x >= old(self).lo()
                && (forall|y: u32| #[trigger] old(self).set().contains(y) && y >= old(self).lo() ==> y >= *x),
            None => forall|y: u32| #[trigger] old(self).set().contains(y) ==> y < old(self).lo(),
        }
    { unimplemented!() }
}
impl BTreeSetU32 {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<u32>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: u32) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<u32>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<u32>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &u32) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn first<'a>(&'a self) -> (r: Option<&'a u32>)
        ensures match r { Some(x) => self@.contains(*x) && (forall|y: u32| #[trigger] self@.contains(y) ==> *x <= y), None => self@ =~= Set::<u32>::empty() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last<'a>(&'a self) -> (r: Option<&'a u32>)
        ensures match r { Some(x) => self@.contains(*x) && (forall|y: u32| #[trigger] self@.contains(y) ==> *x >= y), None => self@ =~= Set::<u32>::empty() }
    { unimplemented!() }
    // BTreeSet::range(lo..)
    #[verifier::external_body]
    pub fn range<'a>(&'a self, r: core::ops::RangeFrom<u32>) -> (it: U32RangeIter<'a>) ensures it.lo() == r.start, it.set() == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: SIter<&'a u32>) ensures sorted_enum(derefs(r.rem()), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_from_vec(v: Vec<u32>) -> (r: Self) ensures forall|k: u32| #[trigger] r@.contains(k) <==> v@.contains(k) { unimplemented!() }
}
impl<'a> IntoIterator for &'a BTreeSetU32 {
    type Item = &'a u32;
    type IntoIter = SIter<&'a u32>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: SIter<&'a u32>) ensures sorted_enum(derefs(r.rem()), self@) { unimplemented!() }
}
impl Clone for BTreeSetU32 {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
} // verus!
}
pub use sh_btreeset::*;
