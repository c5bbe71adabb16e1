pub mod sh_bytes {
use super::*;
verus! {
// Assumed: bytes::Bytes is an immutable byte string.
#[verifier::external_body]
pub struct Bytes { s: std::vec::Vec<u8> }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes {
    #[verifier::external_body]
    pub fn new() -> (r: Bytes) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
pub broadcast axiom fn ax_bytes_ext(a: Bytes, b: Bytes)
    ensures (#[trigger] a@ == #[trigger] b@) ==> a == b;
impl Clone for Bytes {
    #[verifier::external_body]
    fn clone(&self) -> (r: Bytes) ensures r == *self { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Bytes {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Bytes) -> bool { *self == *other }
}
impl PartialEq for Bytes {
    #[verifier::external_body]
    fn eq(&self, other: &Bytes) -> (r: bool) { unimplemented!() }
}
impl Eq for Bytes {}
impl Default for Bytes {
    #[verifier::external_body]
    fn default() -> (r: Bytes) ensures r@.len() == 0 { unimplemented!() }
}
} // verus!
}
pub use sh_bytes::*;
