pub mod sh_string {
use super::*;
verus! {
// Assumed: an owned string behaves as an immutable value; equality is value
// equality and clone() yields an equal value.
#[verifier::external_body]
pub struct String { s: std::string::String }
impl View for String { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl String {
    pub open spec fn is_empty_spec(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body]
    pub fn new() -> (r: String) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
pub broadcast axiom fn ax_string_ext(a: String, b: String)
    ensures (#[trigger] a@ == #[trigger] b@) ==> a == b;
impl Clone for String {
    #[verifier::external_body]
    fn clone(&self) -> (r: String) ensures r == *self { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for String {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &String) -> bool { *self == *other }
}
impl PartialEq for String {
    #[verifier::external_body]
    fn eq(&self, other: &String) -> (r: bool) { unimplemented!() }
}
impl Eq for String {}
#[verifier::external_body]
pub fn vx_format() -> (r: String) { unimplemented!() }
} // verus!
}
pub use sh_string::*;
