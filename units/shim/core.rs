#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_assignments, unused_parens, unused_braces, non_camel_case_types, unused_must_use, unreachable_code)]
use vstd::prelude::*;
use vstd::std_specs::iter::{IteratorSpec, IteratorSpecImpl};
use core::mem;
pub mod cmp {
use vstd::prelude::*;
verus! {
pub fn max(a: u64, b: u64) -> (r: u64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn min(a: u64, b: u64) -> (r: u64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
} // verus!
}
pub mod sh_core {
use super::*;
verus! {
// ------------------------------------------------------------------ panics
// A panic is an obligation: the path that reaches it must be unreachable.
#[verifier::external_body]
pub fn vx_panic() -> (r: !) requires false { panic!() }
#[verifier::external_body]
pub fn vx_unreachable() -> (r: !) requires false { panic!() }
#[verifier::external_body]
pub fn vx_todo() -> (r: !) requires false { panic!() }
#[verifier::external_body]
pub fn vx_unimplemented() -> (r: !) requires false { panic!() }
pub fn vx_assert(b: bool) requires b { }
pub assume_specification<T> [core::mem::replace] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;

// --------------------------------------------------------------- iteration
// Assumed contract of a standard by-value / by-reference iterator: it yields
// exactly the elements of rem(), in order, then None.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SIter<T> { v: std::vec::IntoIter<T> }
impl<T> SIter<T> { pub uninterp spec fn rem(&self) -> Seq<T>; }
impl<T> Iterator for SIter<T> {
    type Item = T;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { self.v.next() }
}
impl<T> IteratorSpecImpl for SIter<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<T> { self.rem() }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.rem().len()) }
    open spec fn peek(&self, i: int) -> Option<T> { if 0 <= i < self.rem().len() { Some(self.rem()[i]) } else { None } }
}
} // verus!
}
pub use sh_core::*;
