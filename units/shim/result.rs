pub mod sh_result {
use super::*;
verus! {
// Assumed contract of result.rs (Rc<RefCell<..>> shared between source and
// handle): a single-assignment cell.  Setting it twice is an obligation.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
pub struct ResultSource<T, E> { p: core::marker::PhantomData<(T, E)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(E)]
pub struct ResultHandle<T, E> { p: core::marker::PhantomData<(T, E)> }
// What the handle of cell `id` is eventually told (a prophecy: the cell is set at most once).
pub uninterp spec fn told<T, E>(id: int) -> Option<Result<T, E>>;
impl<T, E> ResultSource<T, E> {
    pub uninterp spec fn val(&self) -> Option<Result<T, E>>;
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn set_result(&mut self, r: T) requires old(self).val() is None, ensures final(self).val() == Some(Ok::<T, E>(r)), final(self).id() == old(self).id(), told::<T, E>(old(self).id()) == Some(Ok::<T, E>(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_error(&mut self, e: E) requires old(self).val() is None, ensures final(self).val() == Some(Err::<T, E>(e)), final(self).id() == old(self).id(), told::<T, E>(old(self).id()) == Some(Err::<T, E>(e)) { unimplemented!() }
}
impl<T, E> ResultHandle<T, E> {
    pub uninterp spec fn id(&self) -> int;
    // the value seen by the handle is the one its source holds at that moment:
    // nothing so far, or what the handle is told
    #[verifier::external_body]
    pub fn check_result(&self) -> (r: Option<Result<T, E>>) ensures r is Some ==> told::<T, E>(self.id()) == r { unimplemented!() }
}
#[verifier::external_body]
pub fn create_eventual_result<T, E>() -> (r: (ResultHandle<T, E>, ResultSource<T, E>)) ensures r.1.val() is None, r.0.id() == r.1.id() { unimplemented!() }
#[verifier::external_body]
pub fn create_result_from_error<T, E>(e: E) -> (r: ResultHandle<T, E>) ensures told::<T, E>(r.id()) == Some(Err::<T, E>(e)) { unimplemented!() }
} // verus!
}
pub use sh_result::*;
