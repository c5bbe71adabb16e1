pub mod sh_message {
use super::*;
verus! {
// Assumed contract of prost: encoding a message and decoding the bytes gives the message back;
// what bytes decode to depends on the bytes only.
pub uninterp spec fn vx_decoded<M>(b: Bytes) -> Option<M>;
#[derive(Debug)]
pub struct DecodeError {}
#[verifier::external_body]
pub fn vx_decode<M>(b: Bytes) -> (r: Result<M, DecodeError>) ensures match r { Ok(m) => vx_decoded::<M>(b) == Some(m), Err(_) => vx_decoded::<M>(b) is None } { unimplemented!() }
#[verifier::external_body]
pub fn vx_encode<M>(m: &M) -> (r: Bytes) ensures vx_decoded::<M>(r) == Some(*m) { unimplemented!() }
} // verus!
}
pub use sh_message::*;
