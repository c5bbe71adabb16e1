pub mod anyhow {
use vstd::prelude::*;
verus! {
// anyhow::Error: what it says is not specified
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { p: u8 }
pub type Result<T, E = Error> = core::result::Result<T, E>;
} // verus!
}
pub mod sh_anyhow {
use super::*;
verus! {
#[verifier::external_body]
pub fn vx_anyhow() -> (r: anyhow::Error) { unimplemented!() }
} // verus!
}
pub use sh_anyhow::*;
