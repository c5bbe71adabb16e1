#![allow(unused, dead_code)]
#![feature(trait_alias)]
extern crate alloc;
extern crate self as oak_attestation_types;
extern crate self as oak_attestation_verification;
extern crate self as oak_attestation_verification_types;
extern crate self as oak_crypto;
extern crate self as oak_dice_attestation_verifier;
extern crate self as oak_proto_rust;
extern crate self as oak_restricted_kernel_sdk;
extern crate self as oak_sdk_common;
extern crate self as oak_sdk_containers;
extern crate self as oak_session;
extern crate self as oak_session_endorsed_evidence;
extern crate self as oak_time;
extern crate self as tonic;
mod stubs;
pub use stubs::*;

#[macro_use]
#[path = "../../common/vxh.rs"]
mod vxh;

#[path = "/repo/runtime/src/session.rs"]
pub mod sessions;
mod checks;

fn main() {
    let mut ctx = vxh::Ctx::from_args();
    match ctx.prop.clone().as_str() {
        #[cfg(feature = "C22")]
        "C22" => checks::c22(&mut ctx),
        p => panic!("unknown property {}", p),
    }
    ctx.report();
}
