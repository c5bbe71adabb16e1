#![allow(unused, dead_code)]
extern crate alloc;
use std::error::Error as StdError;
extern crate self as oak_proto_rust;
extern crate self as oak_time;
extern crate self as rand;
extern crate self as tcp_runtime;

mod stubs;
pub use stubs::oak;
pub trait Clock {}
pub trait RngCore { fn next_u32(&mut self) -> u32; }
#[path = "/repo/runtime/src/model.rs"]
pub mod model;
pub mod apps {
    pub mod atomic_counter {
        pub mod service {
            include!(concat!(env!("OUT_DIR"), "/apps.atomic_counter.service.rs"));
        }
    }
    pub mod willow {
        pub mod decryptor {
            pub mod service {
                include!(concat!(env!("OUT_DIR"), "/apps.willow.decryptor.service.rs"));
            }
        }
    }
}

#[macro_use]
#[path = "../../common/vxh.rs"]
mod vxh;

#[cfg(feature = "C17")]
#[path = "/repo/apps/atomic_counter/service/src/actor.rs"]
pub mod counter_actor;
#[cfg(feature = "C17")]
mod counter;

// What the decryptor actor takes from other crates.
#[cfg(feature = "C18")]
mod crypto;
#[cfg(feature = "C18")]
pub use crypto::*;
#[cfg(feature = "C18")]
extern crate self as ahe_traits;
#[cfg(feature = "C18")]
extern crate self as decryptor_traits;
#[cfg(feature = "C18")]
extern crate self as key_rust_proto;
#[cfg(feature = "C18")]
extern crate self as messages;
#[cfg(feature = "C18")]
extern crate self as messages_rust_proto;
#[cfg(feature = "C18")]
extern crate self as micro_rpc;
#[cfg(feature = "C18")]
extern crate self as proto_serialization_traits;
#[cfg(feature = "C18")]
extern crate self as protobuf;
#[cfg(feature = "C18")]
extern crate self as secure_aggregation;
#[cfg(feature = "C18")]
extern crate self as shell_parameters;
#[cfg(feature = "C18")]
extern crate self as shell_vahe;
#[cfg(feature = "C18")]
extern crate self as willow_v1_decryptor;
#[cfg(feature = "C18")]
#[path = "/repo/apps/willow/decryptor/actor/src/actor.rs"]
pub mod willow_actor;
#[cfg(feature = "C18")]
mod willow;

// the reference values actors are made with
pub fn refs() -> oak::attestation::v1::ReferenceValues { oak::attestation::v1::ReferenceValues { r#type: Some(oak::attestation::v1::reference_values::Type::OakRestrictedKernel(Default::default())) } }
fn main() {
    let mut ctx = vxh::Ctx::from_args();
    match ctx.prop.clone().as_str() {
        #[cfg(feature = "C17")]
        "C17" => counter::c17(&mut ctx),
        #[cfg(feature = "C18")]
        "C18" => willow::c18(&mut ctx),
        p => panic!("unknown property {}", p),
    }
    ctx.report();
}
