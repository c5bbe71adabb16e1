#![allow(unused, dead_code, deprecated)]
#![feature(trait_alias)]
extern crate alloc;
extern crate raft;
extern crate self as oak_proto_rust;
extern crate self as oak_time;
extern crate self as tcp_proto;
use std::error::Error as StdError;

pub mod oak {
    pub mod attestation {
        pub mod v1 {
            include!(concat!(env!("OUT_DIR"), "/oak.attestation.v1.rs"));
        }
    }
    pub mod session {
        pub mod v1 {
            include!(concat!(env!("OUT_DIR"), "/oak.session.v1.rs"));
        }
    }
}
mod trustedcompute {
    pub mod runtime {
        pub mod endpoint {
            include!(concat!(env!("OUT_DIR"), "/trustedcompute.runtime.endpoint.rs"));
        }
    }
}
// tcp_proto::runtime; the oak types are referred to relative to it
pub mod runtime { pub use super::trustedcompute::runtime::endpoint; }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Instant(pub i64);
impl Instant { pub fn from_unix_millis(t: i64) -> Instant { Instant(t) } pub fn into_unix_millis(&self) -> i64 { self.0 } }
pub trait Clock { fn get_time(&self) -> Instant; }
pub mod session;
#[path = "/repo/runtime/src/communication.rs"]
pub mod communication;
#[path = "/repo/runtime/src/consensus.rs"]
pub mod consensus;
#[path = "/repo/runtime/src/driver.rs"]
pub mod driver;
#[path = "/repo/runtime/src/encryptor.rs"]
pub mod encryptor;
#[path = "/repo/runtime/src/handshake.rs"]
pub mod handshake;
#[path = "/repo/runtime/src/logger.rs"]
pub mod logger;
#[path = "/repo/runtime/src/model.rs"]
pub mod model;
#[path = "/repo/runtime/src/platform.rs"]
pub mod platform;
#[path = "/repo/runtime/src/snapshot.rs"]
pub mod snapshot;
#[path = "/repo/runtime/src/storage.rs"]
pub mod storage;
#[path = "/repo/runtime/src/util.rs"]
pub mod util;

#[macro_use]
#[path = "../../common/vxh.rs"]
mod vxh;
#[cfg(feature = "C12")]
mod stor;
#[cfg(feature = "C13")]
mod snap;
#[cfg(feature = "C14")]
mod comm;
#[cfg(feature = "C15")]
mod hand;
#[cfg(any(feature = "C16", feature = "C21"))]
mod drv;
#[cfg(any(feature = "C16", feature = "C21"))]
mod cons;

fn main() {
    let mut ctx = vxh::Ctx::from_args();
    match ctx.prop.clone().as_str() {
        #[cfg(feature = "C12")]
        "C12" => stor::c12(&mut ctx),
        #[cfg(feature = "C13")]
        "C13" => snap::c13(&mut ctx),
        #[cfg(feature = "C14")]
        "C14" => comm::c14(&mut ctx),
        #[cfg(feature = "C15")]
        "C15" => hand::c15(&mut ctx),
        #[cfg(feature = "C16")]
        "C16" => drv::c16(&mut ctx),
        #[cfg(feature = "C21")]
        "C21" => drv::c21(&mut ctx),
        p => panic!("unknown property {}", p),
    }
    ctx.report();
}
