#![allow(unused, dead_code)]
extern crate alloc;
#[cfg(feature = "C20")]
extern crate self as oak_proto_rust;
#[cfg(feature = "C20")]
extern crate self as oak_time;
#[cfg(feature = "C20")]
extern crate self as rand;
extern crate self as tcp_runtime;
extern crate self as tcp_tablet_store_service;

// The logger of the runtime; the checked code only passes it along.
pub mod logger {
    pub mod log {
        pub fn create_logger() -> slog::Logger {
            slog::Logger::root(slog::Discard, slog::o!())
        }
    }
}
pub mod apps {
    pub mod tablet_cache {
        pub mod service {
            include!(concat!(env!("OUT_DIR"), "/apps.tablet_cache.service.rs"));
        }
    }
    pub mod tablet_store {
        pub mod service {
            include!(concat!(env!("OUT_DIR"), "/apps.tablet_store.service.rs"));
        }
    }
}
pub mod store;
pub mod transaction;

// The actors of a tablet cache node and of the tablet store, over stand-ins for
// attestation values, clock and random generator.
#[cfg(feature = "C20")]
mod stubs;
#[cfg(feature = "C20")]
pub use {std::error::Error as StdError, stubs::oak};
#[cfg(feature = "C20")]
pub trait Clock {}
#[cfg(feature = "C20")]
pub trait RngCore { fn next_u32(&mut self) -> u32; }
#[cfg(feature = "C20")]
pub mod rngs {
    pub struct OsRng;
    impl crate::RngCore for OsRng { fn next_u32(&mut self) -> u32 { 4 } }
}
#[cfg(feature = "C20")]
#[path = "/repo/runtime/src/model.rs"]
pub mod model;
#[cfg(feature = "C20")]
#[path = "/repo/apps/tablet_cache/service/src/actor.rs"]
pub mod cache_actor;
#[cfg(feature = "C20")]
#[path = "/repo/apps/tablet_store/service/src/actor.rs"]
pub mod actor;

#[macro_use]
#[path = "../../common/vxh.rs"]
mod vxh;
mod common;
#[cfg(any(feature = "C01", feature = "C02"))]
mod meta;
#[cfg(feature = "C03")]
mod data;
#[cfg(any(feature = "C04", feature = "C05"))]
mod coord;
#[cfg(feature = "C06")]
mod manager;
#[cfg(feature = "C07")]
mod kv;
#[cfg(feature = "C19")]
mod res;
#[cfg(feature = "C20")]
mod node;

fn main() {
    let mut ctx = vxh::Ctx::from_args();
    match ctx.prop.clone().as_str() {
        #[cfg(feature = "C01")]
        "C01" => meta::c01(&mut ctx),
        #[cfg(feature = "C02")]
        "C02" => meta::c02(&mut ctx),
        #[cfg(feature = "C03")]
        "C03" => data::c03(&mut ctx),
        #[cfg(feature = "C04")]
        "C04" => coord::c04(&mut ctx),
        #[cfg(feature = "C05")]
        "C05" => coord::c05(&mut ctx),
        #[cfg(feature = "C06")]
        "C06" => manager::c06(&mut ctx),
        #[cfg(feature = "C07")]
        "C07" => kv::c07(&mut ctx),
        #[cfg(feature = "C19")]
        "C19" => res::c19(&mut ctx),
        #[cfg(feature = "C20")]
        "C20" => node::c20(&mut ctx),
        #[cfg(feature = "C20")]
        "nodes" => node::nodes(&mut ctx),
        p => panic!("unknown property {}", p),
    }
    ctx.report();
}
