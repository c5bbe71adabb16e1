#![allow(unused, dead_code)]
extern crate alloc;
extern crate self as oak_proto_rust;
extern crate self as oak_time;
extern crate self as rand;
extern crate self as tcp_runtime;
use std::error::Error as StdError;

mod stubs;
pub use stubs::oak;
pub trait Clock {}
pub trait RngCore { fn next_u32(&mut self) -> u32; }
pub mod rngs {
    pub struct OsRng;
    thread_local! { static N: std::cell::Cell<u64> = const { std::cell::Cell::new(7) }; }
    impl crate::RngCore for OsRng {
        fn next_u32(&mut self) -> u32 { N.with(|n| { let mut r = crate::vxh::Rng(n.get()); /* what is random may come again */ let v = if r.chance(1, 2) { r.u32() } else { r.below(40) as u32 }; n.set(r.0); v }) }
    }
}
#[path = "/repo/runtime/src/model.rs"]
pub mod model;
pub mod apps {
    pub mod tablet_store {
        pub mod service {
            include!(concat!(env!("OUT_DIR"), "/apps.tablet_store.service.rs"));
        }
    }
}
#[path = "/repo/apps/tablet_store/service/src/actor.rs"]
pub mod actor;

#[macro_use]
#[path = "../../common/vxh.rs"]
mod vxh;
mod ts;

fn main() {
    let mut ctx = vxh::Ctx::from_args();
    match ctx.prop.clone().as_str() {
        "C08" => ts::c08(&mut ctx),
        "C09" => ts::c09(&mut ctx),
        "C10" => ts::c10(&mut ctx),
        "C11" => ts::c11(&mut ctx),
        p => panic!("unknown property {}", p),
    }
    ctx.report();
}
