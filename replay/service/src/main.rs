#![allow(unused, dead_code)]
extern crate alloc;
extern crate self as oak_proto_rust;
extern crate self as slog;
extern crate self as tonic;
mod stubs;
pub use stubs::*;

#[macro_use]
#[path = "../../common/vxh.rs"]
mod vxh;

#[path = "/repo/runtime/src/service.rs"]
pub mod service;
mod checks;

fn main() {
    let mut ctx = vxh::Ctx::from_args();
    match ctx.prop.clone().as_str() {
        #[cfg(feature = "C23")]
        "C23" => checks::c23(&mut ctx),
        p => panic!("unknown property {}", p),
    }
    ctx.report();
}
