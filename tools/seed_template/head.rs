#![allow(unused, dead_code)]
extern crate alloc;
extern crate self as tcp_runtime;
extern crate self as tcp_tablet_store_service;
mod scaffold;
pub use scaffold::logger;
pub mod apps {
    pub mod tablet_cache {
        pub mod service {
            include!(concat!(env!("OUT_DIR"), "/apps.tablet_cache.service.rs"));
        }
    }
    pub mod tablet_store {
        pub mod service {
            include!(concat!(env!("OUT_DIR"), "/apps.tablet_store.service.rs"));
        }
    }
}
pub mod store;
pub mod transaction;

use apps::tablet_cache::service::*;
use apps::tablet_store::service::*;
use transaction::metadata::*;
use transaction::*;

