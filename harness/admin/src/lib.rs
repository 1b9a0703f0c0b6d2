#![allow(dead_code, static_mut_refs, unknown_lints)]
#[macro_use]
#[path = "../../pool/src/rt.rs"]
pub mod rt;
#[macro_use]
#[path = "../../pool/src/world.rs"]
pub mod world;
pub mod admin;
pub const MODULES: &[(&str, &[(&str, extern "C" fn())])] = &[("admin", admin::ALL)];
