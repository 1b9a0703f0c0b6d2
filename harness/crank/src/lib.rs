#![allow(dead_code, static_mut_refs, unknown_lints)]
#[macro_use]
pub mod rt;
#[macro_use]
pub mod world;
pub mod client;
pub mod events;
pub const MODULES: &[(&str, &[(&str, extern "C" fn())])] = &[("client", client::ALL), ("events", events::ALL)];
