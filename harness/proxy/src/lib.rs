#![allow(dead_code, static_mut_refs, unknown_lints)]
#[macro_use]
pub mod rt;
#[macro_use]
pub mod world;
pub mod relay;
pub const MODULES: &[(&str, &[(&str, extern "C" fn())])] = &[("relay", relay::ALL)];
