#![allow(dead_code, static_mut_refs, unknown_lints)]
#[macro_use]
pub mod rt;
#[macro_use]
pub mod world;
pub mod auth;
pub mod exec;
pub const MODULES: &[(&str, &[(&str, extern "C" fn())])] = &[("auth", auth::ALL), ("exec", exec::ALL)];
