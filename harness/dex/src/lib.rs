#![allow(dead_code, static_mut_refs)]
#[macro_use]
pub mod rt;
#[macro_use]
pub mod world;
pub mod auth;
pub mod book;
pub mod cancel;
pub mod consume;
pub mod history;
pub mod lifecycle;
pub mod orders;
pub mod power;
pub mod queue;
pub mod settle;
pub mod slab;
pub mod take;
pub mod wire;

pub const MODULES: &[(&str, &[(&str, extern "C" fn())])] = &[("auth", auth::ALL), ("queue", queue::ALL), ("wire", wire::ALL), ("slab", slab::ALL), ("power", power::ALL), ("lifecycle", lifecycle::ALL), ("settle", settle::ALL), ("orders", orders::ALL), ("cancel", cancel::ALL), ("history", history::ALL), ("take", take::ALL), ("consume", consume::ALL)];
