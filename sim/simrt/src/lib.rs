//! Deterministic simulation runtime. See /verif/DESIGN.md.
#![allow(static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
pub mod disk;
pub mod driver;
pub mod hist;
pub mod hooks;
pub mod interpose;
pub mod kv;
pub mod raw;
pub mod rng;
pub mod sched;
pub mod shared;
pub use rng::Rng;
