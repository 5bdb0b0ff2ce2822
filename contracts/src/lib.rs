//! Executable contracts for the public API of `rustc_apfloat`.
pub mod chk;
pub mod fmts;
pub mod spec;
#[cfg(not(kani))]
pub mod big;
#[cfg(not(kani))]
pub mod text;
#[cfg(kani)]
mod harness;
