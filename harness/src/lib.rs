//! Conformance harness for the TLA+ specification of regalloc2.
//! This crate uses only the public API of regalloc2.
pub mod func;
pub mod gen;
pub mod json;
pub mod rng;
pub mod record;
pub mod screen;
pub mod shrink;
pub mod textio;
pub mod ck;
