//! Ideal stand-ins for the `mpz` libraries.
//!
//! Two parties compute in the clear: inputs are exchanged over the context's
//! channel and both evaluate. What a party may *read* follows the rules of the
//! real thing: its own inputs, public values and decoded values only.
pub mod circuits;
pub mod common;
pub mod core;
pub mod fields;
pub mod hash;
pub mod memory;
pub mod ot;
pub mod share;
pub mod vm;
pub mod watch;
