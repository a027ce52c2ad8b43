//! See wasm-sim.
pub use wasm_sim::*;
